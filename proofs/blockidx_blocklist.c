/* Contract of sqfs_blockidx_blocklist.
 * @what random access starts at a block not after the one wanted, with the position and metadata cursor that sequential reading would have there
 * @source src/file.c src/fs.c
 * @fn sqfs_blockidx_blocklist sqfs_blockidx_indexable sqfs_blocklist_init sqfs_blocklist_count
 * @replace sqfs_blockidx_add
 * @variants LG=12 | LG=17 | LG=20
 * @thorough LG=13 | LG=14 | LG=15 | LG=16 | LG=18 | LG=19
 * @unwind 2
 * @nobody sqfs_table_get sqfs_table_init sqfs_table_destroy sqfs_decompressor_get sqfs_mode MUTEX_INIT MUTEX_DESTORY sqfs_cache_invalidate sqfs_cache_destroy sqfs_block_cache_init sqfs_cache_init sqfs_cache_add
 */
#include "blocks.h"
#include "cur/fs.c"
#include "cur/file.c"
#define BOF(m) (2048 * ((uint64_t)(m)) - g_off0 / 4)
static MUTEX *held;
static int bad_lock;
int MUTEX_LOCK(MUTEX *m) { if (held) bad_lock = 1; held = m; return 0; }
int MUTEX_UNLOCK(MUTEX *m) { if (held != m) bad_lock = 1; held = 0; return 0; }
static sqfs *the_fs;
static sqfs_inode *the_ino;
static uint64_t its, g_m, g_count;
static sqfs_blockidx_entry *arr;
static bool present;
static int adds, add_failed;
void *sqfs_cache_get(sqfs_cache *c, sqfs_cache_idx idx) {
	CALLEE(c == &the_fs->blockidx && held == &c->mutex, "the index cache is searched under its lock");
	CALLEE(idx == (uint64_t)the_ino->base.inode_number + 1, "for the key of this file");
	return present ? &arr : NULL;
}
sqfs_err stub_sqfs_blockidx_add(sqfs *fs, sqfs_inode *ino, sqfs_blockidx_entry **out) {
	CALLEE(fs == the_fs && ino == the_ino && held == &fs->blockidx.mutex, "the index of this file is built under the lock");
	CALLEE(g_off0 + 4 * g_count > 8192, "only a file whose block list spans metadata blocks is indexed");
	CALLEE(!present, "an index that exists is not built again");
	adds++;
	*out = NULL;
	if (nondet_bool()) { add_failed = 1; return SQFS_ERR; }
	*out = arr;
	return SQFS_OK;
}
void harness(void) {
	sqfs fs;
	struct squashfs_super_block sb;
	sqfs_inode ino;
	sqfs_blocklist bl;
	sqfs_off_t start;
	uint64_t want, i;
	sqfs_err e;
	the_fs = &fs; the_ino = &ino; fs.sb = &sb; sb.block_size = BS;
	held = 0; bad_lock = 0; adds = add_failed = 0;
	present = nondet_bool();
	ASSUME(ino.xtra.reg.file_size < MAXFILE && ino.base.inode_number != 0xffffffffu);
	g_count = COUNT(ino.xtra.reg.file_size, ino.xtra.reg.frag_idx);
	g_off0 = ino.next.offset;
	its = sb.inode_table_start;
	ASSUME(its < (1ull << 50));
	ASSUME(g_off0 < 8192 && ino.next.block == MDB(0) && P(0) == ino.xtra.reg.start_block);
	ASSUME(start >= 0 && (uint64_t)start < ino.xtra.reg.file_size);
	want = (uint64_t)start >> LG;
	/* the index, if consulted, is consulted at the metadata block of the wanted header; its contract there: */
	g_m = ABSI(want) >> 13;
	size_t nent = (g_off0 + 4 * g_count - 1) >> 13;
	ASSUME(nent < (1u << 27));
	arr = malloc(nent * sizeof(*arr));
	if (want < g_count && g_m >= 1) {
		arr[g_m - 1].data_block = P(BOF(g_m));
		arr[g_m - 1].md_block = (uint32_t)(MDB(g_m) - its);
		/* metadata positions are 32 bits relative to the inode table */
		ASSUME(MDB(g_m) >= its && MDB(g_m) - its <= 0xffffffffu);
	}
	e = sqfs_blockidx_blocklist(&fs, &ino, &bl, start);
	POST(!held && !bad_lock, "the index lock is released on every path");
	if (e != SQFS_OK) {
		POST(add_failed, "fails only when the index cannot be built");
		COVER(1);
		return;
	}
	POST(!bl.started && bl.input_size == 0 && bl.fs == &fs, "a block list about to yield its first block");
	if (want >= g_count) {
		POST(bl.remain == 0, "in the tail no block remains");
		COVER(g_count == 0);
		COVER(g_count > 3);
	} else {
		POST(bl.remain <= g_count && g_count - bl.remain <= want, "the list starts at or before the wanted block");
		i = g_count - bl.remain;
		POST(bl.pos == i * BS, "its offset in the file");
		/* the list is at the start, or at the first block of the wanted metadata block */
		POST(i == 0 || (g_m >= 1 && i == BOF(g_m)), "the list starts where the file, or a metadata block of it, does");
		if (i == 0) {
			POST(bl.block == P(0) && CURAT(bl.cur, 0), "position and cursor of block 0");
		} else {
			POST(bl.block == P(i), "the position is that of the block the list starts at");
			POST(CURAT(bl.cur, i), "the cursor is at the header of the block the list starts at");
		}
		COVER(i == 0 && g_m == 0);
		COVER(i > 5 && g_m == 1);
		COVER(i > 5 && g_m == 9 && adds);
	}
}
