/* Contract of sqfs_blockidx_add.
 * @what every entry of a block index names the data block and the metadata block where its metadata block starts
 * @source src/file.c
 * @fn sqfs_blockidx_add
 * @replace sqfs_blocklist_count sqfs_blocklist_init sqfs_blocklist_next
 * @loop sqfs_blockidx_add 0
 * @fallback 4
 * @variants LG=12 | LG=17 | LG=20
 * @thorough LG=13 | LG=14 | LG=15 | LG=16 | LG=18 | LG=19
 * @nobody sqfs_table_get sqfs_data_cache sqfs_data_header sqfs_divceil sqfs_md_read sqfs_cache_init MUTEX_LOCK MUTEX_UNLOCK sqfs_cache_get
 */
#include "blocks.h"
#ifdef LSQ_BOUNDED
#undef ABSI
/* the bounded variant starts a few header words before the end of a metadata block */
#define ABSI(i) (g_off0 + 4 * (uint64_t)(i))
#endif
static uint64_t g_b;    /* next block of the list being walked */
static uint64_t g_cnt;  /* blocks of the file */
static uint64_t g_m;    /* watched index entry */
static uint64_t its;
static sqfs_blockidx_entry *g_arr;
static size_t g_arr_n;
#define BOF(m) (2048 * ((uint64_t)(m)) - g_off0 / 4)  /* first block whose header starts in metadata block m */
#ifndef LSQ_BOUNDED
#define LSQ_LOOP_sqfs_blockidx_add_0 __CPROVER_assigns(i, first, bl, g_b, __CPROVER_object_whole(blockidx)) __CPROVER_loop_invariant( \
	g_b <= g_cnt && bl.remain == g_cnt - g_b && (first != 0) == (g_b == 0) && \
	CURAT(bl.cur, g_b) && bl.block + bl.input_size == P(g_b) && \
	blockidx == g_arr && \
	i == (ABSI(g_b) >> 13) - ((ABSI(g_b) & 8191) < 4 && g_b > 0 ? 1 : 0) && i <= count && \
	(g_m < i ==> (g_arr[g_m].data_block == P(BOF(g_m + 1)) && g_arr[g_m].md_block == (uint32_t)(MDB(g_m + 1) - its))))
#endif
static int live;
static void *lsq_malloc(size_t n) { g_arr = malloc(n); g_arr_n = n; if (g_arr) live++; return g_arr; }
static void lsq_free(void *p) { if (p) live--; }
#define malloc lsq_malloc
#define free lsq_free
#include "cur/file.c"
#undef malloc
#undef free
static sqfs_blockidx_entry *slot;
static sqfs *the_fs;
static sqfs_inode *the_ino;
static uint64_t added_key;
static int added;
void *sqfs_cache_add(sqfs_cache *c, sqfs_cache_idx idx) {
	CALLEE(c == &the_fs->blockidx && idx != 0, "the index is put into the index cache");
	added++;
	added_key = idx;
	return &slot;
}
size_t stub_sqfs_blocklist_count(sqfs *fs, sqfs_inode *ino) { CALLEE(fs == the_fs && ino == the_ino, "this file"); return g_cnt; }
void stub_sqfs_blocklist_init(sqfs *fs, sqfs_inode *ino, sqfs_blocklist *bl) {
	CALLEE(fs == the_fs && ino == the_ino, "this file");
	bl->fs = fs; bl->remain = g_cnt; bl->cur = ino->next; bl->started = 0; bl->pos = 0;
	bl->block = P(0); bl->input_size = 0;
	g_b = 0;
}
sqfs_err stub_sqfs_blocklist_next(sqfs_blocklist *bl) {
	CALLEE(bl->remain > 0 && bl->remain == g_cnt - g_b, "a block remains");
	if (nondet_bool())
		return SQFS_ERR;
	bl->remain--;
	bl->header = nondet_u32();
	bl->block = P(g_b);
	bl->input_size = nondet_u32();
	g_b++;
	ASSUME(bl->block + bl->input_size == P(g_b));
	bl->pos = nondet_u64();
	bl->started = 1;
	bl->cur.block = MDB(ABSI(g_b) >> 13);
	bl->cur.offset = ABSI(g_b) & 8191;
	return SQFS_OK;
}
void harness(void) {
	sqfs fs;
	struct squashfs_super_block sb;
	sqfs_inode ino;
	sqfs_blockidx_entry *out = (void *)1;
	sqfs_err e;
	uint64_t nblk;
	the_fs = &fs; the_ino = &ino; fs.sb = &sb; sb.block_size = BS;
	ASSUME(ino.xtra.reg.file_size < MAXFILE && ino.base.inode_number != 0xffffffffu);
	g_cnt = COUNT(ino.xtra.reg.file_size, ino.xtra.reg.frag_idx);
	g_off0 = ino.next.offset;
	its = sb.inode_table_start;
	ASSUME(g_off0 < 8192 && ino.next.block == MDB(0));
	/* called for files that a metadata block cannot hold */
	ASSUME(g_cnt >= 1 && g_off0 + 4 * g_cnt > 8192);
#ifdef LSQ_BOUNDED
	ASSUME(g_off0 >= 8180);
#endif
	added = 0; live = 0;
	ASSUME(g_m < ((uint64_t)1 << 40));
	e = sqfs_blockidx_add(&fs, &ino, &out);
	if (e == SQFS_OK) {
		POST(out == g_arr && slot == out && added == 1 && live == 1, "the index built is returned and cached");
		POST(added_key == (uint64_t)ino.base.inode_number + 1, "under the key of this file");
		/* metadata block g_m + 1 holds the header of some block of the file */
		if (g_cnt > BOF(g_m + 1)) {
			POST((g_m + 1) * sizeof(sqfs_blockidx_entry) <= g_arr_n, "the index has an entry for every metadata block of the list");
			POST(g_arr[g_m].data_block == P(BOF(g_m + 1)), "entry m names the data block whose header is first in metadata block m");
			POST(g_arr[g_m].md_block == (uint32_t)(MDB(g_m + 1) - its), "entry m names that metadata block");
			COVER(g_m == 0);
#ifndef LSQ_BOUNDED
			COVER(g_m == 3);
#endif
		}
	} else {
		POST(added == 0 && live == 0, "a failed index is not cached and not leaked");
		COVER(live == 0);
	}
}
