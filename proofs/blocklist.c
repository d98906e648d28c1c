/* Contracts of sqfs_blocklist_count, sqfs_blocklist_init, sqfs_blocklist_next, sqfs_frag_block, sqfs_data_header.
 * @what the block list yields block i with its own header, position and file offset; the tail is the fragment's
 * @source src/file.c src/fs.c
 * @fn sqfs_blocklist_count sqfs_blocklist_init sqfs_blocklist_next sqfs_frag_block sqfs_data_header sqfs_divceil
 * @replace sqfs_md_read sqfs_frag_entry sqfs_data_cache
 * @variants LG=12 | LG=17 | LG=20
 * @thorough LG=13 | LG=14 | LG=15 | LG=16 | LG=18 | LG=19
 * @unwind 2
 * @nobody sqfs_table_get sqfs_table_init sqfs_table_destroy sqfs_decompressor_get sqfs_mode MUTEX_INIT MUTEX_LOCK MUTEX_UNLOCK MUTEX_DESTORY sqfs_cache_get sqfs_cache_add sqfs_cache_invalidate sqfs_cache_destroy sqfs_block_cache_init sqfs_cache_init
 */
#include "blocks.h"
#include "cur/fs.c"
#include "cur/file.c"
static uint64_t g_i;
static sqfs *the_fs;
sqfs_err stub_sqfs_md_read(sqfs *fs, sqfs_md_cursor *cur, void *buf, size_t size) {
	CALLEE(fs == the_fs && CURAT(*cur, g_i) && size == 4 && buf, "the header word of the next block is read");
	if (nondet_bool())
		return SQFS_ERR;
	*(uint32_t *)buf = H(g_i);
	cur->block = MDB(ABSI(g_i + 1) >> 13);
	cur->offset = ABSI(g_i + 1) & 8191;
	return SQFS_OK;
}
static struct squashfs_fragment_entry fe;
static int frag_calls, cache_calls;
static uint32_t frag_idx;
sqfs_err stub_sqfs_frag_entry(sqfs *fs, struct squashfs_fragment_entry *f, uint32_t idx) {
	CALLEE(fs == the_fs, "same filesystem");
	frag_calls++;
	frag_idx = idx;
	if (nondet_bool())
		return SQFS_ERR;
	*f = fe;
	return SQFS_OK;
}
static sqfs_block blk;
sqfs_err stub_sqfs_data_cache(sqfs *fs, sqfs_cache *c, sqfs_off_t pos, uint32_t hdr, sqfs_block **b) {
	cache_calls++;
	CALLEE(fs == the_fs && c == &fs->frag_cache && (uint64_t)pos == fe.start_block && hdr == fe.size, "the fragment block is read with its own header");
	if (nondet_bool())
		return SQFS_ERR;
	*b = &blk;
	return SQFS_OK;
}
void harness(void) {
	sqfs fs;
	struct squashfs_super_block sb;
	sqfs_inode ino;
	sqfs_blocklist bl;
	uint64_t count;
	sqfs_err e;
	int which = nondet_int();
	the_fs = &fs; fs.sb = &sb; sb.block_size = BS;
	ASSUME(ino.xtra.reg.file_size < MAXFILE);
	count = COUNT(ino.xtra.reg.file_size, ino.xtra.reg.frag_idx);
	g_off0 = ino.next.offset;
	ASSUME(g_off0 < 8192 && ino.next.block == MDB(0));
	ASSUME(P(0) == ino.xtra.reg.start_block);
	fe.start_block = nondet_u64(); fe.size = nondet_u32();
	frag_calls = cache_calls = 0;
	if (which == 0) {
		POST(sqfs_blocklist_count(&fs, &ino) == count, "number of data blocks");
		sqfs_blocklist_init(&fs, &ino, &bl);
		POST(bl.fs == &fs && bl.remain == count && CURAT(bl.cur, 0) && bl.block + bl.input_size == P(0) && bl.input_size == 0 && !bl.started && bl.pos == 0, "a fresh block list is before block 0");
		COVER(count == 3);
		COVER(count == 0);
	} else if (which == 1) {
		/* a block list whose next block is g_i, as init, next and the block index leave it */
		g_i = nondet_u64();
		ASSUME(g_i <= count);
		bl.fs = &fs;
		bl.remain = count - g_i;
		ASSUME(CURAT(bl.cur, g_i));
		if (bl.started) {
			ASSUME(g_i >= 1);
			bl.started = 1;
			ASSUME(bl.input_size == LEN(H(g_i - 1)) && bl.pos == (g_i - 1) * BS && bl.block == P(g_i - 1) && P(g_i) == P(g_i - 1) + LEN(H(g_i - 1)));
		} else {
			ASSUME(bl.input_size == 0 && bl.pos == g_i * BS && bl.block == P(g_i));
		}
		e = sqfs_blocklist_next(&bl);
		if (g_i == count) {
			POST(e != SQFS_OK, "no block after the last");
			COVER(1);
		} else if (e == SQFS_OK) {
			POST(bl.remain == count - g_i - 1, "one block fewer remains");
			POST(bl.header == H(g_i), "the header is the block's own");
			POST(bl.input_size == LEN(H(g_i)), "the stored length is the header without its compression bit");
			POST(bl.block == P(g_i), "the block starts where the previous ones end");
			POST(bl.pos == g_i * BS, "the block's offset in the file");
			POST(CURAT(bl.cur, g_i + 1) && bl.started && bl.fs == &fs, "the list is after this block");
			COVER(g_i == 2);
			COVER(g_i == 0);
		}
	} else {
		size_t off, size;
		sqfs_block *b = 0;
		e = sqfs_frag_block(&fs, &ino, &off, &size, &b);
		if (e == SQFS_OK) {
			POST(S_ISREG(ino.base.mode) && frag_calls == 1 && frag_idx == ino.xtra.reg.frag_idx && cache_calls == 1 && b == &blk, "the tail is in the fragment the inode names");
			POST(off == ino.xtra.reg.frag_off, "at the offset the inode names");
			POST(size == (ino.xtra.reg.file_size & (BS - 1)), "the tail is what is left after the whole blocks");
			COVER(1);
		}
		COVER(e != SQFS_OK);
	}
}
