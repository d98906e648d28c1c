/* Contract of sqfs_read_range.
 * @what a read returns exactly the file's bytes from the position asked for, as many as exist, and never more than asked
 * @source src/file.c
 * @weight 40
 * @fn sqfs_read_range
 * @replace sqfs_blockidx_blocklist sqfs_blocklist_next sqfs_frag_block
 * @loop sqfs_read_range 0
 * @variants LG=12 | LG=17 | LG=20
 * @thorough LG=13 | LG=14 | LG=15 | LG=16 | LG=18 | LG=19
 * @fallback_variants LG=12
 * @fallback 4
 * @nobody sqfs_table_get sqfs_data_header sqfs_divceil sqfs_md_read sqfs_cache_init MUTEX_LOCK MUTEX_UNLOCK sqfs_cache_get sqfs_cache_add
 *
 * Block i of the file, if stored, has HZ(i) != 0 as stored length; its bytes are abstract. The watched
 * byte of the output (index g_k) must be byte start + g_k of the file: g_exp. */
#include "blocks.h"
#include "watch.h"
static uint8_t g_exp, g_val0;
static size_t g_k;
static uint64_t g_i, g_cnt, g_size, g_start, g_frag_off;
static int64_t g_req;
static bool g_hasfrag;
#define MIN(a, b) ((a) < (b) ? (a) : (b))
#define BSIZE(i) MIN(BS, g_size - (i) * BS)        /* bytes of the file in block i */
#define GOAL MIN((uint64_t)g_req, g_size - g_start)  /* bytes to deliver */
#ifndef LSQ_BOUNDED
#define DONE ((uint64_t)(__CPROVER_POINTER_OFFSET(buf) - __CPROVER_POINTER_OFFSET(buf_orig)))
#define LSQ_LOOP_sqfs_read_range_0 __CPROVER_assigns(*size, buf, read_off, err, bl, g_i, g_val, blk, g_good) __CPROVER_loop_invariant( \
	__CPROVER_POINTER_OBJECT(buf) == __CPROVER_POINTER_OBJECT(buf_orig) && \
	err == SQFS_OK && *size >= 0 && *size <= g_req && DONE == (uint64_t)(g_req - *size) && \
	DONE <= g_size - g_start && \
	g_i <= g_cnt && bl.remain == g_cnt - g_i && bl.fs == fs && \
	(DONE == 0 ? ((g_i <= (g_start >> LG)) && read_off == (g_start & (BS - 1))) \
	           : (read_off == 0 && g_i > (g_start >> LG) && (*size == 0 || g_start + DONE == MIN(g_i * BS, g_size)))) && \
	(g_k < DONE ==> g_val == g_exp) && ((int64_t)g_k >= g_req ==> g_val == g_val0))
#endif
static sqfs_block blk;
static uint8_t *data;       /* the decoded block: never read, only its extent matters */
static uint64_t g_good;     /* where in it the watched file byte is (or nowhere) */
static void *blk_memcpy(void *d, const void *s, size_t n) {
	CALLEE(n == 0 || (__CPROVER_POINTER_OBJECT(s) == __CPROVER_POINTER_OBJECT(data) && __CPROVER_POINTER_OFFSET(s) <= blk.size &&
		n <= blk.size - __CPROVER_POINTER_OFFSET(s)), "only bytes of the block are copied");
	CALLEE(n == 0 || __CPROVER_w_ok(d, n), "the copy fits the caller's buffer");
	if (W_IN(d, n)) {
		uint64_t o = __CPROVER_POINTER_OFFSET(s) + (__CPROVER_POINTER_OFFSET(g_w) - __CPROVER_POINTER_OFFSET(d));
		g_val = o == g_good ? g_exp : nondet_u8();
	}
	return d;
}
#define memcpy blk_memcpy
#define memset lsq_memset
#include "cur/file.c"
static sqfs *the_fs;
static sqfs_inode *the_ino;
sqfs_err stub_sqfs_blockidx_blocklist(sqfs *fs, sqfs_inode *ino, sqfs_blocklist *bl, sqfs_off_t start) {
	CALLEE(fs == the_fs && ino == the_ino && start == (int64_t)g_start && g_start < g_size, "the list is sought for this position of this file");
	if (nondet_bool())
		return SQFS_ERR;
	bl->fs = fs;
	bl->started = 0;
	bl->input_size = 0;
	bl->header = nondet_u32();
	g_i = nondet_u64();
	ASSUME(g_i <= g_cnt);
	ASSUME((g_start >> LG) >= g_cnt ? g_i == g_cnt : g_i <= (g_start >> LG));
	bl->remain = g_cnt - g_i;
	bl->pos = g_i * BS;
	return SQFS_OK;
}
sqfs_err stub_sqfs_blocklist_next(sqfs_blocklist *bl) {
	CALLEE(bl->fs == the_fs && bl->remain > 0 && bl->remain == g_cnt - g_i, "a block remains");
	if (nondet_bool())
		return SQFS_ERR;
	bl->remain--;
	bl->header = H(g_i);
	bl->input_size = LEN(H(g_i));
	bl->block = P(g_i);
	bl->pos = g_i * BS;
	bl->started = 1;
	g_i++;
	return SQFS_OK;
}
/* the content of a block of `size` bytes whose byte 0 is file byte `at` */
static void content(sqfs_block *b, uint64_t at, uint64_t lead, uint64_t size) {
	b->data = data;
	b->size = lead + size;
	g_good = g_start + g_k - at < size ? lead + (g_start + g_k - at) : ~0ull;
}
sqfs_err stub_sqfs_frag_block(sqfs *fs, sqfs_inode *ino, size_t *off, size_t *fsz, sqfs_block **b) {
	CALLEE(fs == the_fs && ino == the_ino && g_hasfrag, "the tail of this file");
	if (nondet_bool())
		return SQFS_ERR;
	*off = g_frag_off;
	*fsz = g_size & (BS - 1);
	content(&blk, g_cnt * BS, g_frag_off, g_size & (BS - 1));
	*b = &blk;
	return SQFS_OK;
}
sqfs_err sqfs_data_cache(sqfs *fs, sqfs_cache *c, sqfs_off_t pos, uint32_t hdr, sqfs_block **b) {
	CALLEE(fs == the_fs && c == &fs->data_cache && g_i >= 1, "a data block is read through the data cache");
	CALLEE((uint64_t)pos == P(g_i - 1) && hdr == H(g_i - 1), "at the position and with the header of the current block");
	CALLEE(LEN(hdr) != 0, "a hole is not read");
	if (nondet_bool())
		return SQFS_ERR;
	content(&blk, (g_i - 1) * BS, 0, BSIZE(g_i - 1));
	*b = &blk;
	return SQFS_OK;
}
void harness(void) {
	sqfs fs;
	struct squashfs_super_block sb;
	sqfs_inode ino;
	sqfs_off_t start, size;
	uint8_t *buf;
	sqfs_err e;
	uint64_t wi;
	the_fs = &fs; the_ino = &ino; fs.sb = &sb; sb.block_size = BS;
	g_size = ino.xtra.reg.file_size;
	ASSUME(g_size < MAXFILE);
	g_hasfrag = ino.xtra.reg.frag_idx != 0xffffffffu;
	g_cnt = COUNT(g_size, ino.xtra.reg.frag_idx);
	g_frag_off = nondet_u64();
	ASSUME(g_frag_off <= BS && g_frag_off + (g_size & (BS - 1)) <= BS);
	g_start = start; g_req = size;
	ASSUME(size < (1ll << 40));
#ifdef LSQ_BOUNDED
	ASSUME(size <= (int64_t)(2 * BS));
#endif
	data = malloc(BS);
	buf = malloc(size > 0 ? size : 0);
	g_k = nondet_size();
	ASSUME(g_k < (1ull << 41));
	g_w = buf + g_k;
	g_exp = nondet_u8();
	g_val = nondet_u8();
	g_val0 = g_val;
	/* the watched file byte: zero if it lies in a hole */
	wi = (g_start + g_k) >> LG;
	if (start >= 0 && g_start + g_k < g_size && wi < g_cnt && LEN(H(wi)) == 0)
		ASSUME(g_exp == 0);
	e = sqfs_read_range(&fs, &ino, start, &size, buf);
	if (!S_ISREG(ino.base.mode) || start < 0 || g_req < 0) {
		POST(e != SQFS_OK, "only regular files, from non-negative positions");
		COVER(S_ISREG(ino.base.mode) && start < 0);
	} else if (e == SQFS_OK) {
		if (g_start >= g_size) {
			POST(size == 0, "at or after the end: zero bytes");
			COVER(g_req > 0);
		} else {
			POST((uint64_t)size == GOAL, "as many bytes as asked for and as exist");
			if (g_k < (uint64_t)size)
				POST(g_val == g_exp, "byte k is byte start + k of the file");
			COVER(size > 0 && (uint64_t)size == g_size - g_start && size < g_req && g_hasfrag);
			COVER(size > (int64_t)BS);
			COVER(size > 0 && g_k < size && wi < g_cnt && LEN(H(wi)) == 0);
			COVER(size > 0 && g_k < size && wi >= g_cnt);
		}
	} else {
		COVER(1);
	}
	if (g_k >= (uint64_t)(g_req > 0 ? g_req : 0))
		POST(g_val == g_val0, "nothing is written past the bytes asked for");
}
