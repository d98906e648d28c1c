/* Contracts of sqfs_md_header, sqfs_data_header, sqfs_block_read, sqfs_md_block_read, sqfs_data_block_read, sqfs_block_dispose.
 * @what a block is exactly the bytes the image stores for it, decompressed iff its header says so
 * @source src/fs.c
 * @fn sqfs_md_header sqfs_data_header sqfs_block_read sqfs_md_block_read sqfs_data_block_read sqfs_block_dispose
 * @cbmc --malloc-may-fail --malloc-fail-null
 * @unwind 2
 * @nobody sqfs_table_get sqfs_table_init sqfs_table_destroy sqfs_decompressor_get sqfs_mode MUTEX_INIT MUTEX_LOCK MUTEX_UNLOCK MUTEX_DESTORY sqfs_cache_get sqfs_cache_add sqfs_cache_invalidate sqfs_cache_destroy sqfs_block_cache_init sqfs_blockidx_init
 */
#include "lsq.h"
#include "squash/fs.h"
static int live;
static size_t last_alloc;
static void *lsq_malloc(size_t n) { void *p = malloc(n); if (p) { live++; last_alloc = n; } return p; }
static void lsq_free(void *p) { if (p) live--; free(p); }
#define malloc lsq_malloc
#define free lsq_free
#include "cur/fs.c"
#undef malloc
#undef free

static int d_calls;
static void *d_in, *d_out;
static size_t d_insz, d_cap, d_res;
static sqfs_err d_ret;
static sqfs_err decomp(void *in, size_t insz, void *out, size_t *outsz) {
	d_calls++;
	d_in = in; d_insz = insz; d_out = out; d_cap = *outsz;
	CALLEE(__CPROVER_w_ok(out, *outsz), "the decompressor may write its whole output buffer");
	d_res = nondet_size();
	d_ret = nondet_bool() ? SQFS_OK : (nondet_bool() ? SQFS_ERR : SQFS_BADFORMAT);
	ASSUME(d_res <= *outsz);
	if (d_ret == SQFS_OK)
		*outsz = d_res;
	return d_ret;
}
#define IMG 64
static void check_block(sqfs_err e, sqfs_block *b, const uint8_t *src, bool comp, uint32_t size, size_t cap) {
	if (e == SQFS_OK) {
		if (comp) {
			POST(d_calls == 1 && d_ret == SQFS_OK && d_in == src && d_insz == size, "compressed: exactly the stored bytes are decompressed");
			POST(d_cap == cap, "decompression is bounded by the block size of this kind of block");
			POST(b->data == d_out && b->size == d_res && b->data_need_freeing, "the block is the decompressed data and owns it");
			POST(live == 2, "the block and its data are the only allocations kept");
		} else {
			POST(d_calls == 0 && b->data == src && b->size == size && !b->data_need_freeing, "uncompressed: the block is the stored bytes");
			POST(live == 1, "only the block itself is allocated");
		}
		sqfs_block_dispose(b);
		POST(live == 0, "disposing frees everything");
	} else {
		POST(live == 0, "a failed read keeps nothing allocated");
		POST(b == NULL, "a failed read yields no block");
		POST(IMPLIES(d_calls, d_ret != SQFS_OK || 0), "a block that decompressed is not refused");
	}
}
void harness(void) {
	sqfs fs;
	struct squashfs_super_block sb;
	static uint8_t img[IMG];
	sqfs_block *b = nondet_ptr();
	size_t off = nondet_size(), data_size = 7;
	sqfs_off_t pos;
	sqfs_err e;
	int which = nondet_int();
	ASSUME(off <= 16 && pos >= 0 && pos <= 32);
	__CPROVER_havoc_object(img);
	fs.fd = img;
	fs.offset = off;
	fs.sb = &sb;
	fs.decompressor = decomp;
	live = 0; d_calls = 0;
	if (which == 0) {
		short comp;
		uint32_t size;
		size_t cap;
		ASSUME(cap >= 1 && cap <= 1 << 20);
		e = sqfs_block_read(&fs, pos, comp, size, cap, &b);
		check_block(e, b, img + off + pos, comp != 0, size, cap);
		COVER(e == SQFS_OK && comp);
		COVER(e == SQFS_OK && !comp);
		COVER(e != SQFS_OK && d_calls == 0);
		COVER(e != SQFS_OK && d_calls == 1);
	} else if (which == 1) {
		uint16_t hdr = img[off + pos] | img[off + pos + 1] << 8;
		uint16_t size = hdr & 0x7fff;
		if (size == 0) size = 0x8000;
		e = sqfs_md_block_read(&fs, pos, &data_size, &b);
		if (e == SQFS_OK)
			POST(data_size == 2 + (size_t)size, "the next metadata block follows the header and the stored bytes");
		check_block(e, b, img + off + pos + 2, !(hdr & 0x8000), size, 8192);
		COVER(e == SQFS_OK && size == 0x8000);
		COVER(e == SQFS_OK && (hdr & 0x8000));
	} else {
		uint32_t hdr;
		ASSUME(sb.block_size >= 4096 && sb.block_size <= 1 << 20);
		e = sqfs_data_block_read(&fs, pos, hdr, &b);
		check_block(e, b, img + off + pos, !(hdr & (1u << 24)), hdr & ~(1u << 24), sb.block_size);
		COVER(e == SQFS_OK && (hdr & (1u << 24)));
		COVER(e == SQFS_OK && !(hdr & (1u << 24)));
	}
}
