/* Contract of sqfs_md_read.
 * @what metadata reads deliver consecutive bytes of the concatenated metadata stream
 * @source src/fs.c
 * @weight 20
 * @fn sqfs_md_read
 * @replace sqfs_md_cache
 * @loop sqfs_md_read 0
 * @fallback 3
 *
 * The metadata stream is abstract: the block stored at position p holds SZ(p) bytes of it,
 * S(p) is the stream position of its first byte, NX(p) the position of the next block, so
 * S(NX(p)) = S(p) + SZ(p). A cursor (block, offset) denotes S(block) + offset. */
#include "lsq.h"
#include "watch.h"
uint32_t __CPROVER_uninterpreted_S(int64_t pos);
uint32_t __CPROVER_uninterpreted_SZ(int64_t pos);
int64_t __CPROVER_uninterpreted_NX(int64_t pos);
#define S(p) __CPROVER_uninterpreted_S(p)
#define NX(p) __CPROVER_uninterpreted_NX(p)
#define SZ(p) __CPROVER_uninterpreted_SZ(p)
#define LOG(p,o) ((uint32_t)(S(p) + (uint32_t)(o)))
uint8_t g_exp;   /* the stream byte at g_base + g_k */
size_t g_k;      /* watched index into the output */
uint32_t g_base; /* stream position of the first byte wanted */
#ifndef LSQ_BOUNDED
#define LSQ_LOOP_sqfs_md_read_0 __CPROVER_loop_invariant( \
   size <= __CPROVER_loop_entry(size) && \
   (buf == (void*)0) == (__CPROVER_loop_entry(buf) == (void*)0) && \
   (buf ==> buf == (char*)__CPROVER_loop_entry(buf) + (__CPROVER_loop_entry(size) - size)) && \
   (size == 0 || pos == cur->block) && \
   cur->offset < SZ(cur->block) && SZ(cur->block) <= 8192 && \
   LOG(cur->block,cur->offset) == (uint32_t)(g_base + (uint32_t)(__CPROVER_loop_entry(size) - size)) && \
   ((buf && g_k < (__CPROVER_loop_entry(size) - size)) ==> g_val == g_exp))
#endif
#include "squash/fs.h"
#define memcpy lsq_memcpy
#include "cur/fs.c"

sqfs_err stub_sqfs_md_cache(sqfs *fs, sqfs_off_t *pos, sqfs_block **block) {
	static sqfs_block b;
	static uint8_t data[8192];
	uint32_t s;
	int64_t o = *pos;
	if (nondet_bool())
		return SQFS_ERR;
	__CPROVER_havoc_object(data);
	b.data = data;
	b.size = SZ(o);
	ASSUME(b.size > 0 && b.size <= 8192);
	s = S(o);
	/* the block holds the stream bytes s .. s+size-1; the watched one is g_base + g_k */
	if ((uint32_t)(g_base + (uint32_t)g_k - s) < b.size)
		ASSUME(data[(uint32_t)(g_base + (uint32_t)g_k - s)] == g_exp);
	*pos = NX(o);
	ASSUME(SZ(*pos) > 0 && SZ(*pos) <= 8192 && S(*pos) == s + (uint32_t)b.size);
	*block = &b;
	return SQFS_OK;
}

void harness(void) {
	sqfs *fs;
	sqfs_md_cursor cur;
	size_t size;
	uint8_t *buf;
	sqfs_err e;
	ASSUME(cur.offset < SZ(cur.block) && SZ(cur.block) <= 8192);
	ASSUME(size < 1000000);
	buf = nondet_bool() ? malloc(size) : 0;
	g_base = LOG(cur.block, cur.offset);
	ASSUME(g_base < (uint32_t)1 << 31);
	g_k = nondet_size();
	ASSUME(g_k < 1000000);
	g_w = buf + g_k;
	e = sqfs_md_read(fs, &cur, buf, size);
	if (e == SQFS_OK) {
		if (buf && g_k < size)
			POST(g_val == g_exp, "byte k of the buffer is byte k of the stream at the cursor");
		POST(LOG(cur.block, cur.offset) == (uint32_t)(g_base + (uint32_t)size), "the cursor advances by exactly the bytes read");
		POST(cur.offset < SZ(cur.block), "the cursor stays inside its block");
		COVER(size == 17);
		COVER(buf == 0 && size == 3);
	}
	COVER(e != SQFS_OK);
}
