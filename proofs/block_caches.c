/* Contracts of sqfs_block_cache_init, sqfs_block_cache_dispose, sqfs_blockidx_init, sqfs_blockidx_dispose, sqfs_block_dispose.
 * @what each cache is created with entries of its own type and frees what its entries own
 * @source src/cache.c src/file.c src/fs.c
 * @fn sqfs_block_cache_init sqfs_block_cache_dispose sqfs_blockidx_init sqfs_blockidx_dispose sqfs_block_dispose
 * @replace sqfs_cache_init
 * @unwind 2
 * @nobody sqfs_table_get sqfs_table_init sqfs_table_destroy sqfs_decompressor_get sqfs_mode MUTEX_INIT MUTEX_LOCK MUTEX_UNLOCK MUTEX_DESTORY
 */
#include "lsq.h"
#include "squash/fs.h"
#include "squash/file.h"
static void *freed[4];
static unsigned nfreed;
static void lsq_free(void *p) { if (p && nfreed < 4) freed[nfreed++] = p; }
#define free lsq_free
#include "cur/cache.c"
#include "cur/fs.c"
#include "cur/file.c"
static size_t a_size, a_count;
static sqfs_cache_dispose a_disp;
static sqfs_err a_ret;
static sqfs_cache *a_cache;
sqfs_err stub_sqfs_cache_init(sqfs_cache *c, size_t size, size_t count, sqfs_cache_dispose d) {
	a_cache = c; a_size = size; a_count = count; a_disp = d;
	a_ret = nondet_bool() ? SQFS_OK : SQFS_ERR;
	return a_ret;
}
void harness(void) {
	sqfs_cache c;
	size_t n = nondet_size();
	sqfs_err e;
	ASSUME(n >= 1);
	if (nondet_bool()) {
		sqfs_block blk;
		sqfs_block_cache_entry ent;
		uint8_t d;
		e = sqfs_block_cache_init(&c, n);
		POST(e == a_ret && a_cache == &c && a_size == sizeof(sqfs_block_cache_entry) && a_count == n, "block cache of n block entries");
		POST(a_disp != NULL, "block entries are disposed of");
		blk.data = &d;
		blk.data_need_freeing = nondet_bool();
		ent.block = &blk;
		nfreed = 0;
		a_disp(&ent);
		if (blk.data_need_freeing)
			POST(nfreed == 2 && ((freed[0] == &d && freed[1] == &blk)), "an owned block frees its data and itself");
		else
			POST(nfreed == 1 && freed[0] == &blk, "a block inside the image frees only itself");
		COVER(blk.data_need_freeing);
		COVER(!blk.data_need_freeing);
	} else {
		sqfs_blockidx_entry *ix, arr[2];
		e = sqfs_blockidx_init(&c);
		POST(e == a_ret && a_cache == &c && a_size == sizeof(sqfs_blockidx_entry *) && a_count >= 1, "block index cache of pointers");
		ix = arr;
		nfreed = 0;
		a_disp(&ix);
		POST(nfreed == 1 && freed[0] == arr, "an index entry frees its array");
		COVER(1);
	}
}
