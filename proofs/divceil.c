/* Contract of sqfs_divceil for every block size squashfs allows.
 * @what the number of blocks is the exact ceiling
 * @source src/fs.c
 * @fn sqfs_divceil
 * @variants LG=12 | LG=13 | LG=14 | LG=15 | LG=16 | LG=17 | LG=18 | LG=19 | LG=20
 * @unwind 2
 * @nobody sqfs_table_get sqfs_table_init sqfs_table_destroy sqfs_decompressor_get sqfs_mode MUTEX_INIT MUTEX_LOCK MUTEX_UNLOCK MUTEX_DESTORY sqfs_cache_get sqfs_cache_add sqfs_cache_invalidate sqfs_cache_destroy sqfs_block_cache_init sqfs_blockidx_init
 */
#include "lsq.h"
#include "squash/fs.h"
#include "cur/fs.c"
void harness(void) {
	uint64_t total;
	size_t q = sqfs_divceil(total, (size_t)1 << LG);
	POST(q == (total >> LG) + ((total & ((1u << LG) - 1)) != 0), "ceil(total / group)");
	COVER(q == 3);
	COVER(total > 1ull << 60);
}
