/* Contracts of sqfs_md_cache and sqfs_data_cache.
 * @what a cached block is the block stored at the position asked for; a failed read leaves no entry behind; the lock is balanced
 * @source src/fs.c
 * @fn sqfs_md_cache sqfs_data_cache
 * @replace sqfs_md_block_read sqfs_data_block_read
 * @unwind 2
 * @nobody sqfs_table_get sqfs_table_init sqfs_table_destroy sqfs_decompressor_get sqfs_mode MUTEX_INIT MUTEX_DESTORY sqfs_cache_destroy sqfs_block_cache_init sqfs_blockidx_init
 */
#include "lsq.h"
#include "squash/fs.h"
#include "cur/fs.c"

static MUTEX *held;
static int bad_lock;
int MUTEX_LOCK(MUTEX *m) { if (held) bad_lock = 1; held = m; return 0; }
int MUTEX_UNLOCK(MUTEX *m) { if (held != m) bad_lock = 1; held = 0; return 0; }

/* blocks are identified by (position, header); B is the block read for it, DS its stored size */
static sqfs_block blk;      /* the right block for the request */
static size_t ds;           /* the right stored size */
static sqfs_cache *the_cache;
static uint64_t the_pos;
static uint32_t the_hdr;
static sqfs_block_cache_entry slot; /* the slot the cache has or gives for this key */
static bool present, claimed, filled;
static int reads;

void *sqfs_cache_get(sqfs_cache *c, sqfs_cache_idx idx) {
	CALLEE(c == the_cache && idx == the_pos, "the cache of this kind of block is searched for this position");
	CALLEE(held == &c->mutex, "the cache is searched under its lock");
	return present || claimed ? &slot : NULL;
}
void *sqfs_cache_add(sqfs_cache *c, sqfs_cache_idx idx) {
	CALLEE(c == the_cache && idx == the_pos, "the position asked for is added");
	CALLEE(held == &c->mutex, "the cache is changed under its lock");
	CALLEE(!present, "a block already present is not added twice");
	claimed = true;
	slot.block = nondet_ptr();       /* whatever was evicted */
	slot.data_size = nondet_size();
	return &slot;
}
void sqfs_cache_invalidate(sqfs_cache *c, void *e) {
	CALLEE(c == the_cache && e == &slot && held == &c->mutex, "the entry just claimed is forgotten");
	claimed = present = false;
}
static sqfs_err rd(sqfs_block **b) {
	reads++;
	if (nondet_bool()) {
		*b = NULL;
		return nondet_bool() ? SQFS_ERR : SQFS_BADFORMAT;
	}
	*b = &blk;
	filled = true;
	return SQFS_OK;
}
sqfs_err stub_sqfs_md_block_read(sqfs *fs, sqfs_off_t pos, size_t *data_size, sqfs_block **block) {
	CALLEE(the_cache == &fs->md_cache && pos == the_pos, "the metadata block at this position is read");
	*data_size = ds;
	return rd(block);
}
sqfs_err stub_sqfs_data_block_read(sqfs *fs, sqfs_off_t pos, uint32_t hdr, sqfs_block **block) {
	CALLEE(the_cache != &fs->md_cache && pos == the_pos && hdr == the_hdr, "the data block at this position, with this header, is read");
	return rd(block);
}
void harness(void) {
	sqfs fs;
	sqfs_block *b = NULL;
	sqfs_off_t pos, pos0;
	sqfs_err e;
	bool md = nondet_bool();
	ds = nondet_size();
	ASSUME(pos > 0 && pos < (1LL << 50) && ds >= 2 && ds < 100000);
	pos0 = the_pos = pos;
	the_hdr = nondet_u32();
	held = 0; bad_lock = 0; reads = 0; claimed = filled = false;
	present = nondet_bool();
	if (present) {
		slot.block = &blk;
		slot.data_size = ds;
		filled = true;
	}
	if (md) {
		the_cache = &fs.md_cache;
		e = sqfs_md_cache(&fs, &pos, &b);
	} else {
		the_cache = nondet_bool() ? &fs.data_cache : &fs.frag_cache;
		e = sqfs_data_cache(&fs, the_cache, pos, the_hdr, &b);
	}
	POST(!held && !bad_lock, "the cache lock is taken once and released on every path");
	if (e == SQFS_OK) {
		POST(b == &blk && filled, "the block returned is the one stored at the position");
		if (md)
			POST(pos == pos0 + (int64_t)ds, "the position moves to the next metadata block");
	}
	if (present || claimed)
		POST(filled && slot.block == &blk && IMPLIES(md, slot.data_size == ds), "an entry left in the cache holds the right block");
	POST(IMPLIES(reads == 0, e == SQFS_OK), "a block that is present is served");
	POST(IMPLIES(filled, e == SQFS_OK), "a block that could be read is served");
	COVER(e == SQFS_OK && reads == 0);
	COVER(e == SQFS_OK && reads == 1 && md);
	COVER(e == SQFS_OK && reads == 1 && !md);
	COVER(e != SQFS_OK);
}
