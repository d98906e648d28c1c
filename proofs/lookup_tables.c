/* Contracts of sqfs_id_get, sqfs_frag_entry, sqfs_export_inode, sqfs_export_ok.
 * @what ids, fragments and inode numbers resolve through their own table, and an index outside it is refused
 * @source src/fs.c src/file.c
 * @fn sqfs_id_get sqfs_frag_entry sqfs_export_inode sqfs_export_ok
 * @unwind 2
 * @nobody sqfs_table_init sqfs_table_destroy sqfs_decompressor_get sqfs_mode MUTEX_INIT MUTEX_LOCK MUTEX_UNLOCK MUTEX_DESTORY sqfs_cache_get sqfs_cache_add sqfs_cache_invalidate sqfs_cache_destroy sqfs_block_cache_init sqfs_cache_init
 */
#include "lsq.h"
#include "squash/fs.h"
#include "squash/file.h"
#include "cur/fs.c"
#include "cur/file.c"
static sqfs_table *t_t; static size_t t_idx; static sqfs_err t_ret; static int t_calls;
static uint64_t t_val[2];
sqfs_err sqfs_table_get(sqfs_table *t, sqfs *fs, size_t idx, void *buf) {
	t_calls++; t_t = t; t_idx = idx;
	t_ret = nondet_bool() ? SQFS_OK : SQFS_ERR;
	t_val[0] = nondet_u64(); t_val[1] = nondet_u64();
	if (t_ret == SQFS_OK) {
		if (t == &fs->id_table) {
			CALLEE(idx < fs->sb->no_ids, "id index inside the table");
			*(uint32_t *)buf = (uint32_t)t_val[0];
		} else if (t == &fs->export_table) {
			CALLEE(idx < fs->sb->inodes, "inode number inside the table");
			*(uint64_t *)buf = t_val[0];
		} else {
			CALLEE(t == &fs->frag_table, "one of the three tables");
			CALLEE(idx < fs->sb->fragments, "fragment index inside the table");
			((uint64_t *)buf)[0] = t_val[0];
			((uint64_t *)buf)[1] = t_val[1];
		}
	}
	return t_ret;
}
void harness(void) {
	sqfs fs;
	struct squashfs_super_block sb;
	sqfs_err e;
	int which = nondet_int();
	fs.sb = &sb;
	t_calls = 0;
	if (which == 0) {
		uint16_t idx;
		sqfs_id_t id = 77;
		e = sqfs_id_get(&fs, idx, &id);
		if (idx < sb.no_ids) {
			POST(t_calls == 1 && t_t == &fs.id_table && t_idx == idx && e == t_ret, "an id is entry idx of the id table");
			POST(IMPLIES(e == SQFS_OK, id == (uint32_t)t_val[0]), "the id stored there");
			COVER(e == SQFS_OK);
		} else {
			POST(e != SQFS_OK && t_calls == 0 && id == 77, "an id index outside the table is refused");
			COVER(1);
		}
	} else if (which == 1) {
		uint32_t idx;
		struct squashfs_fragment_entry f;
		e = sqfs_frag_entry(&fs, &f, idx);
		if (idx != 0xffffffffu && idx < sb.fragments) {
			POST(t_calls == 1 && t_t == &fs.frag_table && t_idx == idx && e == t_ret, "a fragment is entry idx of the fragment table");
			POST(IMPLIES(e == SQFS_OK, f.start_block == t_val[0] && f.size == (uint32_t)t_val[1]), "the fragment stored there");
			COVER(e == SQFS_OK);
		} else {
			POST(e != SQFS_OK && t_calls == 0, "a fragment index outside the table is refused");
			COVER(1);
		}
	} else {
		uint32_t n;
		sqfs_inode_id i = 77;
		e = sqfs_export_inode(&fs, n, &i);
		POST(!!sqfs_export_ok(&fs) == (sb.lookup_table_start != (uint64_t)-1), "exportable iff the image has a lookup table");
		if (sb.lookup_table_start == (uint64_t)-1) {
			POST(e == SQFS_UNSUP && t_calls == 0 && i == 77, "no export table: unsupported");
			COVER(1);
		} else if (n >= 1 && n <= sb.inodes) {
			POST(t_calls == 1 && t_t == &fs.export_table && t_idx == n - 1 && e == t_ret, "inode number n is entry n-1 of the export table");
			POST(IMPLIES(e == SQFS_OK, i == t_val[0]), "the inode reference stored there");
			COVER(e == SQFS_OK);
		} else {
			POST(e != SQFS_OK && t_calls == 0 && i == 77, "an inode number outside 1..inodes is refused");
			COVER(1);
		}
	}
}
