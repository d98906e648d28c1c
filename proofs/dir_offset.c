/* Contracts of sqfs_dir_ff_offset and of the predicate it passes to the index.
 * @what a listing opened at an offset starts at the entry with that offset, or not at all
 * @source src/dir.c
 * @fn sqfs_dir_ff_offset sqfs_dir_ff_offset_f
 * @replace sqfs_dir_ff_header sqfs_dir_next follow_link_links
 * @loop sqfs_dir_ff_offset 0
 * @fallback 5
 * @nobody sqfs_inode_get sqfs_inode_root squash_readlink_inode strstr sqfs_mode
 */
#include "lsq.h"
#include "squash/dir.h"
#include "squash/fs.h"
static sqfs_err g_err;
static bool g_end, g_hit;          /* the listing ended; some boundary was the offset */
static sqfs_off_t g_want, g_total;
#ifndef LSQ_BOUNDED
#define LSQ_LOOP_sqfs_dir_ff_offset_0 __CPROVER_assigns(dir->offset, err, g_err, g_end, entry.name_size) __CPROVER_loop_invariant( \
	g_err == SQFS_OK && err == SQFS_OK && !g_end && dir->offset >= 0 && dir->offset <= g_total)
#endif
#include "cur/dir.c"
static sqfs *the_fs; static sqfs_inode *the_ino; static sqfs_dir *the_dir;
static int ff, skips;
sqfs_err stub_follow_link_links(sqfs *fs, const char *path, sqfs_inode *node, int *links) { return SQFS_ERR; }
static sqfs_md_cursor *the_cur; static size_t want_skip;
sqfs_err sqfs_md_read(sqfs *fs, sqfs_md_cursor *cur, void *buf, size_t size) {
	CALLEE(fs == the_fs && cur == the_cur && buf == NULL && size == want_skip, "the index name is skipped");
	skips++;
	if (nondet_bool()) { g_err = SQFS_ERR; return g_err; }
	return SQFS_OK;
}
sqfs_err stub_sqfs_dir_ff_header(sqfs *fs, sqfs_inode *inode, sqfs_dir *dir, sqfs_dir_header_f func, void *arg) {
	CALLEE(fs == the_fs && inode == the_ino && dir == the_dir && func == sqfs_dir_ff_offset_f && *(sqfs_off_t *)arg == g_want, "scaffold: the index is searched for the offset");
	ff++;
	if (nondet_bool()) { g_err = SQFS_ERR; return g_err; }
	dir->offset = nondet_i64();
	ASSUME(dir->offset == 0 || (dir->offset > 0 && dir->offset < g_want && dir->offset <= g_total));
	return SQFS_OK;
}
short stub_sqfs_dir_next(sqfs *fs, sqfs_dir *dir, sqfs_dir_entry *entry, sqfs_err *err) {
	CALLEE(fs == the_fs && dir == the_dir && entry->name == NULL, "names are skipped");
	CALLEE(dir->offset < g_want, "the listing is not read past the offset");
	*err = SQFS_OK;
	if (dir->offset >= g_total) { g_end = 1; return 0; }
	if (nondet_bool()) { *err = g_err = SQFS_ERR; return 0; }
	sqfs_off_t n = nondet_i64();
	ASSUME(n > dir->offset && n <= g_total);
	dir->offset = n;
	entry->name_size = nondet_u16();
	return 1;
}
void harness(void) {
	sqfs fs;
	sqfs_inode ino;
	sqfs_dir d;
	sqfs_err e;
	the_fs = &fs; the_ino = &ino; the_dir = &d; g_err = SQFS_OK; g_end = 0; ff = skips = 0;
	g_want = nondet_i64(); g_total = nondet_i64();
	ASSUME(g_want >= 0 && g_total >= 0);
	if (nondet_bool()) {
		sqfs_md_cursor c;
		struct squashfs_dir_index x;
		short stop = 0;
		the_cur = &c;
		want_skip = (size_t)x.size + 1;
		ASSUME(x.size < 65536);
		e = sqfs_dir_ff_offset_f(&fs, &c, &x, &stop, &g_want);
		if (x.index >= g_want) {
			POST(e == SQFS_OK && stop, "an index entry at or after the offset is rejected");
			COVER(x.index == g_want);
		} else {
			POST(!stop && skips == 1 && e == g_err, "an earlier one is accepted and its name skipped");
			COVER(e == SQFS_OK);
		}
		return;
	}
	e = sqfs_dir_ff_offset(&fs, &ino, &d, g_want);
	POST(ff == 1, "the index is used");
	POST(IMPLIES(g_err != SQFS_OK, e != SQFS_OK), "a read error is reported");
	POST(IMPLIES(g_err == SQFS_OK, (e == SQFS_OK) == (d.offset == g_want)), "it succeeds exactly at an entry with that offset");
	COVER(e == SQFS_OK && g_want > 100);
	COVER(e != SQFS_OK && g_end);
	COVER(e != SQFS_OK && g_err == SQFS_OK && !g_end);
}
