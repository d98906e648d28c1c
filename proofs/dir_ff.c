/* Contract of sqfs_dir_ff_header over an arbitrary directory index.
 * @what fast-forwarding through a directory index stops at the first rejected index entry and positions the listing at the last accepted one
 * @source src/dir.c
 * @fn sqfs_dir_ff_header
 * @replace follow_link_links
 * @loop sqfs_dir_ff_header 0
 * @fallback 4
 * @nobody sqfs_inode_get sqfs_inode_root squash_readlink_inode strstr sqfs_mode
 *
 * Index entry i holds IDX(i), SB(i), ZZ(i), then a name; STOP(i) says whether the caller's
 * predicate rejects it. */
#include "lsq.h"
#include "squash/dir.h"
#include "squash/fs.h"
uint32_t __CPROVER_uninterpreted_IDX(uint64_t);
uint32_t __CPROVER_uninterpreted_SB(uint64_t);
uint32_t __CPROVER_uninterpreted_ZZ(uint64_t);
uint8_t __CPROVER_uninterpreted_STOP(uint64_t);
#define IDX(i) __CPROVER_uninterpreted_IDX(i)
#define SB(i) __CPROVER_uninterpreted_SB(i)
#define ZZ(i) __CPROVER_uninterpreted_ZZ(i)
#define STOP(i) (__CPROVER_uninterpreted_STOP(i) != 0)
static sqfs_md_cursor g_cur;       /* where the next read must be */
static sqfs_md_cursor *g_curp;
static uint64_t g_i, g_w;          /* entries consumed; a watched entry */
static int g_phase;
static sqfs_err g_err;
static sqfs_dir d0;
static uint64_t g_table, g_count;
static sqfs_err cb(sqfs *fs, sqfs_md_cursor *cur, struct squashfs_dir_index *index, short *stop, void *arg);
#ifndef LSQ_BOUNDED
#define LSQ_LOOP_sqfs_dir_ff_header_0 __CPROVER_assigns(count, cur, idx, dir->cur.block, dir->offset, g_cur, g_i, g_phase, g_err) __CPROVER_loop_invariant( \
	count <= g_count && g_i == g_count - count && g_phase == 0 && g_err == SQFS_OK && \
	cur.block == g_cur.block && cur.offset == g_cur.offset && \
	(g_i == 0 ? dir->cur.block == d0.cur.block && dir->offset == d0.offset \
	          : dir->cur.block == SB(g_i - 1) + g_table && dir->offset == IDX(g_i - 1)) && \
	(g_w < g_i ==> !STOP(g_w)))
#endif
#include "cur/dir.c"
sqfs_err stub_follow_link_links(sqfs *fs, const char *path, sqfs_inode *node, int *links) { return SQFS_ERR; }
static sqfs *the_fs;
static sqfs_dir *the_dir;
static int g_arg;
sqfs_err sqfs_md_read(sqfs *fs, sqfs_md_cursor *cur, void *buf, size_t size) {
	CALLEE(fs == the_fs && cur->block == g_cur.block && cur->offset == g_cur.offset && g_phase == 0, "the index is read on where the last read ended");
	CALLEE(size == sizeof(struct squashfs_dir_index) && g_i < g_count, "an index entry has 12 bytes before its name");
	if (nondet_bool()) { g_err = SQFS_ERR; return g_err; }
	struct squashfs_dir_index *x = buf;
	x->index = IDX(g_i); x->start_block = SB(g_i); x->size = ZZ(g_i);
	cur->block = g_cur.block = nondet_u64(); cur->offset = g_cur.offset = nondet_size();
	g_phase = 1;
	return SQFS_OK;
}
static sqfs_err cb(sqfs *fs, sqfs_md_cursor *cur, struct squashfs_dir_index *index, short *stop, void *arg) {
	CALLEE(fs == the_fs && arg == &g_arg && g_phase == 1 && cur->block == g_cur.block && cur->offset == g_cur.offset, "each index entry is offered to the caller's predicate, with the cursor at its name");
	CALLEE(index->index == IDX(g_i) && index->start_block == SB(g_i) && index->size == ZZ(g_i), "as it was read");
	if (nondet_bool()) { g_err = SQFS_UNSUP; return g_err; }
	if (STOP(g_i)) { *stop = 1; g_phase = 2; }
	else {
		if (nondet_bool()) { cur->block = g_cur.block = nondet_u64(); cur->offset = g_cur.offset = nondet_size(); }
		g_i++;
		g_phase = 0;
	}
	return SQFS_OK;
}
void harness(void) {
	sqfs fs;
	struct squashfs_super_block sb;
	sqfs_inode ino;
	sqfs_dir d;
	sqfs_err e;
	the_fs = &fs; the_dir = &d; fs.sb = &sb; g_table = sb.directory_table_start;
	d.offset = 0;      /* as sqfs_dir_open leaves it */
	ASSUME(d.cur.offset < 8192);
	d0 = d;
	g_cur = ino.next; g_i = 0; g_phase = 0; g_err = SQFS_OK; g_w = nondet_u64();
	g_count = ino.xtra.dir.idx_count;
	e = sqfs_dir_ff_header(&fs, &ino, &d, cb, &g_arg);
	POST(e == g_err, "it fails exactly when a read or the predicate fails");
	if (e == SQFS_OK) {
		POST(g_i == g_count || (g_i < g_count && STOP(g_i) && g_phase == 2), "it stops at the first rejected entry");
		POST(g_phase == 2 || g_i == g_count, "or at the end of the index");
		POST(IMPLIES(g_w < g_i, !STOP(g_w)), "every earlier entry was accepted");
		if (g_i == 0)
			POST(d.cur.block == d0.cur.block && d.cur.offset == d0.cur.offset && d.offset == 0, "no accepted entry: the listing's start");
		else
			POST(d.cur.block == SB(g_i - 1) + g_table && d.offset == IDX(g_i - 1) && d.cur.offset == (d0.cur.offset + IDX(g_i - 1)) % 8192, "the header of the last accepted entry");
		POST(d.total == d0.total && d.header.count == d0.header.count, "nothing else of the listing changes");
		COVER(g_i == g_count && g_count > 2);
		COVER(g_i == 0 && g_count > 0);
		COVER(g_i > 1 && g_phase == 2);
	} else
		COVER(1);
}
