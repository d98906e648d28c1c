/* Contracts of sqfs_readlink, squash_readlink_inode (no root alias), squash_readlink.
 * @what reading a link delivers exactly its target and a terminator inside the caller's buffer, or an error
 * @source src/fs.c src/readlink.c
 * @fn sqfs_readlink squash_readlink_inode squash_readlink
 * @replace sqfs_md_read sqfs_inode_get sqfs_inode_root
 * @unwind 2
 * @nobody sqfs_table_get sqfs_table_init sqfs_table_destroy sqfs_decompressor_get sqfs_mode MUTEX_LOCK MUTEX_UNLOCK sqfs_cache_get sqfs_cache_add sqfs_cache_invalidate sqfs_cache_init sqfs_cache_destroy sqfs_block_cache_init sqfs_blockidx_init strstr
 */
#include "lsq.h"
#include "watch.h"
#include "squash.h"
static size_t target_len(const char *s);
#define strlen target_len
#include "cur/fs.c"
#include "cur/readlink.c"
#undef strlen
static sqfs *the_fs;
static sqfs_inode lnk, root_ino;
static sqfs_inode_id root_id;
static size_t g_k; static uint8_t g_exp;
static char *the_buf;
static int reads, step, fail_at;
static short is_found;
static const char *the_path;
/* a target holds no NUL */
static size_t target_len(const char *s) {
	CALLEE(s == the_buf && reads == 1 && fail_at == 0 && the_buf[lnk.xtra.symlink_size] == 0, "scaffold: the target read is measured");
	return lnk.xtra.symlink_size;
}
sqfs_err stub_sqfs_md_read(sqfs *fs, sqfs_md_cursor *cur, void *buf, size_t size) {
	CALLEE(fs == the_fs && cur->block == lnk.next.block && cur->offset == lnk.next.offset, "the target follows its inode");
	CALLEE(buf == the_buf && (size == 0 || __CPROVER_w_ok(buf, size)), "the target fits the caller's buffer");
	CALLEE(size <= lnk.xtra.symlink_size, "no more than the target is read");
	reads++;
	if (W_IN(buf, size)) g_val = the_buf[g_k] = nondet_u8();
	if (nondet_bool()) { fail_at = 4; return SQFS_ERR; }
	if (W_IN(buf, size)) g_val = the_buf[g_k] = g_exp;
	cur->block = nondet_u64(); cur->offset = nondet_size();
	return SQFS_OK;
}
sqfs_inode_id stub_sqfs_inode_root(sqfs *fs) { return root_id; }
sqfs_err stub_sqfs_inode_get(sqfs *fs, sqfs_inode *inode, sqfs_inode_id id) {
	CALLEE(fs == the_fs && id == root_id, "the walk starts at the root");
	if (nondet_bool()) { fail_at = 1; return SQFS_ERR; }
	*inode = root_ino;
	step = 1;
	return SQFS_OK;
}
static sqfs_err lookup(sqfs *fs, sqfs_inode *inode, const char *path, short *found, short follow) {
	CALLEE(fs == the_fs && path == the_path && step == 1, "the path asked for is looked up from the root");
	CALLEE(!follow, "readlink does not follow the link itself");
	if (nondet_bool()) { fail_at = 2; errno = nondet_int(); return SQFS_ERR; }
	*found = is_found = nondet_bool();
	*inode = lnk;
	step = 2;
	return SQFS_OK;
}
sqfs_err sqfs_lookup_path_inner(sqfs *fs, sqfs_inode *i, const char *p, short *f, short fl) { return lookup(fs, i, p, f, fl); }
sqfs_err sqfs_lookup_path(sqfs *fs, sqfs_inode *i, const char *p, short *f) { return lookup(fs, i, p, f, 0); }
void harness(void) {
	sqfs fs;
	sqfs_inode n0;
	size_t cap;
	int which = nondet_int();
	char path[4];
	the_fs = &fs; lnk = n0; fs.root_alias = fs.root_alias2 = NULL;
	sqfs_inode r0; root_ino = r0; root_id = nondet_u64(); the_path = path;
	step = reads = fail_at = 0; is_found = 0;
	g_k = nondet_size(); g_exp = nondet_u8();
	ASSUME(g_exp != 0 && g_k < (1u << 20) && cap <= (1u << 20) && cap > 0);
	the_buf = malloc(cap);
	ASSUME(g_k < cap);
	g_w = (uint8_t *)the_buf + g_k;
	uint8_t b0 = the_buf[g_k];
	size_t want = lnk.xtra.symlink_size;
	errno = nondet_int();
	if (which == 0) {
		size_t sz = cap, claimed = nondet_size();
		bool isl = S_ISLNK(lnk.base.mode);
		sqfs_err e;
		if (nondet_bool()) {
			e = sqfs_readlink(&fs, &lnk, NULL, &sz);
			POST((e == SQFS_OK) == isl && reads == 0, "only a link has a target");
			POST(IMPLIES(isl, sz == want + 1), "room for the target and its terminator");
			COVER(isl);
			return;
		}
		ASSUME(claimed <= cap);
		sz = claimed;
		e = sqfs_readlink(&fs, &lnk, the_buf, &sz);
		if (!isl || claimed == 0) {
			POST(e != SQFS_OK && (uint8_t)the_buf[g_k] == b0, "no link or no room: an error, nothing written");
			COVER(isl);
			return;
		}
		size_t n = want < claimed - 1 ? want : claimed - 1;
		POST((e != SQFS_OK) == (fail_at == 4), "it fails only when the target cannot be read");
		if (e == SQFS_OK) {
			POST(IMPLIES(g_k < n, (uint8_t)the_buf[g_k] == g_exp), "byte k of the target");
			POST(IMPLIES(g_k == n, the_buf[g_k] == 0), "a terminator after the target");
			COVER(g_k < n && n < want);
			COVER(g_k == n && n == want);
		}
		POST(IMPLIES(g_k > n, (uint8_t)the_buf[g_k] == b0), "nothing past the terminator is written");
		return;
	}
	ssize_t r;
	size_t bufsize = nondet_size();
	ASSUME(bufsize <= cap);
	bool isl = S_ISLNK(lnk.base.mode);
	if (which == 1)
		r = squash_readlink_inode(&fs, &lnk, the_buf, bufsize);
	else {
		r = squash_readlink(&fs, path, the_buf, bufsize);
		if (fail_at == 1 || fail_at == 2 || !is_found) {
			POST(r == -1 && errno != 0 && reads == 0, "an unreachable path is an error with errno set");
			POST((uint8_t)the_buf[g_k] == b0, "and leaves the buffer alone");
			COVER(fail_at == 2);
			COVER(fail_at == 0);
			return;
		}
		POST(step == 2, "the path was looked up");
	}
	if (!isl) {
		POST(r == -1 && errno == EINVAL, "EINVAL for anything but a link");
		POST((uint8_t)the_buf[g_k] == b0, "and the buffer is left alone");
		COVER(which != 1);
	} else if (want >= bufsize) {
		POST(r == -1 && errno == ENAMETOOLONG, "a buffer too small for target and terminator is ENAMETOOLONG");
		POST((uint8_t)the_buf[g_k] == b0, "and the buffer is left alone");
		COVER(want == bufsize);
	} else if (want == 0) {
		POST(r == -1 && errno != 0, "an empty target is an error");
	} else if (fail_at == 4) {
		POST(r == -1 && errno == EIO, "an unreadable target is EIO");
		COVER(1);
	} else {
		POST(r == (ssize_t)want && reads == 1, "the length of the target is returned");
		POST(IMPLIES(g_k < want, (uint8_t)the_buf[g_k] == g_exp), "byte k of the target");
		POST(IMPLIES(g_k == want, the_buf[g_k] == 0), "a terminator after the target");
		COVER(which != 1 && g_k < want);
		COVER(which == 1 && g_k == want);
	}
	POST(IMPLIES(g_k > want, (uint8_t)the_buf[g_k] == b0), "nothing past the terminator is written");
}
