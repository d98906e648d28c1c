/* Contracts of sqfs_stat, sqfs_makedev, squash_stat, squash_lstat, squash_fstat.
 * @what stat reports the decoded inode; stat follows a final link, lstat does not; fstat repeats what open recorded
 * @source src/private.c src/stat.c src/nonstd-makedev.c
 * @fn sqfs_stat sqfs_makedev squash_stat squash_lstat squash_fstat
 * @unwind 2
 * @trusted makedev()/gnu_dev_makedev: the C library's composition of major and minor
 */
#include "lsq.h"
#include "squash.h"
#include "squash/private.h"
#include <sys/sysmacros.h>
static dev_t mk(unsigned a, unsigned b) { return ((uint64_t)(a & 0xfffff000u) << 32) | ((uint64_t)(a & 0xfffu) << 8) | ((uint64_t)(b & 0xffffff00u) << 12) | (b & 0xffu); }
dev_t gnu_dev_makedev(unsigned a, unsigned b) { return mk(a, b); }
#include "cur/nonstd-makedev.c"
#include "cur/private.c"
struct squash_fdtable squash_global_fdtable;
MUTEX squash_global_mutex;
#include "cur/stat.c"

static sqfs *the_fs;
static const char *the_path;
static sqfs_inode root_ino, found_ino, target_ino;
static sqfs_inode_id root_id;
static int step, followed, want_follow;
static short is_found;
static int fail_at;
sqfs_inode_id sqfs_inode_root(sqfs *fs) { return root_id; }
sqfs_err sqfs_inode_get(sqfs *fs, sqfs_inode *inode, sqfs_inode_id id) {
	CALLEE(fs == the_fs && id == root_id, "the walk starts at the root");
	if (nondet_bool()) { fail_at = 1; return SQFS_ERR; }
	*inode = root_ino;
	step = 1;
	return SQFS_OK;
}
static sqfs_err lookup(sqfs *fs, sqfs_inode *inode, const char *path, short *found, short follow) {
	CALLEE(fs == the_fs && path == the_path && step == 1, "the path asked for is looked up from the root");
	if (nondet_bool()) { fail_at = 2; errno = nondet_int(); return SQFS_ERR; }
	*found = is_found = nondet_bool();
	*inode = follow ? target_ino : found_ino;
	followed = follow != 0;
	step = 2;
	return SQFS_OK;
}
sqfs_err sqfs_lookup_path_inner(sqfs *fs, sqfs_inode *i, const char *p, short *f, short fl) { return lookup(fs, i, p, f, fl); }
sqfs_err sqfs_lookup_path(sqfs *fs, sqfs_inode *i, const char *p, short *f) { return lookup(fs, i, p, f, 0); }
sqfs_err squash_follow_link(sqfs *fs, const char *path, sqfs_inode *node) {
	CALLEE(fs == the_fs && path == the_path && step == 2 && !followed, "a final link is followed from its own path");
	if (nondet_bool()) { fail_at = 3; return SQFS_ERR; }
	*node = target_ino;
	followed = 1;
	return SQFS_OK;
}
static void check(const struct stat *s, const sqfs_inode *i) {
	mode_t m = i->base.mode & S_IFMT;
	POST(s->st_mode == i->base.mode && s->st_nlink == (nlink_t)i->nlink, "mode and link count");
	POST(s->st_mtime == i->base.mtime && s->st_ctime == i->base.mtime && s->st_atime == i->base.mtime, "times");
	POST(s->st_size == (m == S_IFREG ? (off_t)i->xtra.reg.file_size : m == S_IFLNK ? (off_t)i->xtra.symlink_size : 0), "size of a file, length of a link target");
	POST(s->st_rdev == (m == S_IFBLK || m == S_IFCHR ? mk(i->xtra.dev.major, i->xtra.dev.minor) : 0), "device number of a device");
}
void harness(void) {
	sqfs fs;
	struct stat s;
	sqfs_inode a;
	char path[4];
	int which = nondet_int(), r;
	the_fs = &fs; the_path = path; step = 0; followed = 0; fail_at = 0; is_found = 0;
	root_id = nondet_u64();
	sqfs_inode f1, f2;
	found_ino = f1; target_ino = f2;
	errno = nondet_int();
	if (which == 0) {
		sqfs_inode i0 = a;
		ASSUME(a.nlink >= 0);
		POST(sqfs_stat(&fs, &a, &s) == SQFS_OK, "stat of a decoded inode succeeds");
		check(&s, &i0);
		COVER(S_ISREG(a.base.mode));
		COVER(S_ISCHR(a.base.mode));
		COVER(S_ISLNK(a.base.mode));
	} else if (which == 1 || which == 2) {
		ASSUME(found_ino.nlink >= 0 && target_ino.nlink >= 0);
		bool lnk = S_ISLNK(found_ino.base.mode);
		ASSUME(!S_ISLNK(target_ino.base.mode));
		/* following what is not a link is the identity */
		if (!lnk) target_ino = found_ino;
		r = which == 1 ? squash_stat(&fs, path, &s) : squash_lstat(&fs, path, &s);
		if (r == 0) {
			POST(fail_at == 0 && step == 2 && is_found, "success only for a path that exists");
			check(&s, which == 1 ? &target_ino : &found_ino);
			COVER(which == 1 && lnk);
			COVER(which == 2 && lnk);
			COVER(!lnk);
		} else {
			POST(r == -1 && errno != 0, "failure is -1 with errno set");
			POST(fail_at != 0 || !is_found, "an existing path that can be read is found");
			POST(IMPLIES(fail_at == 0, errno == ENOENT), "a missing path is ENOENT");
			COVER(fail_at == 0);
			COVER(fail_at == 2);
		}
	} else {
		struct squash_file *t[3] = { 0, 0, 0 }, f;
		int vfd;
		struct stat s0 = s;
		ASSUME(vfd >= -2 && vfd < 5);
		squash_global_fdtable.fds = t;
		squash_global_fdtable.nr = 3;
		squash_global_fdtable.end = nondet_bool() ? 2 : 3;
		t[1] = &f;
		r = squash_fstat(vfd, &s);
		if (vfd == 1) {
			POST(r == 0 && s.st_mode == f.st.st_mode && s.st_size == f.st.st_size && s.st_mtime == f.st.st_mtime && s.st_nlink == f.st.st_nlink && s.st_rdev == f.st.st_rdev, "fstat repeats what open recorded");
			COVER(1);
		} else {
			POST(r == -1 && errno == EBADF && s.st_size == s0.st_size && s.st_mode == s0.st_mode, "fstat of anything but an open vfd is EBADF");
			COVER(vfd == 0);
			COVER(vfd == -1);
		}
	}
}
