/* Contracts of squash_opendir_inner, squash_opendir, squash_closedir, squash_telldir, squash_seekdir, squash_rewinddir, squash_dirfd.
 * @what a stream owns one vfd and starts at the first entry; closing releases everything once; a failed open leaves nothing behind
 * @source src/dirent.c
 * @fn squash_opendir_inner squash_opendir squash_closedir squash_telldir squash_seekdir squash_rewinddir squash_dirfd
 * @solver minisat
 * @unwind 2
 * @nobody sqfs_dir_next sqfs_dentry_init realloc
 * @trusted malloc, calloc, strdup, free as in C
 */
#include "lsq.h"
#include "squash.h"
struct squash_fdtable squash_global_fdtable;
MUTEX squash_global_mutex;
static int locks, live, vopen, closes;
static SQUASH_DIR *g_dir; static char *g_name; static int *g_handle; static int g_vfd;
static const char *the_path; static sqfs *the_fs;
static struct squash_file F, *tab[3];
static int n_dir, n_name, n_handle, n_other, n_ent;
static void *lsq_calloc(size_t n, size_t s) {
	CALLEE(n * s >= sizeof(SQUASH_DIR), "room for a stream");
	if (nondet_bool()) return NULL;
	static SQUASH_DIR d;
	d = (SQUASH_DIR){ 0 };
	g_dir = &d; n_dir = 1;
	return g_dir;
}
static char *lsq_strdup(const char *s) {
	static char nm[4];
	CALLEE(s == the_path, "the stream remembers its path");
	if (nondet_bool()) return NULL;
	g_name = nm; n_name = 1;
	return nm;
}
static int hobj; static char entobj[4];
static void lsq_free(void *p) {
	if (!p) return;
	if (p == g_dir) { CALLEE(n_dir == 1, "the stream is freed once"); n_dir--; }
	else if (p == g_name) { CALLEE(n_name == 1, "the path is freed once"); n_name--; }
	else if (p == &hobj) { CALLEE(n_handle == 1, "the handle is freed once"); n_handle--; }
	else if (p == entobj) { CALLEE(n_ent == 1, "the entries are freed once"); n_ent--; }
	else n_other++;
}
static int fail_at;
int squash_open_inner(sqfs *fs, const char *path, short follow) {
	CALLEE(fs == the_fs && path == the_path, "the path asked for is opened");
	if (nondet_bool()) { fail_at = 1; errno = lsq_err(); return -1; }
	vopen++;
	n_handle = 1;
	F.payload = &hobj;
	tab[g_vfd] = &F;
	return g_vfd;
}
int squash_open(sqfs *fs, const char *path) { return squash_open_inner(fs, path, 1); }
static int close_ret;
int squash_close(int vfd) {
	CALLEE(vfd == g_vfd && vopen == 1 && locks == 0, "the stream's vfd is closed");
	closes++;
	close_ret = nondet_bool() ? 0 : -1;
	if (close_ret) { errno = lsq_err(); return -1; }
	vopen--;
	lsq_free(F.payload);
	tab[g_vfd] = NULL;
	return 0;
}
int MUTEX_LOCK(MUTEX *m) { locks++; return 0; }
int MUTEX_UNLOCK(MUTEX *m) { locks--; return 0; }
#define calloc lsq_calloc
#define strdup lsq_strdup
#define free lsq_free
#include "cur/dirent.c"
static int step; static short is_found; static short want_follow;
static sqfs_inode root_ino, found_ino; static sqfs_inode_id root_id;
sqfs_inode_id sqfs_inode_root(sqfs *fs) { return root_id; }
sqfs_err sqfs_inode_get(sqfs *fs, sqfs_inode *inode, sqfs_inode_id id) {
	CALLEE(fs == the_fs && id == root_id, "the walk starts at the root");
	if (nondet_bool()) { fail_at = 2; return SQFS_ERR; }
	*inode = root_ino;
	step = 1;
	return SQFS_OK;
}
sqfs_err sqfs_lookup_path_inner(sqfs *fs, sqfs_inode *inode, const char *path, short *found, short follow) {
	CALLEE(fs == the_fs && path == the_path && step == 1 && !follow == !want_follow, "the path asked for is looked up from the root");
	if (nondet_bool()) { fail_at = 3; errno = lsq_err(); return SQFS_ERR; }
	*found = is_found = nondet_bool();
	*inode = found_ino;
	step = 2;
	return SQFS_OK;
}
sqfs_err sqfs_dir_open(sqfs *fs, sqfs_inode *inode, sqfs_dir *dir, off_t offset) {
	CALLEE(fs == the_fs && inode->base.inode_number == found_ino.base.inode_number && dir == &g_dir->dir && offset == 0 && step == 2, "the directory found is listed from its start");
	if (nondet_bool()) { fail_at = 4; return SQFS_ERR; }
	step = 3;
	return SQFS_OK;
}
void harness(void) {
	sqfs fs;
	char path[4];
	SQUASH_DIR *d;
	sqfs_inode i1, i2;
	root_ino = i1; found_ino = i2; root_id = nondet_u64();
	the_fs = &fs; the_path = path;
	locks = live = vopen = closes = n_dir = n_name = n_handle = n_other = n_ent = fail_at = step = 0; is_found = 0;
	g_dir = NULL; g_name = NULL;
	tab[0] = tab[1] = tab[2] = NULL;
	squash_global_fdtable.fds = tab; squash_global_fdtable.nr = 3; squash_global_fdtable.end = nondet_bool() ? 0 : 3;
	g_vfd = nondet_bool() ? 1 : nondet_bool() ? 0 : 2;
	want_follow = nondet_bool();
	errno = nondet_int();
	if (nondet_bool()) { want_follow = 1; d = squash_opendir(&fs, path); }
	else d = squash_opendir_inner(&fs, path, want_follow);
	POST(locks == 0 && n_other == 0, "the table's lock is released and nothing foreign freed");
	if (!d) {
		POST(errno != 0, "failure sets errno");
		POST(n_name == 0, "a failed open leaks no path");
		POST(closes == (fail_at >= 2 || (step == 2 && !is_found)), "and closes the vfd it opened");
		if (closes && close_ret == 0)
			POST(vopen == 0 && n_handle == 0, "and no vfd");
		if (!closes || close_ret == 0)
			POST(n_dir == 0, "and no stream");
		POST(IMPLIES(fail_at == 0 && step == 2 && !is_found && !close_ret, errno != 0), "a missing path sets errno");
		COVER(fail_at == 4);
		COVER(fail_at == 1);
		COVER(!is_found && step == 2);
		return;
	}
	POST(d == g_dir && fail_at == 0 && step == 3 && is_found, "only an existing directory is opened");
	POST(vopen == 1 && squash_dirfd(d) == g_vfd && F.payload == d && n_handle == 0, "the stream is the payload of its vfd");
	POST(d->fs == &fs && d->actual_nr == 0 && d->nr == 0 && d->entries == NULL && squash_telldir(d) == 0, "it starts before the first entry");
	POST(IMPLIES(d->filename, d->filename == g_name), "its path is a copy");
	long l = nondet_i64();
	squash_seekdir(d, l);
	POST(squash_telldir(d) == l && vopen == 1, "telldir repeats the position sought");
	squash_rewinddir(d);
	POST(squash_telldir(d) == 0, "rewinding goes back to the first entry");
	d->actual_nr = nondet_int();
	if (nondet_bool()) { d->entries = (void *)entobj; n_ent = 1; d->nr = 10; }
	int r = squash_closedir(d);
	POST(closes == 1 && n_name == 0 && n_ent == 0 && n_other == 0, "closing releases path and entries once, and the vfd");
	if (close_ret == 0) {
		POST(r == 0 && vopen == 0 && n_dir == 0, "and the stream with it");
		COVER(n_ent == 0);
	} else {
		POST(r == -1 && errno != 0, "a failed close is reported");
		COVER(1);
	}
}
