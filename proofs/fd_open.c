/* Contracts of squash_open_inner, squash_open, squash_start.
 * @what opening resolves the path, gives the new vfd position 0 and a fresh slot, disturbs no other vfd, and a failed open leaves nothing behind
 * @source src/fd.c
 * @solver minisat
 * @fn squash_open_inner squash_open squash_start
 * @unwind 2
 * @variants OP=1 | OP=2
 * @nobody squash_extract_clear_cache sqfs_read_range MUTEX_DESTORY
 * @trusted dup() returns a descriptor that is not open; malloc, calloc, realloc, strdup, free as in C
 *
 * g_j is a watched slot of the table. */
#include "lsq.h"
#include "squash.h"
#include <unistd.h>
static struct squash_file *g_file;
static int live, kfd, kopen, locks;
static size_t g_j;
static struct squash_file **tab0;
static size_t nr0;
static struct squash_file *at_j;
static void *lsq_calloc(size_t n, size_t s) {
	CALLEE(n * s >= sizeof(struct squash_file), "room for a file");
	if (nondet_bool()) return NULL;
	live++;
	struct squash_file *f = malloc(sizeof *f);
	g_file = f;
	f->filename = NULL; f->payload = NULL; f->pos = 0; f->fs = NULL; f->fd = 0;
	return f;
}
static void *lsq_malloc(size_t n) { if (nondet_bool()) return NULL; live++; return malloc(n); }
static void *lsq_realloc(void *p, size_t n) {
	CALLEE(p == tab0, "the table is what grows");
	if (nondet_bool()) return NULL;
	struct squash_file **q = malloc(n);
	CALLEE(n / 8 >= nr0, "the table never shrinks");
	if (g_j < nr0) q[g_j] = tab0[g_j];
	free(p);
	return q;
}
static void *lsq_memset(void *d, int c, size_t n) {
	struct squash_file **q = squash_global_fdtable.fds;
	CALLEE(n == 0 || __CPROVER_POINTER_OBJECT(d) == __CPROVER_POINTER_OBJECT(q), "scaffold: the table is cleared");
	CALLEE(c == 0 && __CPROVER_POINTER_OFFSET(d) % 8 == 0 && n % 8 == 0, "scaffold: slots are cleared");
	CALLEE(n == 0 || __CPROVER_w_ok(d, n), "inside the table");
	if (g_j >= __CPROVER_POINTER_OFFSET(d) / 8 && g_j - __CPROVER_POINTER_OFFSET(d) / 8 < n / 8) q[g_j] = NULL;
	return d;
}
static char *dupped; static const char *the_path;
static char *lsq_strdup(const char *s) {
	CALLEE(s == the_path, "the file remembers the path it was opened by");
	if (nondet_bool()) return NULL;
	live++;
	dupped = malloc(4);
	return dupped;
}
static void lsq_free(void *p) { if (p) live--; free(p); }
static int lsq_dup(int fd) {
	if (nondet_bool()) { errno = 24; return -1; }
	kopen++;
	kfd = nondet_int();
	ASSUME(kfd >= 0 && kfd < (1 << 20));
	return kfd;
}
static int lsq_close(int fd) { CALLEE(kopen == 1 && fd == kfd, "only the descriptor just obtained is closed"); kopen--; return 0; }
int MUTEX_LOCK(MUTEX *m) { locks++; return 0; }
int MUTEX_UNLOCK(MUTEX *m) { locks--; return 0; }
int MUTEX_INIT(MUTEX *m) { locks = 0; return 0; }
static int lsq_atexit(void (*f)(void)) { return nondet_bool() ? 0 : -1; }
#define atexit lsq_atexit
#define calloc lsq_calloc
#define malloc lsq_malloc
#define realloc lsq_realloc
#define memset lsq_memset
#define strdup lsq_strdup
#define free lsq_free
#define dup lsq_dup
#define close lsq_close
#include "cur/fd.c"
#undef malloc
#undef free
static uint64_t g_fsize; static uint32_t g_frag;
static sqfs *the_fs;
static int step; static short is_found, want_follow; static int fail_at;
static sqfs_inode root_ino, found_ino; static sqfs_inode_id root_id;
static struct stat g_st;
sqfs_inode_id sqfs_inode_root(sqfs *fs) { return root_id; }
sqfs_err sqfs_inode_get(sqfs *fs, sqfs_inode *inode, sqfs_inode_id id) {
	CALLEE(fs == the_fs && id == root_id, "the walk starts at the root");
	if (nondet_bool()) { fail_at = 1; return SQFS_ERR; }
	*inode = root_ino;
	step = 1;
	return SQFS_OK;
}
static sqfs_err lookup(sqfs *fs, sqfs_inode *inode, const char *path, short *found, short follow) {
	CALLEE(fs == the_fs && path == the_path && step == 1, "the path asked for is looked up from the root");
	CALLEE(!follow == !want_follow, "a final link is followed exactly when asked");
	if (nondet_bool()) { fail_at = 2; errno = nondet_int(); return SQFS_ERR; }
	*found = is_found = nondet_bool();
	*inode = found_ino;
	inode->xtra.reg.file_size = g_fsize; inode->xtra.reg.frag_idx = g_frag;
	step = 2;
	return SQFS_OK;
}
sqfs_err sqfs_lookup_path_inner(sqfs *fs, sqfs_inode *i, const char *p, short *f, short fl) { return lookup(fs, i, p, f, fl); }
sqfs_err sqfs_lookup_path(sqfs *fs, sqfs_inode *i, const char *p, short *f) { return lookup(fs, i, p, f, 0); }
sqfs_err sqfs_stat(sqfs *fs, sqfs_inode *inode, struct stat *st) {
	CALLEE(fs == the_fs && inode->base.inode_number == found_ino.base.inode_number, "the opened inode is described");
	if (nondet_bool()) { fail_at = 3; return SQFS_ERR; }
	*st = g_st;
	return SQFS_OK;
}
void harness(void) {
	sqfs fs;
	char path[4];
	sqfs_inode i1, i2;
	struct stat s1;
	int r;
	live = kopen = locks = step = fail_at = 0; is_found = 0;
	the_fs = &fs; the_path = path; root_ino = i1; found_ino = i2; root_id = nondet_u64(); g_fsize = nondet_u64(); g_frag = nondet_u32(); g_st = s1;
	if (OP == 1 && nondet_bool()) {
		squash_global_fdtable.nr = nondet_size();
		squash_start();
		POST(squash_global_fdtable.nr == 0 && squash_global_fdtable.fds == NULL, "the table starts empty");
		POST(locks == 0, "and its lock is initialised");
#if OP == 1
		COVER(1);
#endif
		return;
	}
	/* any table: no slot at or past `end` is taken, the one before is */
	size_t end0;
	nr0 = nondet_size(); end0 = nondet_size();
	ASSUME(nr0 <= (1 << 22) && end0 <= nr0);
	tab0 = nr0 ? malloc(nr0 * 8) : NULL;
	g_j = nondet_size();
	ASSUME(g_j < (1 << 25));
	at_j = NULL;
	if (g_j < nr0) {
		if (g_j >= end0) tab0[g_j] = NULL;
		at_j = tab0[g_j];
	}
	if (end0 && g_j + 1 == end0) ASSUME(at_j != NULL);
	squash_global_fdtable.fds = tab0;
	squash_global_fdtable.nr = nr0;
	squash_global_fdtable.end = end0;
	errno = nondet_int();
	want_follow = nondet_bool();
	if (OP == 1) { want_follow = 1; r = squash_open(&fs, path); }
	else r = squash_open_inner(&fs, path, want_follow);
	struct squash_fdtable *t = &squash_global_fdtable;
	POST(locks == 0, "the table's lock is released");
	POST(t->end <= t->nr && t->nr >= nr0 && (t->nr == 0 || __CPROVER_w_ok(t->fds, t->nr * 8)), "the table covers its slots");
	if (r >= 0) {
		POST(step == 2 && is_found && fail_at == 0, "only an existing file is opened");
		POST(kopen == 1 && r == kfd, "the vfd is a descriptor the system reserved");
		POST((size_t)r < t->nr && t->end == (end0 > (size_t)r + 1 ? end0 : (size_t)r + 1), "the table grows to hold it, and knows its last slot");
		struct squash_file *f = g_file;
		POST(t->fds[r] == f && f->fs == &fs && f->pos == 0 && f->fd == r, "a new file at position 0");
		POST(f->node.base.inode_number == found_ino.base.inode_number && f->node.base.mode == found_ino.base.mode && f->node.xtra.reg.file_size == g_fsize && f->node.xtra.reg.frag_idx == g_frag, "of the inode found");
		POST(f->st.st_size == g_st.st_size && f->st.st_mode == g_st.st_mode, "with its description");
		POST(f->payload && *(int *)f->payload == r, "its handle carries the vfd");
		POST(live == (f->filename ? 3 : 2), "file, name and handle are owned by the table");
		POST(IMPLIES(f->filename, f->filename == dupped), "the name is a copy");
		if (g_j != (size_t)r && g_j < t->nr)
			POST(t->fds[g_j] == at_j, "no other slot changes");
		COVER(t->fds == tab0);
		COVER(t->fds != tab0 && nr0 > 0);
	} else {
		POST(r == -1 && errno != 0, "failure is -1 with errno set");
		POST(IMPLIES(fail_at == 0 && step == 2 && !is_found, errno == ENOENT), "a missing path is ENOENT");
		POST(live == 0 && kopen == 0, "a failed open leaks neither memory nor a descriptor");
		POST(t->end == end0 && IMPLIES(g_j < t->nr, t->fds[g_j] == at_j), "and leaves every slot as it was");
		COVER(step == 2 && is_found && fail_at == 0);
		COVER(step == 2 && !is_found);
		COVER(fail_at == 2);
	}
}
