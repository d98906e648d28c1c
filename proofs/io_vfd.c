/* Contracts of the interception layer's operations on descriptors and directory streams.
 * @what a descriptor or stream of the image is operated on by the library, with the caller's arguments and the library's result; any other by the system; pread reads at its offset and leaves the position
 * @source sample/enclose_io_unix.c
 * @solver minisat
 * @fn enclose_io_fstat enclose_io_close enclose_io_read enclose_io_lseek enclose_io_pread enclose_io_closedir enclose_io_readdir enclose_io_telldir enclose_io_seekdir enclose_io_rewinddir enclose_io_dirfd enclose_io_dos_return enclose_io_fdopendir
 * @variants OP=1 | OP=2 | OP=3 | OP=4 | OP=5 | OP=6 | OP=7 | OP=8 | OP=9 | OP=10 | OP=11 | OP=12
 * @fallback 3
 * @nobody strlen strnlen strncmp memcpy memmove strstr
 */
#include "lsq.h"
#include "squash.h"
#include "enclose_io_common.h"
#undef assert
#define assert(e) __CPROVER_assert((e), "assertion of the code: " #e)
struct squash_fdtable squash_global_fdtable;
MUTEX squash_global_mutex;
static int locks;
int MUTEX_LOCK(MUTEX *m) { CALLEE(m == &squash_global_mutex && !locks, "scaffold: the mutex is taken once"); locks++; return 0; }
int MUTEX_UNLOCK(MUTEX *m) { CALLEE(m == &squash_global_mutex && locks == 1, "scaffold: the mutex is held"); locks--; return 0; }
static int sys, lib; static long ret; static int g_fd; static bool virt;
static void *a_buf; static long a_n, a_off; static int a_wh;
static struct squash_file F;
static int64_t pos, pos0;
#define SYS(fd) CALLEE(!virt && (fd) == g_fd, "the system gets the descriptors that are its own"); sys++
#define LIB(fd) CALLEE(virt && (fd) == g_fd, "the library gets the descriptors of the image"); lib++
int fstat(int fd, struct stat *b) { SYS(fd); CALLEE(b == a_buf, "the caller's buffer"); return ret; }
int close(int fd) { SYS(fd); return ret; }
ssize_t read(int fd, void *b, size_t n) { SYS(fd); CALLEE(b == a_buf && n == (size_t)a_n, "the caller's buffer and size"); return ret; }
off_t lseek(int fd, off_t o, int w) { SYS(fd); CALLEE(o == a_off && w == a_wh, "the caller's offset"); return ret; }
ssize_t pread(int fd, void *b, size_t n, off_t o) { SYS(fd); CALLEE(b == a_buf && n == (size_t)a_n && o == a_off, "the caller's buffer, size and offset"); return ret; }
int squash_fstat(int fd, struct stat *b) { LIB(fd); CALLEE(b == a_buf, "the caller's buffer"); return ret; }
int squash_close(int fd) { LIB(fd); return ret; }
static int reads; static int64_t read_at;
ssize_t squash_read(int fd, void *b, sqfs_off_t n) {
	CALLEE(virt && fd == g_fd, "the library gets the descriptors of the image");
	CALLEE(b == a_buf && n == a_n, "the caller's buffer and size");
	reads++; read_at = pos;
	if (ret > 0) pos += ret;
	return ret;
}
static long lseek_ret; static int seeks;
off_t squash_lseek(int fd, off_t o, int w) {
	CALLEE(virt && fd == g_fd, "the library gets the descriptors of the image");
	seeks++;
	if (OP == 4) { CALLEE(o == a_off && w == a_wh, "the caller's offset"); return ret; }
	int64_t t = w == SQUASH_SEEK_SET ? o : w == SQUASH_SEEK_CUR ? pos + o : -1;
	CALLEE(w == SQUASH_SEEK_SET || w == SQUASH_SEEK_CUR, "scaffold: the position is looked at or set");
	if (t < 0) { errno = EINVAL; return -1; }
	pos = t;
	return t;
}
static char S[8]; static bool is_ours; static void *pret; static long a_loc;
struct squash_file *squash_find_entry(void *p) { CALLEE(p == (void *)S, "the stream is looked up"); return is_ours ? &F : NULL; }
#define SD(p) CALLEE(!is_ours && (void *)(p) == S, "the system gets the streams that are its own"); sys++
#define LD(p) CALLEE(is_ours && (void *)(p) == S, "the library gets the streams of the image"); lib++
int closedir(DIR *d) { SD(d); return ret; }
struct dirent *readdir(DIR *d) { SD(d); return pret; }
long telldir(DIR *d) { SD(d); return ret; }
void seekdir(DIR *d, long l) { SD(d); CALLEE(l == a_loc, "the place is the caller's"); }
void rewinddir(DIR *d) { SD(d); }
int dirfd(DIR *d) { SD(d); return ret; }
int squash_closedir(SQUASH_DIR *d) { LD(d); return ret; }
struct SQUASH_DIRENT *squash_readdir(SQUASH_DIR *d) { LD(d); return pret; }
long squash_telldir(SQUASH_DIR *d) { LD(d); return ret; }
void squash_seekdir(SQUASH_DIR *d, long l) { LD(d); CALLEE(l == a_loc, "the place is the caller's"); }
void squash_rewinddir(SQUASH_DIR *d) { LD(d); }
int squash_dirfd(SQUASH_DIR *d) { LD(d); return ret; }
/* fdopendir */
static SQUASH_DIR *ND; static char *NN, *FN; static int nf_d, nf_n, nf_h; static int handle; static int stage; static bool found_it; static sqfs_err look_err; static sqfs the_fs; static int failed;
DIR *fdopendir(int fd) { SYS(fd); return pret; }
static void *my_calloc(size_t n, size_t s) { CALLEE(n * s == sizeof(SQUASH_DIR) && !ND, "scaffold: one stream is made"); if (nondet_bool()) { failed = 1; return NULL; } ND = malloc(sizeof(SQUASH_DIR)); ASSUME(ND != NULL); return ND; }
static char *my_strdup(const char *s) { CALLEE(s == FN && !NN, "the name is that of the open directory"); if (nondet_bool()) { failed = 1; return NULL; } NN = malloc(4); ASSUME(NN != NULL); return NN; }
static void my_free(void *p) {
	if (!p) return;
	CALLEE(p == (void *)ND || p == (void *)NN || p == (void *)&handle, "scaffold: only what is known is released");
	if (p == (void *)ND) nf_d++; else if (p == (void *)NN) nf_n++; else nf_h++;
}
sqfs_inode_id sqfs_inode_root(sqfs *fs) { CALLEE(fs == &the_fs, "the image of the descriptor"); return 77; }
sqfs_err sqfs_inode_get(sqfs *fs, sqfs_inode *i, sqfs_inode_id id) { CALLEE(fs == &the_fs && ND && i == &ND->node && id == 77 && stage == 0, "from the root of its image"); stage = 1; if (nondet_bool()) return SQFS_OK; failed = 1; return SQFS_ERR; }
sqfs_err sqfs_lookup_path_inner(sqfs *fs, sqfs_inode *i, const char *p, short *f, short follow) {
	CALLEE(fs == &the_fs && i == &ND->node && (p == NN || p == FN) && follow && stage == 1, "the name of the descriptor is looked up from the root");
	stage = 2; *f = nondet_bool();
	if (nondet_bool()) { if (!*f) failed = 1; return SQFS_OK; }
	failed = 1; *f = nondet_short(); return SQFS_ERR;
}
sqfs_err sqfs_dir_open(sqfs *fs, sqfs_inode *i, sqfs_dir *d, sqfs_off_t o) { CALLEE(fs == &the_fs && i == &ND->node && d == &ND->dir && o == 0 && stage == 2 && !failed, "the directory is opened at its start"); stage = 3; if (nondet_bool()) return SQFS_OK; failed = 1; return SQFS_ERR; }
#define calloc my_calloc
#define strdup my_strdup
#define free my_free
#include "cur/enclose_io_unix.c"
#undef free
void harness(void) {
	struct squash_file *tab; struct squash_file **fds;
	size_t nr = nondet_size();
	char b[4]; struct stat st;
	ASSUME(nr <= 1 << 22);
	fds = nr ? malloc(nr * 8) : NULL;
	g_fd = nondet_int();
	virt = g_fd >= 0 && (size_t)g_fd < nr && nondet_bool();
	if (g_fd >= 0 && (size_t)g_fd < nr) fds[g_fd] = virt ? &F : NULL;
	squash_global_fdtable.fds = fds; squash_global_fdtable.nr = nr;
	sys = lib = locks = reads = seeks = 0; errno = nondet_int();
	ret = nondet_i64(); a_n = nondet_i64(); a_off = nondet_i64(); a_wh = nondet_int(); a_buf = b;
	pos = pos0 = nondet_i64(); ASSUME(pos >= 0 && pos < (1ll << 60));
	pret = nondet_bool() ? b : NULL; a_loc = nondet_i64(); is_ours = nondet_bool();
	long r = 0;
	bool ours = virt;
#if OP == 1
	ret = (int)ret; a_buf = &st; r = enclose_io_fstat(g_fd, &st);
#elif OP == 2
	ret = (int)ret; r = enclose_io_close(g_fd);
#elif OP == 3
	r = enclose_io_read(g_fd, b, a_n); lib = reads;
#elif OP == 4
	r = enclose_io_lseek(g_fd, a_off, a_wh); lib = seeks;
#elif OP == 5
	ASSUME(ret >= -1 && ret < (1l << 60) && a_off < (1l << 60));
	r = enclose_io_pread(g_fd, b, a_n, a_off); lib = reads;
	if (virt) {
		POST(pos == pos0, "the position is left");
		if (a_off < 0) { POST(r == -1 && errno == EINVAL && !reads, "a negative offset is EINVAL"); COVER(1); return; }
		POST(read_at == a_off, "the bytes are those at the offset");
		COVER(r == -1); COVER(r > 0 && a_off > pos0);
	}
#elif OP >= 6 && OP <= 11
	ours = is_ours;
	DIR *d = (DIR *)S;
#if OP == 6
	ret = (int)ret; r = enclose_io_closedir(d);
#elif OP == 7
	POST(enclose_io_readdir(d) == pret, "the entry is the one read"); r = ret;
#elif OP == 8
	r = enclose_io_telldir(d);
#elif OP == 9
	enclose_io_seekdir(d, a_loc); r = ret;
#elif OP == 10
	enclose_io_rewinddir(d); r = ret;
#elif OP == 11
	ret = (int)ret; r = enclose_io_dirfd(d);
#endif
#elif OP == 12
	FN = b; F.filename = b; F.fs = &the_fs; F.payload = &handle; F.fd = nondet_int();
	ND = NULL; NN = NULL; nf_d = nf_n = nf_h = stage = failed = 0;
	DIR *d = enclose_io_fdopendir(g_fd);
	if (!virt) { POST(sys == 1 && d == pret, "any other descriptor is the system's"); COVER(1); return; }
	POST(!locks && !sys, "the mutex is released");
	if (d) {
		POST(d == (DIR *)ND && stage == 3 && !failed && !nf_d && !nf_n, "a stream of the opened directory");
		POST(ND->fs == &the_fs && ND->fd == g_fd && ND->nr == 0 && ND->actual_nr == 0 && ND->loc == 0 && ND->entries == NULL && ND->filename == NN, "at its start, on that descriptor");
		POST(F.payload == (void *)ND && nf_h == 1, "which closing the descriptor or the stream will release; the descriptor's handle is released");
		COVER(1);
	} else {
		POST(failed && errno != 0, "failure has a reason");
		POST(F.payload == (void *)&handle && !nf_h, "and leaves the descriptor as it was");
		POST(nf_d == (ND != NULL) && nf_n == (NN != NULL), "with nothing kept");
		COVER(stage == 3); COVER(!NN && ND);
	}
	return;
#endif
#if OP != 12
	POST(lib == ours && sys == !ours, "exactly one of the library and the system is asked, once");
	POST(r == ret, "with its result");
	COVER(ours); COVER(!ours); COVER(g_fd < 0); COVER(ret > (1l << 33) || OP == 1 || OP == 2 || OP == 6 || OP == 11);
#endif
}
