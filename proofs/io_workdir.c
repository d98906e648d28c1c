/* Contracts of making and removing the overlay directory.
 * @what the overlay directory is made once, private to the user, and removed at exit with all it holds; a failure leaves none and releases the mutex
 * @source sample/enclose_io_unix.c
 * @fn enclose_io_mkdir_workdir mkdir_workdir_halt mkdir_workdir_halt_rm
 * @variants OP=1 | OP=2
 * @fallback 2
 * @trusted nftw calls its function for everything below, with FTW_DEPTH contents before directories, with FTW_PHYS links as links
 * @nobody strnlen strncmp memmove strstr memcpy
 */
#include "lsq.h"
#include "squash.h"
#include "enclose_io_common.h"
#undef assert
#define assert(e) __CPROVER_assert((e), "assertion of the code: " #e)
MUTEX squash_global_mutex;
static int locks;
int MUTEX_LOCK(MUTEX *m) { CALLEE(m == &squash_global_mutex && !locks, "the mutex is taken once"); locks++; return 0; }
int MUTEX_UNLOCK(MUTEX *m) { CALLEE(m == &squash_global_mutex && locks == 1, "the mutex is held"); locks--; return 0; }
extern char *mkdir_workdir; extern SQUASH_OS_PATH generic_mkdir_workdir;
static char N[4], D[4], OTHER[4]; static size_t ln; static int made, live, registered, rmdirs, unlinks, walks; static bool fail, dir_fail; static const char *the;
static void (*handler)(void);
size_t strlen(const char *s) { CALLEE(s == N, "scaffold: the overlay's name"); return ln; }
SQUASH_OS_PATH squash_tmpdir(void) { return D; }
SQUASH_OS_PATH squash_tmpf(SQUASH_OS_PATH d, const char *e) { CALLEE(d == D && !e && !live && locks, "a new name in the temporary directory"); if (nondet_bool()) { fail = 1; return NULL; } live = 1; return N; }
int mkdir(const char *s, mode_t m) { CALLEE(s == N && live && m == S_IRWXU && !made, "it is made once, for the user only"); if (nondet_bool()) { fail = 1; return -1; } made = 1; return 0; }
int atexit(void (*f)(void)) { CALLEE(made && !registered, "it is removed at exit"); if (nondet_bool()) { fail = 1; return 1; } registered = 1; handler = f; return 0; }
int rmdir(const char *s) { if (OP == 1) { CALLEE(s == N && made, "what was made is removed"); made = 0; return 0; } CALLEE(s == the, "the thing itself is removed"); rmdirs++; return nondet_bool() ? 0 : -1; }
int unlink(const char *s) { CALLEE(s == the, "the thing itself is removed"); unlinks++; return nondet_bool() ? 0 : -1; }
static int (*walker)(const char *, const struct stat *, int, struct FTW *);
int nftw(const char *s, int (*f)(const char *, const struct stat *, int, struct FTW *), int n, int fl) {
	CALLEE(s == N && (fl & FTW_DEPTH) && (fl & FTW_PHYS) && n > 0, "everything below the overlay directory, contents first, links as links");
	walker = f; walks++;
	return 0;
}
static void my_free(void *p) { if (!p) return; CALLEE(p == (void *)N && live && OP == 1, "only the name is released, once"); live = 0; }
#define free my_free
#include "cur/enclose_io_unix.c"
#undef free
void harness(void) {
	locks = made = live = registered = rmdirs = unlinks = walks = 0; fail = 0;
	ln = nondet_size();
#if OP == 1
	bool before = nondet_bool();
	mkdir_workdir = before ? OTHER : NULL; generic_mkdir_workdir = mkdir_workdir;
	errno = nondet_int();
	char *r = enclose_io_mkdir_workdir();
	POST(!locks, "the mutex is released");
	if (before) { POST(r == OTHER && mkdir_workdir == OTHER && !live && !made, "there is one overlay directory"); COVER(1); return; }
	POST(mkdir_workdir == r, "what is returned is the overlay directory");
	if (r) {
		POST(r == N && live && made && registered && !fail && ln <= SQUASHFS_PATH_LEN, "it exists, and is removed at exit");
		mkdir_workdir_halt();
		POST(walks == 1 && handler == mkdir_workdir_halt, "by walking it");
		POST(walker == mkdir_workdir_halt_rm, "scaffold: the walk removes");
		COVER(1);
	} else {
		POST((fail || ln > SQUASHFS_PATH_LEN) && !live && !registered, "failure has a reason and keeps nothing");
		COVER(made || !made); COVER(ln > SQUASHFS_PATH_LEN && !fail);
	}
#else
	static char any[4]; struct stat st; struct FTW w; int flag = nondet_int();
	the = any;
	int r = mkdir_workdir_halt_rm(any, &st, flag, &w);
	POST(r == 0, "the walk goes on");
	bool d = flag == FTW_D || flag == FTW_DNR || flag == FTW_DP;
	POST(rmdirs == d && unlinks == !d, "a directory is removed as one, anything else is unlinked");
	COVER(d); COVER(flag == FTW_F); COVER(flag == FTW_SL);
#endif
}
