/* Contracts of enclose_io__exec and enclose_io_exepath.
 * @what a program of the image is run by running this executable again, with the program's path put before its arguments; the name of the executable is terminated within its buffer
 * @source sample/enclose_io_unix.c
 * @fn enclose_io__exec enclose_io_exepath
 * @variants OP=1 | OP=2
 * @bounded enclose_io__exec: up to 4 arguments
 * @unwind 7
 * @fallback 7
 * @solver minisat
 * @trusted execv, setenv, readlink as in POSIX; memory is there (the code aborts without)
 * @nobody strlen strnlen strncmp memmove strstr memcpy
 */
#include "lsq.h"
#include "squash.h"
#include "enclose_io_common.h"
#undef assert
#define assert(e) __CPROVER_assert((e), "assertion of the code: " #e)
static char A[5][2], path[2]; static char *argv_[6]; static int argc_, execs, ret, envs, nf, na; static char *exe;
static ssize_t link_len; static char *lbuf; static size_t lroom;
static void *my_malloc(size_t n) { void *p = malloc(n); ASSUME(p != NULL); na++; return p; }
static void my_free(void *p) { if (p) nf++; }
int setenv(const char *n, const char *v, int o) { envs++; return 0; }
ssize_t readlink(const char *n, char *b, size_t k) {
	CALLEE(__CPROVER_w_ok(b, k) && (OP == 1 || (b == lbuf && k < lroom)), "the name fits its buffer");
	if (OP == 1) exe = b;
	ssize_t r = nondet_i64();
	ASSUME(r >= -1 && r <= (ssize_t)k && (OP == 2 || r >= 0));
	return link_len = r;
}
int execv(const char *p, char *const *v) {
	CALLEE(p == exe && envs >= 1, "this executable is run, told that it is run again");
	CALLEE(v[0] == argv_[0] && v[1] == path, "the path of the program comes before its arguments");
	for (int i = 1; i < argc_; i++) CALLEE(v[i + 1] == argv_[i], "which follow in order");
	CALLEE(v[argc_ + 1] == NULL, "and end with them");
	execs++;
	return ret;
}
#define malloc my_malloc
#define free my_free
#include "cur/enclose_io_unix.c"
#undef malloc
#undef free
void harness(void) {
	nf = na = envs = execs = 0;
#if OP == 1
	argc_ = nondet_int(); ASSUME(argc_ >= 1 && argc_ <= 4);
	for (int i = 0; i < 5; i++) argv_[i] = i < argc_ ? A[i] : NULL;
	ret = nondet_int();
	int r = enclose_io__exec(path, argv_);
	POST(execs == 1 && r == ret, "the result is execv's");
	POST(nf == na, "nothing is kept");
	COVER(argc_ == 1); COVER(argc_ == 4);
#else
	lroom = nondet_size(); ASSUME(lroom <= 1 << 20);
	lbuf = nondet_bool() ? NULL : __CPROVER_allocate(lroom, 0);
	size_t sz = lroom, w = nondet_size();
	int r = enclose_io_exepath(lbuf, nondet_bool() ? &sz : NULL);
	POST(r == 0 || r == -1, "success or failure");
	if (r == 0) { POST(lbuf && lroom > 0 && sz < lroom && lbuf[sz] == 0 && (lroom == 1 || sz == (size_t)link_len), "the name is terminated within its buffer"); COVER(sz > 3); COVER(lroom == 1); }
	else COVER(lbuf && lroom > 3);
#endif
}
