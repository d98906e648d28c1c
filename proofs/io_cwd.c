/* Contracts of enclose_io_chdir_helper, enclose_io_getcwd, enclose_io_getwd.
 * @what the virtual working directory is the path entered, without trailing slashes and with one; getcwd returns it without, or ERANGE
 * @source sample/enclose_io_unix.c
 * @fn enclose_io_chdir_helper enclose_io_getcwd enclose_io_getwd
 * @loop enclose_io_chdir_helper 0
 * @solver minisat
 * @variants OP=1 | OP=2 | OP=3
 * @fallback 6
 * @trusted strlen, memcpy as in C (a ghost length, watched bytes); the caller has PATH_MAX bytes for getwd
 * @nobody strnlen strncmp memmove strstr
 */
#include "lsq.h"
#include "squash.h"
#include "enclose_io_common.h"
#undef assert
#define assert(e) __CPROVER_assert((e), "assertion of the code: " #e)
#define PL SQUASHFS_PATH_LEN
#define SC 21
static char P[PL + 1]; static size_t lp, lc, k, wm;
static int sys; static char *sysret; static char *B; static size_t room; static bool nomem, grown;
size_t strlen(const char *s) {
	if (s == P) return lp;
	if (s == enclose_io_cwd) return lc;
	CALLEE(0, "scaffold: the length of a string the harness does not know");
	return 0;
}
char *getcwd(char *b, size_t n) { CALLEE(b == B && n == room, "the system gets the caller's arguments"); sys++; return sysret; }
static void *my_malloc(size_t n) {
	if (nomem) return NULL;
	CALLEE(!grown && n >= lc && n <= PL + 1, "scaffold: one buffer for the name");
	grown = 1;
	return B = __CPROVER_allocate(n, 0);
}
static void *my_memcpy(void *d, const void *s, size_t n) {
	CALLEE(__CPROVER_r_ok(s, n) && __CPROVER_w_ok(d, n), "what is copied is inside its buffers");
#if OP == 1
	CALLEE(d == enclose_io_cwd && s == P && n <= PL, "scaffold: the path becomes the working directory");
	__CPROVER_array_copy(enclose_io_cwd, P);        /* past n the bytes are set below */
#else
	if (k < n) ((char *)d)[k] = ((const char *)s)[k];
#endif
	return d;
}
#define malloc my_malloc
#define memcpy my_memcpy
#if !defined(LSQ_BOUNDED)
#define LSQ_LOOP_enclose_io_chdir_helper_0 __CPROVER_assigns(memcpy_len) __CPROVER_loop_invariant( \
	memcpy_len >= SC && memcpy_len <= lp && (wm < memcpy_len || P[wm] == '/'))
#endif
#include "cur/enclose_io_unix.c"
void harness(void) {
	lp = nondet_size(); k = nondet_size();
	sys = 0; grown = 0; nomem = nondet_bool(); errno = nondet_int();
#if OP == 1
	size_t m = nondet_size();       /* where the trailing slashes begin */
	ASSUME(lp >= SC && lp < PL && m >= SC && m <= lp && k < lp);          /* within the limit */
#ifdef LSQ_BOUNDED
	ASSUME(lp <= SC + 4);
#endif
	__CPROVER_array_set(P, '/');
	__CPROVER_havoc_slice(P, m);
	P[lp] = 0;
	ASSUME(P[m - 1] != '/');
	__CPROVER_havoc_object(enclose_io_cwd);
#ifndef LSQ_BOUNDED
	wm = m - 1;
#endif
	enclose_io_chdir_helper(P);
	POST(enclose_io_cwd[m] == '/' && enclose_io_cwd[m + 1] == 0, "the working directory ends in one slash");
	POST(k >= m || enclose_io_cwd[k] == P[k], "and is the path before it");
	COVER(m == lp); COVER(m + 3 == lp); COVER(k + 2 == m);
	COVER(m == PL - 1);
#else
	__CPROVER_havoc_object(enclose_io_cwd);
	lc = nondet_size();
	bool virt = nondet_bool();
	if (virt) ASSUME(lc > SC && lc <= PL && enclose_io_cwd[0] == '/' && enclose_io_cwd[lc] == 0 && enclose_io_cwd[lc - 1] == '/');
	else { lc = 0; enclose_io_cwd[0] = 0; }
	ASSUME(!virt || k < lc - 1);
	room = OP == 3 ? MAXPATHLEN : nondet_size(); B = NULL;
	bool own = OP == 3 || nondet_bool();
	ASSUME(room <= 1 << 20);
	if (own) { B = __CPROVER_allocate(room, 0); }
	sysret = nondet_bool() ? P : NULL;
	char *r = OP == 3 ? enclose_io_getwd(B) : enclose_io_getcwd(B, room);
	if (!virt) { POST(sys == 1 && r == sysret, "without a virtual working directory the system's is returned"); COVER(1); return; }
	POST(!sys, "the system is not asked");
	if (own ? room >= lc : !nomem) {
		POST(r != NULL && r == B && grown == !own, "the name is returned in the caller's buffer, or a new one");
		POST(r[lc - 1] == 0 && r[k] == enclose_io_cwd[k], "it is the virtual working directory, without the last slash");
		COVER(own); COVER(!own || OP == 3); COVER(room == lc || OP == 3);
	} else {
		POST(r == NULL && errno == (own ? ERANGE : ENOMEM), "too small a buffer is ERANGE");
#if OP == 2
		COVER(own && room + 1 == lc); COVER(!own);
#endif
	}
#endif
}
