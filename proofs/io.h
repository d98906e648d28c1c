/* Strings of any length as ghost lengths and watched bytes, for the interception layer.
 * P (the caller's path), enclose_io_cwd, the overlay directory W. The name a call is about is x = [cwd +] P, of length
 * lx (at most the path limit when joined). A copy moves the watched byte only (index we of x, ww of W, and index SC of x,
 * which the code reads); every other byte of a buffer stays arbitrary, so one watch stands for each. */
#include "lsq.h"
#include "squash.h"
#include "enclose_io_common.h"
#undef assert
#define assert(e) __CPROVER_assert((e), "assertion of the code: " #e)
#define PL SQUASHFS_PATH_LEN
#define SC 21                             /* strlen of the scope */
#define SAME(a, b) __CPROVER_same_object(a, b)
#define OFF(a) __CPROVER_POINTER_OFFSET(a)
extern char *mkdir_workdir, *enclose_io_mkdir_scope;
static char *P, *W; static size_t lp, lc, lw, lx;
static size_t we, ww; static bool in_w;   /* the watched byte: x[we], or W[ww] */
static char *EXP, *OVR; static bool moved;
static char x_we, x_sc, w_ww;
#ifdef CASE
#define REL (CASE == 1)
#define IMG (CASE == 2)
#else
static bool REL, IMG;
#endif

static char x_at(size_t k) { return REL ? (k < lc ? enclose_io_cwd[k] : k < lx ? P[k - lc] : 0) : k < lx ? P[k] : 0; }
static size_t lo(void) { return MIN(lw + lx, PL); }        /* overlay ++ name, before the scope is taken out */
static size_t lof(void) { return lo() - SC; }
static bool exp_ok(const char *s) { return we >= lx || s[we] == x_we; }
/* the watched byte of the overlay name, before and after the scope is taken out */
static bool pre_ok(const char *s) { return in_w ? s[ww] == w_ww : lw + we >= lo() || s[lw + we] == x_we; }
static bool ovr_ok(const char *s) { return in_w ? s[ww] == w_ww : we < SC || lw + we >= lo() || s[lw + we - SC] == x_we; }

size_t strlen(const char *s) {
	if (s == P) return lp;
	if (s == enclose_io_cwd) return lc;
	if (W && s == W) return lw;
	if (s == enclose_io_mkdir_scope) return SC;
	if (EXP && s == EXP) { CALLEE(s[lx] == 0 && exp_ok(s), "the joined name is terminated where it ends"); return lx; }
	if (OVR && s == OVR + lw + SC && !moved) { CALLEE(OVR[lo()] == 0, "the overlay name is terminated where it ends"); return lo() - lw - SC; }
	CALLEE(0, "scaffold: the length of a string the harness does not know");
	return 0;
}
size_t strnlen(const char *s, size_t n) {
	if (s == P) return MIN(lp, n);
	if (EXP && s == EXP) return MIN(lx, n);
	CALLEE(0, "scaffold: the length of a string the harness does not know");
	return 0;
}
int strncmp(const char *a, const char *b, size_t n) {
	CALLEE(n <= SC, "scaffold: at most the scope is compared");
	for (unsigned k = 0; k < SC; k++) {
		if (k >= n) return 0;
		if (a[k] != b[k]) return (unsigned char)a[k] < (unsigned char)b[k] ? -1 : 1;
		if (!a[k]) return 0;
	}
	return 0;
}
static void put(char *d, const char *s, size_t n, size_t at) {   /* copies the byte at index `at` of the buffer d lies in */
	size_t o = OFF(d);
	if (at >= o && at - o < n) d[at - o] = s[at - o];
}
void *memcpy(void *d, const void *s, size_t n) {
	CALLEE(__CPROVER_r_ok(s, n) && __CPROVER_w_ok(d, n), "what is copied is inside its buffers");
	if (s == (void *)enclose_io_cwd) EXP = d;
	if (W && s == (void *)W) OVR = d;
#ifdef EXP_HEAD
	if (s == (void *)enclose_io_cwd) for (unsigned k = 0; k < SC; k++) ((char *)d)[k] = ((const char *)s)[k];
#endif
	if (EXP && SAME(d, EXP)) { put(d, s, n, we); put(d, s, n, SC); }
	else if (OVR && SAME(d, OVR)) { put(d, s, n, in_w ? ww : lw + we); put(d, s, n, lw + SC); }
	else CALLEE(0, "scaffold: a copy the harness does not know");
	return d;
}
void *memmove(void *d, const void *s, size_t n) {
	CALLEE(__CPROVER_r_ok(s, n) && __CPROVER_w_ok(d, n), "what is moved is inside its buffers");
	CALLEE(OVR && !moved && d == OVR + lw && s == OVR + lw + SC && n == lo() - lw - SC + 1, "scaffold: the scope is taken out of the overlay name");
	char *dd = d; const char *ss = s;
	if (!in_w && we >= SC && we - SC < n) dd[we - SC] = ss[we - SC];
	moved = 1;
	return d;
}
/* the first place of the scope: a name of the image starts with it, the overlay directory does not contain it */
char *strstr(const char *s, const char *t) {
	CALLEE(t == enclose_io_mkdir_scope, "scaffold: only the scope is searched for");
	CALLEE(s == OVR && pre_ok(s) && s[lo()] == 0, "the overlay name is the overlay directory with the name after it");
	return lw + SC <= lo() ? (char *)s + lw : NULL;
}
static void io_setup(bool with_cwd) {
	static const char scope[] = "/__enclose_io_memfs__";
	lp = nondet_size(); lc = nondet_size(); lw = nondet_size(); we = nondet_size(); ww = nondet_size(); in_w = nondet_bool();
	ASSUME(lp < (1u << 20) && lc <= PL && lw <= PL && lw > 0);
	P = __CPROVER_allocate(lp + 1, 0);
	ASSUME(P[lp] == 0);
	for (unsigned k = 0; k < SC; k++) ASSUME(k >= lp || P[k] != 0);
	if (!with_cwd) ASSUME(lc == 0);
	__CPROVER_havoc_object(enclose_io_cwd);
	ASSUME(enclose_io_cwd[lc] == 0 && (lc == 0 || (lc > SC && enclose_io_cwd[0] != 0)));
	if (lc) for (unsigned k = 0; k < SC; k++) ASSUME(enclose_io_cwd[k] == scope[k]);    /* only a path of the image is ever entered */
	ASSUME(lc == 0 || enclose_io_cwd[lc - 1] == '/');
	W = NULL;
	if (nondet_bool()) { W = __CPROVER_allocate(lw + 1, 0); ASSUME(W[lw] == 0); }
	else { lw = 0; in_w = 0; }
	ASSUME(!in_w || ww < lw);
	mkdir_workdir = W;
	bool rel = lc > 0 && P[0] != '/', img = lp >= SC;
	for (unsigned k = 0; k < SC; k++) if (img && P[k] != scope[k]) img = 0;
#ifdef CASE
	ASSUME(rel == REL && img == IMG);
#else
	REL = rel; IMG = img;
#endif
	lx = REL ? MIN(lc + lp, PL) : lp;
	ASSUME(we < lx || (lx == 0 && we == 0));
	x_we = x_at(we); x_sc = x_at(SC); w_ww = in_w ? W[ww] : 0;
	EXP = OVR = NULL; moved = 0;
	errno = nondet_int();
}
