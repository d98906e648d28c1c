/* Contract of squash_readlink_inode when the file system has root aliases.
 * @what an absolute target inside an alias of the root is reported relative to the root, any other target unchanged
 * @source src/readlink.c
 * @fn squash_readlink_inode
 * @unwind 3
 * @nobody sqfs_inode_get sqfs_inode_root sqfs_lookup_path sqfs_lookup_path_inner
 * @trusted strlen, strstr, strncmp, memcmp, memmove as in C (stated over lengths, a watched byte and whether the target begins with the alias)
 *
 * Targets and aliases of any length. P(k): the target begins with alias k; the byte g_w of what is
 * reported is watched. */
#include "lsq.h"
#include "squash.h"
static char *B, *A[2]; static size_t L[2], want, g_w, g_cut, g_len, g_off; static bool P[2], H[2];
static char g_exp; static bool g_read, g_moved;
#define OFF(p) __CPROVER_POINTER_OFFSET(p)
#define IN(p, q) ((q) != NULL && __CPROVER_same_object(p, q))
static int alias(const char *s) { return H[0] && IN(s, A[0]) ? 0 : H[1] && IN(s, A[1]) ? 1 : -1; }
static size_t lsq_strlen(const char *s) {
	int a = alias(s);
	if (a >= 0) { CALLEE(OFF(s) == 0, "scaffold: an alias is measured from its start"); return L[a]; }
	CALLEE(IN(s, B) && g_read && OFF(s) <= g_len && B[g_len] == 0, "what is measured is a target, terminated");
	return g_len - OFF(s);
}
/* the target against an alias */
static bool begins(const char *s, int a) {
	CALLEE(a >= 0 && IN(s, B) && OFF(s) == 0 && g_read && !g_moved && B[want] == 0, "scaffold: the whole target is compared with an alias");
	return a >= 0 && P[a];
}
static char *lsq_strstr(const char *h, const char *n) {
	if (begins(h, alias(n))) return B;
	if (nondet_bool()) return NULL;
	size_t at = nondet_size();
	ASSUME(at > 0 && at <= want);
	return B + at;
}
static int differ(const char *s, const char *n, size_t c) {
	if (alias(s) >= 0) { const char *t = s; s = n; n = t; }
	int a = alias(n);
	CALLEE(a >= 0 && OFF(n) == 0 && c == L[a], "scaffold: a whole alias is compared");
	if (begins(s, a)) return 0;
	int r = nondet_int();
	ASSUME(r != 0);
	return r;
}
static int lsq_strncmp(const char *s, const char *n, size_t c) { return differ(s, n, c); }
static int lsq_memcmp(const void *s, const void *n, size_t c) {
	CALLEE(__CPROVER_r_ok(s, c) && __CPROVER_r_ok(n, c), "what is compared is there");
	return differ(s, n, c);
}
static void *lsq_memmove(void *d, const void *s, size_t n) {
	CALLEE(__CPROVER_r_ok(s, n) && __CPROVER_w_ok(d, n), "the move stays inside the buffer");
	CALLEE(IN(d, B) && IN(s, B) && OFF(d) == 0 && !g_moved && n > 0, "scaffold: the target moves to the start of the buffer, once");
	char *p = d; const char *q = s;
	char last = q[n - 1], w = g_w < n ? q[g_w] : 0;
	CALLEE(last == 0 && OFF(s) + n == g_len + 1, "all that is left moves, its terminator too");
	__CPROVER_havoc_object(B);
	B[n - 1] = 0;
	if (g_w < n) B[g_w] = w;
	g_len = n - 1; g_moved = 1;
	return d;
}
#define strlen lsq_strlen
#define strstr lsq_strstr
#define strncmp lsq_strncmp
#define memcmp lsq_memcmp
#define memmove lsq_memmove
#include "cur/readlink.c"
sqfs_err sqfs_md_read(sqfs *fs, sqfs_md_cursor *cur, void *buf, size_t size) {
	CALLEE(size == want && buf == B && !g_read, "the whole target is read into the buffer");
	g_read = 1;
	/* a target holds no NUL; if it begins with an alias it has the slash the alias ends in */
	for (int a = 0; a < 2; a++) if (H[a] && P[a]) ASSUME(B[L[a] - 1] == '/');
	if (g_w + g_cut < want) { g_exp = B[g_w + g_cut]; ASSUME(g_exp != 0); }
	return SQFS_OK;
}
void harness(void) {
	sqfs fs;
	sqfs_inode n;
	size_t bufsize = nondet_size();
	ASSUME(S_ISLNK(n.base.mode));
	want = n.xtra.symlink_size;
	ASSUME(want >= 1 && bufsize > want && bufsize <= 1ull << 33);
	B = __CPROVER_allocate(bufsize, 0);
	g_w = nondet_size(); g_len = want; g_read = g_moved = 0;
	ASSUME(g_w <= want);
	for (int a = 0; a < 2; a++) {
		H[a] = nondet_bool(); P[a] = nondet_bool(); L[a] = nondet_size();
		/* an alias is an absolute directory and ends in a slash */
		ASSUME(L[a] >= 1 && L[a] <= 1 << 20);
		if (P[a]) ASSUME(L[a] <= want);
		A[a] = __CPROVER_allocate(L[a] + 1, 0);
		A[a][0] = A[a][L[a] - 1] = '/'; A[a][L[a]] = 0;
	}
	fs.root_alias = H[0] ? A[0] : NULL;
	fs.root_alias2 = H[1] ? A[1] : NULL;
	int al = H[0] && P[0] ? 0 : H[1] && P[1] ? 1 : -1;
	g_cut = al >= 0 ? L[al] - 1 : 0;
	ssize_t r = squash_readlink_inode(&fs, &n, B, bufsize);
	POST(r == (ssize_t)(want - g_cut), "the length of what is reported");
	POST(IMPLIES((ssize_t)g_w < r, B[g_w] == g_exp), "the target, without the alias");
	POST(r >= 0 && B[r] == 0, "terminated");
	COVER(al == 0 && g_cut == 300 && want == 1000 && g_w == 500);
	COVER(al == 1 && H[0]);
	COVER(al < 0 && H[0] && H[1]);
}
