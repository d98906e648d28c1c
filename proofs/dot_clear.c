/* Contract of clear_dot_dot, as steps: each takes one component and the dot-dot after it out of the path.
 * @what every step keeps what the path means (lemmas/dotdot.lean), no dot-dot is left that could be taken back, and nothing is written outside the string
 * @source src/dir.c
 * @fn clear_dot_dot
 * @loop clear_dot_dot 0
 * @replace follow_link_links component_before
 * @nobody sqfs_inode_get sqfs_inode_root squash_readlink_inode sqfs_mode sqfs_md_read sqfs_dentry_init strdup memcpy memset free strncpy
 * @unwindset lsq_strcmp.0:5
 * @trusted strlen, strstr, strcmp, memmove as in C
 *
 * D is any string, L its length, w a watched index. What the steps of a run add up to is the
 * lemma cut_keeps: each keeps the sequence of directories the path names. */
#include "lsq.h"
#include "squash/dir.h"
#include "squash/fs.h"
static char *D; static size_t L, SIZE, w;
#define OFF(p) __CPROVER_POINTER_OFFSET(p)
static struct ghost {
	bool found;                /* a dot-dot between slashes is at o */
	bool none;                 /* there is none left */
	bool asked, refused;       /* for the component before it: at r, or none */
	bool tail;                 /* a dot-dot ends the path */
	size_t o, r, t;
	char dw;
} g;
#define DD(i) (D[i] == '/' && D[(i) + 1] == '.' && D[(i) + 2] == '.' && D[(i) + 3] == '/')
static size_t lsq_strlen(const char *s) {
	CALLEE(__CPROVER_same_object(s, D) && OFF(s) <= L, "within the path");
	return L - OFF(s);
}
static char *lsq_strstr(const char *h, const char *n) {
	CALLEE(h == D && n[0] == '/' && n[1] == '.' && n[2] == '.' && n[3] == '/' && n[4] == 0, "scaffold: dot-dot between slashes is what is searched for");
	g.asked = g.found = 0;
	if (nondet_bool()) {
		g.none = 1;
		if (w < L && L - w >= 4) ASSUME(!DD(w));
		g.dw = w <= L ? D[w] : 0;
		return NULL;
	}
	g.o = nondet_size();
	ASSUME(g.o < L && L - g.o >= 4);
	ASSUME(DD(g.o));
	g.found = 1;
	return D + g.o;
}
static int lsq_strcmp(const char *a, const char *b) {
	CALLEE(__CPROVER_same_object(a, D) && OFF(a) <= L && L - OFF(a) == 3 && b[0] == '/' && b[1] == '.' && b[2] == '.' && b[3] == 0, "scaffold: the end of the path is compared with dot-dot");
	CALLEE(g.none, "once no other is left");
	g.tail = a[0] == '/' && a[1] == '.' && a[2] == '.';
	if (g.tail) { g.o = L - 3; return 0; }
	for (int i = 0; i < 4; i++) if (a[i] != b[i]) return (unsigned char)a[i] - (unsigned char)b[i];
	return 1;
}
static void *lsq_memmove(void *d, const void *s, size_t n) {
	CALLEE(g.found && g.asked && !g.none, "scaffold: a dot-dot is taken out");
	CALLEE(__CPROVER_same_object(d, D) && __CPROVER_same_object(s, D), "within the path");
	CALLEE(OFF(d) == g.r, "from the component before it");
	CALLEE(OFF(s) == g.o + 3, "to its end");
	CALLEE(OFF(s) <= L && n == L - OFF(s) + 1, "and the rest of the string follows, whole");
	L -= OFF(s) - OFF(d);
	g.found = 0;
	__CPROVER_havoc_object(D);
	D[L] = 0;
	return d;
}
#define strlen lsq_strlen
#define strstr lsq_strstr
#define strcmp lsq_strcmp
#define memmove lsq_memmove
#define LSQ_LOOP_clear_dot_dot_0 __CPROVER_assigns(dot_dot, dot_dot_left, L, __CPROVER_object_whole(D), \
	g.found, g.none, g.asked, g.refused, g.o, g.r, g.t, g.dw) __CPROVER_loop_invariant( \
	L < SIZE && D[L] == 0 && !g.none && !g.refused && !g.tail && !g.found)
#include "cur/dir.c"
sqfs_err stub_follow_link_links(sqfs *fs, const char *path, sqfs_inode *node, int *links) { return SQFS_ERR; }
char *stub_component_before(char *path, char *end) {
	CALLEE(path == D && (g.found || g.tail) && !g.asked, "scaffold: the component before a dot-dot is sought");
	CALLEE(__CPROVER_same_object(end, D) && OFF(end) == g.o, "right before it");
	g.asked = 1;
	/* as dot_before.c */
	g.t = nondet_size();
	ASSUME(g.t <= g.o && (g.t == g.o || D[g.t] == '/'));
	if (nondet_bool()) {
		ASSUME(g.t == 0 || (g.t >= 2 && D[g.t - 1] == '.' && D[g.t - 2] == '.' && (g.t == 2 || D[g.t - 3] == '/')));
		/* the search found the first: nothing before it lies between slashes */
		if (g.t > 2) ASSUME(!DD(g.t - 3));
		g.refused = 1;
		return NULL;
	}
	g.r = nondet_size();
	ASSUME(g.r < g.o && g.r < g.t && IMPLIES(D[g.r] != '/', g.r == 0));
	return D + g.r;
}
void harness(void) {
	size_t L0;
	struct ghost g0 = {0};
	L = L0 = nondet_size(); w = nondet_size();
	ASSUME(L <= 1 << 20);
	SIZE = L + 1;
	D = __CPROVER_allocate(L + 1, 0);
	D[L] = 0;
	g = g0;
	sqfs_err e = clear_dot_dot(D);
	if (e != SQFS_OK) {
		POST(g.refused && g.asked, "only a path that leaves the root is refused");
		POST(g.t == 0 || g.t == 2, "one with nothing before a dot-dot but the root, or a dot-dot it starts with");
		COVER(g.tail && g.t == 2);
		COVER(!g.tail && L < L0);
		return;
	}
	POST(!g.refused && g.none, "done: no dot-dot between slashes is left");
	POST(L <= L0 && D[L] == 0, "the path stays a string in its place");
	if (g.tail) {
		POST(g.asked && D[g.r] == 0, "a dot-dot at the end takes the component before it along");
		POST(IMPLIES(w < g.r, D[w] == g.dw), "and nothing else");
		POST(IMPLIES(w <= L && w + 3 == g.r, !(D[w] == '/' && D[w + 1] == '.' && D[w + 2] == '.')), "no dot-dot is at the end then");
		COVER(L == L0 && g.r > 0);
	} else {
		POST(IMPLIES(w <= L, D[w] == g.dw), "nothing else changes");
		POST(!(L >= 3 && D[L - 3] == '/' && D[L - 2] == '.' && D[L - 1] == '.'), "no dot-dot is at the end");
		COVER(L < L0);
		COVER(L == L0 && L > 3);
	}
}
