/* Contracts of component_before and clear_dot_dot.
 * @what dot-dot, dot and repeated slashes in a path mean what they mean lexically, and nothing is written outside the string
 * @source src/dir.c
 * @fn component_before clear_dot_dot
 * @replace follow_link_links
 * @variants N=5 | N=6 | N=7
 * @thorough N=8
 * @unwind 10
 * @unwindset clear_dot_dot.0:4
 * @arrays flat
 * @timeout 500
 * @bounded every path of at most 7 characters
 * @nobody sqfs_inode_get sqfs_inode_root squash_readlink_inode sqfs_mode sqfs_md_read sqfs_dentry_init strdup
 */
#include "lsq.h"
#include "squash/dir.h"
#include "squash/fs.h"
static size_t lsq_strlen(const char *s) { size_t i = 0; while (s[i]) i++; return i; }
static char *lsq_strstr(const char *h, const char *n) {
	CALLEE(n[0] == '/' && n[1] == '.' && n[2] == '.' && n[3] == '/' && n[4] == 0, "scaffold: dot-dot between slashes is what is searched for");
	for (size_t i = 0; h[i]; i++)
		if (h[i] == '/' && h[i + 1] == '.' && h[i + 2] == '.' && h[i + 3] == '/') return (char *)h + i;
	return NULL;
}
static int lsq_strcmp(const char *a, const char *b) {
	size_t i = 0;
	while (a[i] && a[i] == b[i]) i++;
	return (unsigned char)a[i] - (unsigned char)b[i];
}
static void *lsq_memmove(void *d, const void *s, size_t n) {
	char t[N + 2], *x = d; const char *y = s;
	CALLEE(n <= N + 1 && __CPROVER_r_ok(s, n) && __CPROVER_w_ok(d, n), "bytes are moved within the path");
	for (size_t i = 0; i < n; i++) t[i] = y[i];
	for (size_t i = 0; i < n; i++) x[i] = t[i];
	return d;
}
#define strlen lsq_strlen
#define strstr lsq_strstr
#define strcmp lsq_strcmp
#define memmove lsq_memmove
#include "cur/dir.c"
sqfs_err stub_follow_link_links(sqfs *fs, const char *path, sqfs_inode *node, int *links) { return SQFS_ERR; }
/* the components a walk along the path looks up: start and length in the string, dot and empty ones left out */
typedef struct { int n; int at[N + 1], len[N + 1]; } walk;
static void split(const char *p, walk *w) {
	w->n = 0;
	int s = 0;
	for (int i = 0; i <= N; i++) {
		if (p[i] == '/' || p[i] == 0) {
			if (i > s && !(i == s + 1 && p[s] == '.')) { w->at[w->n] = s; w->len[w->n] = i - s; w->n++; }
			s = i + 1;
			if (p[i] == 0) return;
		}
	}
}
static bool dotdot(const char *p, walk *w, int i) { return w->len[i] == 2 && p[w->at[i]] == '.' && p[w->at[i] + 1] == '.'; }
void harness(void) {
	char path[N + 1], was[N + 1];
	for (int i = 0; i <= N; i++) {
		path[i] = nondet_char();
		if (i == N) path[i] = 0;
		was[i] = path[i];
	}
	walk a, b;
	split(was, &a);
	/* reference: dot-dot takes back the component before it; there must be one */
	int ref[N + 1], rn = 0; bool escape = 0;
	for (int i = 0; i < a.n; i++) {
		if (dotdot(was, &a, i)) { if (!rn) { escape = 1; break; } rn--; }
		else ref[rn++] = i;
	}
	sqfs_err e = clear_dot_dot(path);
	if (e == SQFS_OK) {
		bool ended = 0;
		for (int i = 0; i <= N; i++) if (!path[i]) ended = 1;
		POST(ended, "the path stays a string in its place");
		split(path, &b);
		if (escape) {
			bool left = 0;
			for (int i = 0; i < b.n; i++) if (dotdot(path, &b, i)) left = 1;
			POST(left, "a path that leaves the root is refused, or keeps a dot-dot no directory has");
#if N > 3
			COVER(1);
#endif
		} else {
			POST(b.n == rn, "as many components as the path means");
			for (int i = 0; i < N; i++) if (i < rn && i < b.n) {
				POST(b.len[i] == a.len[ref[i]], "every component keeps its length");
				for (int k = 0; k < N; k++) if (k < b.len[i])
					POST(path[b.at[i] + k] == was[a.at[ref[i]] + k], "every component keeps its name");
			}
#if N > 5
			COVER(rn == 1 && a.n == 3);
			COVER(a.n == 2 && rn == 2);
#else
			COVER(rn == 1);
#endif
		}
	} else {
		POST(escape, "only a path that leaves the root is refused");
		COVER(1);
	}
}
