/* Contract of lookup_path_links.
 * @what every component is looked up in the directory the ones before lead to, links on the way are followed, and the last one exactly when asked
 * @source src/dir.c
 * @fn lookup_path_links
 * @replace follow_link_links clear_dot_dot sqfs_dir_lookup
 * @loop lookup_path_links 0
 * @loop lookup_path_links 1
 * @loop lookup_path_links 2
 * @ghost lookup_path_links 0
 * @ghost lookup_path_links 1
 * @ghost lookup_path_links 2
 * @timeout 420
 * @fallback 7
 * @fallback_solver minisat
 * @nobody sqfs_inode_get squash_readlink_inode sqfs_mode sqfs_md_read strstr strcmp memmove
 * @trusted strdup, free, strlen, memcpy as in C
 *
 * The path is any string (D, of any length L); w is a watched index of it, arbitrary. That
 * D has no NUL before L is instantiated where the code looks. */
#include "lsq.h"
#include "squash/squashfs_fs.h"
#include "squash/dir.h"
#include "squash/fs.h"
static sqfs *the_fs; static const char *the_path; static sqfs_inode *the_node; static short *the_found;
static char *D; static size_t L, w;
static bool dup_live, dup_made;
static char *lsq_strdup(const char *s) {
	CALLEE(s == the_path && !dup_made, "the path given is copied");
	if (nondet_bool()) return NULL;
	dup_live = dup_made = 1;
	return D;
}
static void lsq_free(void *p) { if (!p) return; CALLEE(p == D && dup_live, "the copy is freed once"); dup_live = 0; }
static size_t lsq_strlen(const char *s) { CALLEE(s == D && dup_live, "scaffold: the copy is measured"); return L; }
static void *lsq_memcpy(void *d, const void *s, size_t n) {
	CALLEE(__CPROVER_w_ok(d, n) && (!n || __CPROVER_r_ok(s, n)), "within the buffers");
	if (w < n) ((char *)d)[w] = ((const char *)s)[w];
	return d;
}
#define strdup lsq_strdup
#define free lsq_free
#define strlen lsq_strlen
#define memcpy lsq_memcpy
#define memset(p, c, n) ((void)(p))
#define OFF(p) __CPROVER_POINTER_OFFSET(p)
static struct ghost {
	bool cleared, clear_err;     /* the copy was cleared of dot-dots, or leaves the root */
	size_t start, end;           /* the last component looked up */
	bool any;                    /* there is one */
	bool at_entry;               /* found, its inode not fetched */
	bool unfollowed;             /* it is a link, not followed */
	bool failed, missing;
	int follows;
	uint64_t iid;
} g;
static int links0; static short want_follow;
#ifdef LSQ_BOUNDED
#define MAXL 5
#else
#define MAXL (1 << 20)
#define INSIDE(p) (__CPROVER_same_object(p, D) && OFF(p) <= L)
/* w holds nothing that must be looked up: a slash, or a dot that is a whole component */
#define IDLE(i) (D[i] == '/' || (D[i] == '.' && ((i) == 0 || D[(i) - 1] == '/') && ((i) + 1 == L || D[(i) + 1] == '/')))
#define SKIPPED(p) ((w >= g.end && w < OFF(p)) ==> IDLE(w))
#define LSQ_LOOP_lookup_path_links_0 __CPROVER_assigns(path, err, entry.inode, *the_found, is_last_component, \
	*links, the_node->base.mode, __CPROVER_object_whole(path_here), \
	g.start, g.end, g.any, g.at_entry, g.unfollowed, g.failed, g.missing, g.follows, g.iid) __CPROVER_loop_invariant( \
	INSIDE(path) && g.end <= OFF(path) && SKIPPED(path) && (OFF(path) == 0 || OFF(path) == L || D[OFF(path)] == '/') \
	&& (g.unfollowed ==> (g.any && !want_follow && g.end == OFF(path) && (g.end == L || (g.end == L - 1 && D[g.end] == '/')))) \
	&& !g.at_entry && !g.failed && !g.missing && dup_live && (!g.any ==> g.end == 0) \
	&& g.follows >= 0 && g.follows <= L && *links == links0 + g.follows)
#define LSQ_LOOP_lookup_path_links_1 __CPROVER_assigns(path) __CPROVER_loop_invariant( \
	INSIDE(path) && OFF(path) >= OFF(__CPROVER_loop_entry(path)) && SKIPPED(path) \
	&& (OFF(path) == OFF(__CPROVER_loop_entry(path)) || D[OFF(path) - 1] == '/') \
	&& (g.unfollowed ==> OFF(path) >= g.end && OFF(path) <= L))
#define LSQ_LOOP_lookup_path_links_2 __CPROVER_assigns(path) __CPROVER_loop_invariant( \
	INSIDE(path) && OFF(path) >= OFF(name) && ((w >= OFF(name) && w < OFF(path)) ==> D[w] != '/') \
	&& (OFF(path) > OFF(name) ==> D[OFF(name)] != '/'))
static char *at(char *p) {
	__CPROVER_assert(__CPROVER_same_object(p, D) && OFF(p) <= L, "scaffold: a pointer into the path");
	size_t o = OFF(p);
	ASSUME(o >= L || D[o] != 0);
	return D + o;
}
#define LSQ_GHOST_lookup_path_links_0 path = at(path),
#define LSQ_GHOST_lookup_path_links_1 path = at(path),
#define LSQ_GHOST_lookup_path_links_2 path = at(path),
#endif
#include "cur/dir.c"
#ifdef LSQ_BOUNDED
#define IDLE(i) (D[i] == '/' || (D[i] == '.' && ((i) == 0 || D[(i) - 1] == '/') && ((i) + 1 == L || D[(i) + 1] == '/')))
#endif
sqfs_err stub_clear_dot_dot(char *path) {
	CALLEE(path == D && dup_live && !g.any, "the copy is cleared of dot-dots before the walk");
	if (nondet_bool()) { g.clear_err = 1; return SQFS_ERR; }
	g.cleared = 1;
	return SQFS_OK;
}
sqfs_err stub_sqfs_dir_lookup(sqfs *fs, sqfs_inode *inode, const char *name, size_t len, sqfs_dir_entry *entry, short *found) {
	CALLEE(fs == the_fs && inode == the_node && dup_live && g.cleared, "the directory reached so far is searched");
	CALLEE(!g.at_entry && !g.failed && !g.missing, "once the component before it is resolved");
	CALLEE(!g.unfollowed, "and followed, when it is a link on the way");
	CALLEE(__CPROVER_same_object(name, D), "scaffold: a component of the copy");
	size_t o = OFF(name);
	CALLEE(o >= g.end && o <= L && len >= 1 && len <= L - o, "components are taken in order");
	CALLEE((o == 0 || D[o - 1] == '/') && (o + len == L || D[o + len] == '/'), "the component is looked up by its whole name");
	CALLEE(IMPLIES(w >= o && w - o < len, D[w] != '/'), "and by nothing but its name");
	CALLEE(!(len == 1 && D[o] == '.'), "a dot is where the walk already is");
	CALLEE(IMPLIES(w >= g.end && w < o, IDLE(w)), "no component is left out");
	if (nondet_bool()) { g.failed = 1; return SQFS_ERR; }
	if (nondet_bool()) { g.missing = 1; *found = 0; return SQFS_OK; }
	g.iid = nondet_u64();
	entry->inode = g.iid;
	g.at_entry = 1; g.any = 1;
	g.start = o; g.end = o + len;
	*found = 1;
	return SQFS_OK;
}
sqfs_err sqfs_inode_get(sqfs *fs, sqfs_inode *inode, sqfs_inode_id id) {
	CALLEE(fs == the_fs && inode == the_node && g.at_entry && id == g.iid, "the entry's inode is fetched");
	if (nondet_bool()) { g.failed = 1; return SQFS_ERR; }
	g.at_entry = 0;
	g.unfollowed = nondet_bool();
	inode->base.mode = g.unfollowed ? S_IFLNK | 0777 : nondet_bool() ? S_IFDIR | 0755 : S_IFREG | 0644;
	return SQFS_OK;
}
sqfs_err stub_follow_link_links(sqfs *fs, const char *path, sqfs_inode *node, int *links) {
	CALLEE(fs == the_fs && node == the_node && g.any && g.unfollowed && !g.at_entry && !g.failed, "only a link just reached is followed");
	CALLEE(*links == links0 + g.follows, "links followed so far are counted along");
	CALLEE(want_follow || g.end < L, "the last component is not followed unless asked");
	if (g.end <= SQUASHFS_PATH_LEN) {
		CALLEE(IMPLIES(w < g.end, path[w] == D[w]), "a link is resolved from where it lies");
		CALLEE(path[g.end] == 0, "and the path to it ends there");
	} else
		CALLEE(IMPLIES(w < SQUASHFS_PATH_LEN, path[w] == D[w]), "a link too deep is told by a path too long");
	g.unfollowed = 0;
	if (nondet_bool()) { g.failed = 1; return SQFS_ERR; }
	ASSUME(g.follows < L);
	g.follows++; ++*links;
	node->base.mode = nondet_bool() ? S_IFDIR | 0755 : S_IFREG | 0644;
	return SQFS_OK;
}
void harness(void) {
	sqfs fs; char path[2]; sqfs_inode node; short found = nondet_short(); int links = nondet_int();
	struct ghost g0 = {0};
	L = nondet_size(); w = nondet_size();
	ASSUME(L <= MAXL);
	D = __CPROVER_allocate(L + 1, 0);
	D[L] = 0;
#ifdef LSQ_BOUNDED
	for (int i = 0; i < MAXL; i++) if (i < L) ASSUME(D[i] != 0);
#endif
	if (w < L) ASSUME(D[w] != 0);
	ASSUME(links >= 0 && links <= SQUASHFS_MAX_LINK_LEVEL);
	the_fs = &fs; the_path = path; the_node = &node; the_found = &found;
	dup_live = dup_made = 0;
	g = g0;
	links0 = links;
	want_follow = nondet_bool();
	sqfs_err e;
	e = lookup_path_links(&fs, &node, path, &found, want_follow, &links);
	POST(!dup_live, "the copy is released");
	if (e != SQFS_OK) {
		POST(g.failed || !dup_made, "an error comes from the image or from memory");
		COVER(g.failed && g.start > 1);
		COVER(!dup_made);
		return;
	}
	POST(!g.failed && dup_made, "no error is hidden");
	POST(links == links0 + g.follows, "every link followed is counted");
	if (found) {
		POST(g.cleared && !g.missing && !g.at_entry, "found: every component looked up was");
		POST(IMPLIES(w >= g.end && w < L, IDLE(w)), "found: no component is left out");
		POST(!(g.unfollowed && want_follow), "found: every link that must be followed was");
		COVER(!g.any && L > 2);
		COVER(g.follows > 0 && w < g.start);
		COVER(g.unfollowed && g.end < L);
		COVER(g.end == 3);
	} else {
		POST(g.clear_err || g.missing, "not found: some component is missing, or the path leaves the root");
		COVER(g.clear_err);
		COVER(g.missing && g.start > 1);
	}
}
