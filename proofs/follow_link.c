/* Contracts of follow_link_links and squash_follow_link.
 * @what each link leads to what its text names from where it lies, chains end at something that is no link, and more than 32 links are refused
 * @source src/dir.c
 * @fn follow_link_links squash_follow_link
 * @replace lookup_path_links clear_dot_dot
 * @loop follow_link_links 0
 * @loop follow_link_links 1
 * @loop follow_link_links 2
 * @timeout 420
 * @fallback 14
 * @fallback_unwindset follow_link_links.2:5
 * @fallback_arrays flat
 * @fallback_solver minisat
 * @fallback_variants BASE=0 | BASE=1 | BASE=2 | BASE=3 | BASE=4
 * @nobody sqfs_md_read strcmp memmove strstr sqfs_dentry_init sqfs_mode strdup
 * @trusted strlen, strncpy, memcpy as in C
 *
 * w, u, v are watched indices of the strings, arbitrary. BL is the length of the path where the
 * link at hand lies and bw its byte at w. */
#ifdef LSQ_BOUNDED
#include "follow_link_bounded.h"
#else
#include "lsq.h"
#include "squash/squashfs_fs.h"
#include "squash/dir.h"
#include "squash/fs.h"
#define PL SQUASHFS_PATH_LEN
static char *PATH; static size_t PLN, w, u, v;
static sqfs *the_fs; static sqfs_inode *the_node;
static int links0;
static struct ghost {
	size_t BL, NL, n, pos;          /* where the link lies; the path put together; the link's text; where it was put */
	char bw, tw;                    /* bytes at w: of where the link lies, of the path to look up */
	const char *link;
	int followed, stage;            /* 0: at a link  1: text read  2: prefix in place  3: text in place  4: cleared */
	bool rooted, is_link, failed, missing, clear_failed, got, rel;
} g;
static uint64_t g_root;
static size_t lsq_strlen(const char *s) {
	if (s == PATH) return PLN;
	CALLEE(s[g.BL] == 0 && (w >= g.BL || s[w] == g.bw), "scaffold: where the link lies is measured");
	return g.BL;
}
static void *lsq_memcpy(void *d, const void *s, size_t n) {
	const char *b = s;
	CALLEE(__CPROVER_w_ok(d, n) && (!n || __CPROVER_r_ok(s, n)), "within the buffers");
	size_t o = __CPROVER_POINTER_OFFSET(d);
	if (s == g.link) {
		CALLEE(g.stage == 2 && o == g.pos && n == g.n, "the link's text goes in the place of its name");
		g.stage = 3;
	} else {
		CALLEE(g.stage == 1 && o == 0 && n <= g.BL, "scaffold: the directory of the link is copied");
		CALLEE(n == 0 || b[n - 1] == '/', "a relative link starts from the directory it lies in");
		CALLEE(n == 0 || (n < g.BL && b[n] != '/'), "and takes the place of the last component");
		CALLEE(IMPLIES(n <= u && u < v && v < g.BL && b[u] == '/', b[v] == '/'), "the last one, not one before it");
		CALLEE(IMPLIES(w < n, b[w] == g.bw), "of the path where it lies");
		g.pos = n;
		g.stage = 2;
	}
	if (o <= w && w - o < n) ((char *)d)[w - o] = b[w - o];
	return d;
}
static char *lsq_strncpy(char *d, const char *s, size_t n) {
	size_t sl = s == PATH ? PLN : s == g.link ? g.n : g.NL;
	CALLEE(__CPROVER_w_ok(d, n), "within the buffers");
	CALLEE(s[sl] == 0, "scaffold: a string of known length is copied");
	CALLEE(sl < n, "and copied whole");
	if (s == g.link) g.NL = sl;
	if (w < n) d[w] = w < sl ? s[w] : 0;
	if (sl < n) d[sl] = 0;
	return d;
}
#define strlen lsq_strlen
#define memcpy lsq_memcpy
#define strncpy lsq_strncpy
#define memset(p, c, n) ((void)(p))
#define LSQ_LOOP_follow_link_links_0 __CPROVER_assigns(lsq_do_0, *links, error, found, __CPROVER_object_whole(base_path), __CPROVER_object_whole(new_path), \
	node->base.mode, g.BL, g.NL, g.n, g.pos, g.bw, g.tw, g.link, g.followed, g.stage, g.rooted, g.is_link, g.failed, g.missing, g.clear_failed, g.got, g.rel) \
	__CPROVER_loop_invariant( \
	g.BL < PL && base_path[g.BL] == 0 && (w < g.BL ==> base_path[w] == g.bw) && (S_ISLNK(node->base.mode) <==> g.is_link) && (lsq_do_0 ? g.is_link && g.followed == 0 : g.followed > 0) \
	&& !g.rooted && !g.failed && !g.missing && !g.clear_failed && g.stage == 0 && g.followed >= 0 && g.followed <= 32 && (g.got <==> g.followed > 0) \
	&& *links == links0 + g.followed && *links <= SQUASHFS_MAX_LINK_LEVEL)
#define LSQ_LOOP_follow_link_links_1 __CPROVER_assigns(pos) __CPROVER_loop_invariant( \
	pos <= g.BL && ((v >= pos && v < g.BL) ==> base_path[v] == '/'))
#define LSQ_LOOP_follow_link_links_2 __CPROVER_assigns(pos) __CPROVER_loop_invariant( \
	pos <= __CPROVER_loop_entry(pos) && ((u >= pos && u < __CPROVER_loop_entry(pos)) ==> base_path[u] != '/') \
	&& (pos < __CPROVER_loop_entry(pos) ==> base_path[pos] != '/'))
#include "cur/dir.c"
static char want_w(void) {
	if (!g.rel) return w < g.n ? g.link[w] : 0;
	if (w < g.pos) return g.bw;
	return w - g.pos < g.n ? g.link[w - g.pos] : 0;
}
#define TOO_LONG (g.stage == 1 && g.rel && !g.failed)
ssize_t squash_readlink_inode(sqfs *fs, sqfs_inode *node, char *buf, size_t bufsize) {
	CALLEE(fs == the_fs && node == the_node && g.is_link && !g.rooted && g.stage == 0, "the link reached is read");
	CALLEE(__CPROVER_w_ok(buf, bufsize) && bufsize > 0, "into a buffer of its size");
	CALLEE(!g.failed && !g.missing && !g.clear_failed, "nothing goes on after a failure");
	g.link = buf; g.n = nondet_size(); g.stage = 1;
	ASSUME(g.n < bufsize && g.n < PL);
	if (nondet_bool() || g.n == 0) { g.failed = 1; return g.n == 0 ? 0 : -1; }
	ASSUME(w >= g.n || buf[w] != 0);
	ASSUME(w - g.pos >= g.n || buf[w - g.pos] != 0);
	ASSUME(buf[0] != 0);
	buf[g.n] = 0;
	g.rel = buf[0] != '/';
	return g.n;
}
sqfs_err stub_clear_dot_dot(char *p) {
	CALLEE(g.stage == 3 && g.rel, "scaffold: the path a relative link names is cleared");
	CALLEE(g.pos + g.n < PL && __CPROVER_w_ok(p, g.pos + g.n + 1) && p[g.pos + g.n] == 0, "it is a string in its buffer");
	CALLEE(IMPLIES(w < g.pos + g.n, p[w] == want_w()), "a relative link starts from where it lies");
	g.stage = 4;
	if (nondet_bool()) { g.clear_failed = 1; return SQFS_ERR; }
	g.NL = nondet_size();
	ASSUME(g.NL <= g.pos + g.n);
	g.tw = nondet_char();
	ASSUME(g.tw != 0);
	if (w < g.NL) p[w] = g.tw;
	p[g.NL] = 0;
	return SQFS_OK;
}
sqfs_inode_id sqfs_inode_root(sqfs *fs) { return g_root; }
sqfs_err sqfs_inode_get(sqfs *fs, sqfs_inode *inode, sqfs_inode_id id) {
	CALLEE(fs == the_fs && inode == the_node && id == g_root && g.stage >= 1, "the walk to a link's target starts at the root");
	if (nondet_bool()) { g.failed = 1; return SQFS_ERR; }
	g.rooted = 1;
	return SQFS_OK;
}
sqfs_err stub_lookup_path_links(sqfs *fs, sqfs_inode *inode, const char *path, short *found, short follow, int *links) {
	CALLEE(fs == the_fs && inode == the_node && g.rooted && !follow, "the target is looked up from the root");
	CALLEE(g.stage == (g.rel ? 4 : 1) && !g.clear_failed, "scaffold: once the path is known");
	size_t len = g.rel ? g.NL : g.n;
	CALLEE(path[len] == 0, "the path the link names is looked up");
	char c = g.rel ? g.tw : want_w();
	CALLEE(IMPLIES(w < len, path[w] == c), "byte for byte");
	g.followed++;
	CALLEE(*links == links0 + g.followed && *links <= SQUASHFS_MAX_LINK_LEVEL, "every link is counted, and no more than 32 are followed");
	g.rooted = 0; g.stage = 0;
	if (nondet_bool()) { g.failed = 1; return SQFS_ERR; }
	if (nondet_bool()) { g.missing = 1; *found = 0; return SQFS_OK; }
	*found = 1;
	g.is_link = nondet_bool();
	inode->base.mode = g.is_link ? S_IFLNK | 0777 : nondet_bool() ? S_IFREG | 0644 : S_IFDIR | 0755;
	g.got = 1;
	g.BL = len; g.bw = c;
	return SQFS_OK;
}
void harness(void) {
	sqfs fs; sqfs_inode node; int links = nondet_int();
	struct ghost g0 = {0};
	the_fs = &fs; the_node = &node; g_root = nondet_u64();
	PLN = nondet_size(); w = nondet_size(); u = nondet_size(); v = nondet_size();
	ASSUME(PLN <= 1 << 16 && w <= 1 << 16 && u <= 1 << 16 && v <= 1 << 16);
	PATH = __CPROVER_allocate(PLN + 1, 0);
	PATH[PLN] = 0;
	bool outer = nondet_bool();
	if (outer) links = 0;
	ASSUME(links >= 0 && links <= SQUASHFS_MAX_LINK_LEVEL);
	links0 = links;
	g = g0;
	g.is_link = 1; node.base.mode = S_IFLNK | 0777;
	g.BL = PLN;
	if (w < PLN) { ASSUME(PATH[w] != 0); g.bw = PATH[w]; }
	bool over = PLN >= PL;
	errno = 0;
	sqfs_err e = outer ? squash_follow_link(&fs, PATH, &node) : follow_link_links(&fs, PATH, &node, &links);
	if (e == SQFS_OK) {
		POST(g.got && !g.is_link && !g.failed && !g.missing && !g.clear_failed && g.stage == 0 && !over, "success: at the end of the chain is something that is no link");
		POST(g.followed >= 1 && (outer || links == links0 + g.followed), "every link followed is counted");
		COVER(g.followed == 3);
		COVER(g.followed == 1 && !g.rel);
		COVER(g.followed == 32);
	} else {
		POST(over || g.failed || g.missing || g.clear_failed || (TOO_LONG && errno == ENAMETOOLONG) || errno == ELOOP, "failure has a reason");
		POST(IMPLIES(over, errno == ENAMETOOLONG && g.followed == 0), "a path too long is refused");
		POST(IMPLIES(g.missing || g.clear_failed, errno == ENOENT), "a target that is not there is reported as such");
		POST(IMPLIES(!over && !g.failed && !g.missing && !g.clear_failed && !TOO_LONG, errno == ELOOP && links0 + g.followed == SQUASHFS_MAX_LINK_LEVEL), "a chain of more than 32 links is a loop");
		COVER(errno == ELOOP && g.followed == 3);
		COVER(g.missing);
		COVER(TOO_LONG);
		COVER(g.clear_failed);
	}
}
#endif
