/* Contract of component_before.
 * @what the component a dot-dot cancels is the last one before it, dots and repeated slashes passed over; none at the root or after another dot-dot
 * @source src/dir.c
 * @fn component_before
 * @loop component_before 0
 * @loop component_before 1
 * @ghost component_before 0
 * @ghost component_before 1
 * @replace follow_link_links
 * @nobody sqfs_inode_get sqfs_inode_root squash_readlink_inode sqfs_mode sqfs_md_read sqfs_dentry_init strdup strlen strstr strcmp memmove memcpy memset free strncpy
 *
 * The path is any string, w a watched index of it; g_t is where the component looked at ends. */
#include "lsq.h"
#include "squash/dir.h"
#include "squash/fs.h"
static char *D; static size_t L, E, w, g_t;
#define OFF(p) __CPROVER_POINTER_OFFSET(p)
#define IDLE(i) (D[i] == '/' || (D[i] == '.' && ((i) == 0 || D[(i) - 1] == '/') && D[(i) + 1] == '/'))
static char *at(char *p) {
	__CPROVER_assert(__CPROVER_same_object(p, D) && OFF(p) <= E, "scaffold: a pointer into the path");
	size_t o = OFF(p);
	return D + o;
}
#define LSQ_GHOST_component_before_0 end = at(end), g_t = OFF(end),
#define LSQ_GHOST_component_before_1 start = at(start),
#define LSQ_LOOP_component_before_0 __CPROVER_assigns(start, end, g_t) __CPROVER_loop_invariant( \
	__CPROVER_same_object(end, D) && OFF(end) <= E && (OFF(end) == E || OFF(end) == 0 || D[OFF(end)] == '/') \
	&& ((w >= OFF(end) && w < E) ==> IDLE(w)))
#define LSQ_LOOP_component_before_1 __CPROVER_assigns(start) __CPROVER_loop_invariant( \
	__CPROVER_same_object(start, D) && OFF(start) <= OFF(end) && ((w >= OFF(start) && w < OFF(end)) ==> D[w] != '/') \
	&& (OFF(start) < OFF(end) ==> D[OFF(start)] != '/'))
#include "cur/dir.c"
sqfs_err stub_follow_link_links(sqfs *fs, const char *path, sqfs_inode *node, int *links) { return SQFS_ERR; }
void harness(void) {
	L = nondet_size(); E = nondet_size(); w = nondet_size();
	ASSUME(L <= 1 << 20 && E < L);
	D = __CPROVER_allocate(L + 1, 0);
	D[L] = 0;
	ASSUME(D[E] == '/');              /* of the dot-dot */
	char *r = component_before(D, D + E);
	POST(IMPLIES(w >= g_t && w < E, IDLE(w)), "nothing is passed over but slashes and dots");
	if (r == NULL) {
		POST(g_t == 0 || (g_t >= 2 && D[g_t - 1] == '.' && D[g_t - 2] == '.' && (g_t == 2 || D[g_t - 3] == '/')), "none: at the root, or after a dot-dot");
		COVER(g_t == 0 && E > 3);
		COVER(g_t > 2);
		return;
	}
	POST(__CPROVER_same_object(r, D) && OFF(r) < E, "a place in the path, before the dot-dot");
	size_t s = D[OFF(r)] == '/' ? OFF(r) + 1 : OFF(r);
	POST(IMPLIES(D[OFF(r)] != '/', OFF(r) == 0), "where the slash before the component is, or the start");
	POST(s < g_t && g_t <= E && (g_t == E || D[g_t] == '/'), "a component");
	POST(IMPLIES(w >= s && w < g_t, D[w] != '/'), "one, whole");
	POST(!(g_t - s == 1 && D[s] == '.') && !(g_t - s == 2 && D[s] == '.' && D[s + 1] == '.'), "neither dot nor dot-dot");
	COVER(OFF(r) == 0 && s == 0 && g_t == 3);
	COVER(s > 2 && g_t + 3 < E);
}
