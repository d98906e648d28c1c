/* Contracts of sqfs_traverse_next, sqfs_traverse_prune, sqfs_traverse_open, sqfs_traverse_open_inode, sqfs_traverse_close and the path helpers.
 * @what each step delivers the next entry, or the end of a directory, with its full path; directories are entered unless pruned, and left again with the path they had
 * @source src/traverse.c
 * @fn sqfs_traverse_next sqfs_traverse_prune sqfs_traverse_open sqfs_traverse_open_inode sqfs_traverse_close sqfs_traverse_init sqfs_traverse_path_init sqfs_traverse_path_add sqfs_traverse_path_remove sqfs_traverse_path_add_name sqfs_traverse_path_add_sep sqfs_traverse_path_remove_name sqfs_traverse_path_remove_sep sqfs_traverse_path_set_name_size sqfs_traverse_path_terminate sqfs_traverse_descend_inode sqfs_traverse_descend sqfs_traverse_ascend
 * @variants OP=1 | OP=0 FROM=0 | OP=0 FROM=1 | OP=0 FROM=2 | OP=0 FROM=3 | OP=0 FROM=4
 * @unwind 7
 * @solver minisat
 * @trusted malloc, realloc, free as in C
 *
 * The tree is any tree: the directory at depth d lies at prefix length P(d), its own name has NS(d)
 * bytes. g_c is a watched place in the path. Between two calls the traversal is in the state that
 * INV describes; each call starts in any such state and ends in one. */
#include "lsq.h"
#include "squash/traverse.h"
#include "squash/fs.h"
#define MAXP (1 << 20)
uint64_t __CPROVER_uninterpreted_NS(uint64_t);
uint64_t __CPROVER_uninterpreted_P(uint64_t);
#define NS(d) __CPROVER_uninterpreted_NS(d)
#define P(d) __CPROVER_uninterpreted_P(d)
#define TREE(d) ASSUME(NS(d) >= 1 && NS(d) <= 256 && P(d) <= MAXP && ((d) <= 1 ? P(d) == 0 : P(d) == P((d) - 1) + NS(d) + 1))
static char *PATH; static size_t g_cap; static bool path_live;
static size_t g_c; static char name_at[1];
static sqfs_traverse T; static sqfs the_fs;
static uint64_t depth; static int created;
static int n_next, n_push, n_pop, n_open, n_get; static bool last_found, failed; static uint64_t g_iid; static bool g_isdir;
static char g_namech; static size_t g_namesz;
static sqfs_dir g_dirobj;
static void *lsq_malloc(size_t n) {
	CALLEE(!path_live, "one path");
	if (nondet_bool()) { failed = 1; return NULL; }
	g_cap = n; path_live = 1;
	return PATH;
}
static void *lsq_realloc(void *p, size_t n) {
	CALLEE(p == PATH && path_live && n >= g_cap, "the path grows");
	if (nondet_bool()) { failed = 1; return NULL; }
	g_cap = n;
	return PATH;
}
static void lsq_free(void *p) { if (!p) return; CALLEE(p == PATH && path_live, "the path is freed once"); path_live = 0; }
static void *lsq_memcpy(void *d, const void *s, size_t n) {
	size_t off = __CPROVER_POINTER_OFFSET(d);
	CALLEE(__CPROVER_POINTER_OBJECT(d) == __CPROVER_POINTER_OBJECT(PATH) && off + n <= g_cap, "the path has room");
	CALLEE(n <= 257 && (n == 0 || __CPROVER_r_ok(s, n)), "what is added is a name");
	if (n == 1 && g_c == off) PATH[g_c] = *(const char *)s;
	else if (g_c >= off && g_c - off < n) PATH[g_c] = ((const char *)s)[g_c - off];
	return d;
}
#define malloc lsq_malloc
#define realloc lsq_realloc
#define free lsq_free
#define memcpy lsq_memcpy
#include "cur/traverse.c"
static sqfs_traverse_level L;
void sqfs_dentry_init(sqfs_dir_entry *e, char *b) { CALLEE(e == &T.entry && b == T.namebuf, "names have a buffer"); T.entry.name = T.namebuf; }
size_t sqfs_dentry_name_size(sqfs_dir_entry *e) { return e->name_size; }
const char *sqfs_dentry_name(sqfs_dir_entry *e) { return e->name; }
sqfs_inode_id sqfs_dentry_inode(sqfs_dir_entry *e) { return e->inode; }
short sqfs_dentry_is_dir(sqfs_dir_entry *e) { CALLEE(e == &T.entry, "the entry found"); return g_isdir ? 1 : 0; }
short sqfs_dir_next(sqfs *fs, sqfs_dir *dir, sqfs_dir_entry *entry, sqfs_err *err) {
	CALLEE(fs == &the_fs && depth >= 1 && dir == &L.dir && entry == &T.entry, "the innermost open directory is listed");
	CALLEE(n_next == 0 && !failed, "one entry for each step");
	n_next++;
	*err = SQFS_OK;
	if (nondet_bool()) { failed = 1; *err = SQFS_ERR; return 0; }
	last_found = nondet_bool();
	if (!last_found) return 0;
	T.entry.name_size = g_namesz = nondet_size();
	ASSUME(g_namesz >= 1 && g_namesz <= 256);
	T.entry.inode = g_iid = nondet_u64();
	g_isdir = nondet_bool();
	if (g_c >= P(depth) && g_c - P(depth) < 256) T.namebuf[g_c - P(depth)] = g_namech = nondet_char();
	return 1;
}
void sqfs_stack_init(sqfs_stack *s) { CALLEE(s == &T.stack, "its stack"); created = 0; }
sqfs_err sqfs_stack_create(sqfs_stack *s, size_t vsize, size_t initial, sqfs_stack_free_t freer) {
	CALLEE(s == &T.stack && !created && vsize >= sizeof(sqfs_traverse_level), "a stack of levels");
	if (nondet_bool()) { failed = 1; return SQFS_ERR; }
	created = 1; depth = 0;
	return SQFS_OK;
}
static int destroyed;
void sqfs_stack_destroy(sqfs_stack *s) { CALLEE(s == &T.stack, "its stack"); created = 0; depth = 0; destroyed++; }
size_t sqfs_stack_size(sqfs_stack *s) { return depth; }
sqfs_err sqfs_stack_push(sqfs_stack *s, void *vout) {
	CALLEE(s == &T.stack && created && n_push == 0, "one level is entered");
	if (nondet_bool()) { failed = 1; return SQFS_ERR; }
	n_push++; depth++;
	L.name_size = nondet_size();
	*(sqfs_traverse_level **)vout = &L;
	return SQFS_OK;
}
short sqfs_stack_pop(sqfs_stack *s) {
	CALLEE(s == &T.stack && depth >= 1 && n_pop == 0, "one level is left");
	n_pop++; depth--;
	return 1;
}
sqfs_err sqfs_stack_top(sqfs_stack *s, void *vout) {
	CALLEE(s == &T.stack, "its stack");
	if (depth == 0) return SQFS_ERR;
	*(sqfs_traverse_level **)vout = &L;
	return SQFS_OK;
}
static sqfs_inode *got, *given;
sqfs_err sqfs_inode_get(sqfs *fs, sqfs_inode *inode, sqfs_inode_id id) {
	CALLEE(fs == &the_fs && id == g_iid && n_get == 0, "the inode of the directory just delivered");
	n_get++;
	if (nondet_bool()) { failed = 1; return SQFS_ERR; }
	got = inode;
	return SQFS_OK;
}
sqfs_err sqfs_dir_open(sqfs *fs, sqfs_inode *inode, sqfs_dir *dir, off_t offset) {
	CALLEE(fs == &the_fs && inode == (given ? given : got) && dir == &L.dir && offset == 0 && n_push == 1, "it is opened at its start, in the new level");
	if (nondet_bool()) { failed = 1; return SQFS_ERR; }
	n_open++;
	return SQFS_OK;
}
#define ROOM (T.path == PATH && path_live && T.path_cap == g_cap && g_cap >= 32 && T.path_size >= 1 && T.path_size <= g_cap && PATH[T.path_size - 1] == 0)
/* between two calls: the last thing delivered is an entry of the directory at `depth` (its name ends
   the path), or the end of a directory one deeper; `depth` is 0 only after the end */
#define INV (T.fs == &the_fs && created && ROOM && (T.state == TRAVERSE_FINISHED ? depth == 0 : \
	depth >= 1 && (T.state == TRAVERSE_NAME_REMOVE ? T.path_size - 1 == P(depth) + T.path_last_size && T.path_last_size <= 256 : \
	T.state == TRAVERSE_DESCEND && T.path_size - 1 == P(depth) + T.entry.name_size && T.path_last_size == T.entry.name_size && T.entry.name_size >= 1 && T.entry.name_size <= 256 && T.entry.inode == g_iid)))
void harness(void) {
	sqfs_traverse any; T = any;
	size_t room = nondet_size(); ASSUME(room >= 5 * MAXP && room <= 6 * MAXP);
	PATH = __CPROVER_allocate(room, 0);
	T.entry.name = T.namebuf;
	g_c = nondet_size(); ASSUME(g_c < 2 * MAXP);
	depth = nondet_u64(); g_iid = nondet_u64(); g_cap = nondet_size();
	ASSUME(depth <= MAXP);
	n_next = n_push = n_pop = n_open = n_get = destroyed = 0; failed = last_found = 0; got = given = NULL;
	sqfs_err err = SQFS_ERR;
#if OP == 0
	created = 1; path_live = 1; T.fs = &the_fs; T.path = PATH;
	TREE(depth); TREE(depth + 1); if (depth > 0) TREE(depth - 1);
	/* the step starts after a directory (0), after one that is pruned (1), after another entry or a directory's end (2), at the end (3), after an error (4) */
	bool pruned = FROM == 1, bad = FROM == 4;
	T.state = FROM <= 1 ? TRAVERSE_DESCEND : FROM == 3 ? TRAVERSE_FINISHED : TRAVERSE_NAME_REMOVE;
	ASSUME(g_cap <= 2 * MAXP);
	ASSUME(INV);
	if (depth >= 1) L.name_size = depth == 1 ? 0 : NS(depth);
	char before = PATH[g_c];
	size_t size0 = T.path_size;
	int s0 = T.state;
	uint64_t d0 = depth;
	if (bad) T.state = TRAVERSE_ERROR;
	else if (pruned) { POST(sqfs_traverse_prune(&T) == SQFS_OK, "pruning is granted"); }
	/* entering names the directory at depth + 1 */
	bool enter = !bad && !pruned && s0 == TRAVERSE_DESCEND;
	if (enter) ASSUME(NS(depth + 1) == T.entry.name_size);
	short r = sqfs_traverse_next(&T, &err);
	if (bad) {
		POST(r == 0 && err != SQFS_OK && n_next + n_push + n_pop == 0, "after an error nothing more is delivered");
#if FROM == 4
		COVER(1);
#endif
		return;
	}
	if (r) {
		POST(r == 1 && err == SQFS_OK && !failed && INV, "a step ends where the next can start");
		POST(n_push == enter && n_open == enter, "a directory is entered exactly when it was not pruned");
		POST(n_next == 1, "one entry is read");
		uint64_t in = d0 + enter;               /* the directory that was listed */
		if (last_found) {
			POST(!T.dir_end && depth == in && n_pop == 0, "an entry is delivered as one");
			POST(T.path_size - 1 == P(in) + g_namesz, "its path is its directory's and its name");
			POST(IMPLIES(g_c >= P(in) && g_c < P(in) + g_namesz, PATH[g_c] == g_namech), "the name ends the path");
			POST(T.state == (g_isdir ? TRAVERSE_DESCEND : TRAVERSE_NAME_REMOVE), "directories come next");
#if FROM < 3
			COVER(g_isdir);
#endif
#if FROM < 3
			COVER(T.path_size > 300);
#endif
		} else {
			POST(T.dir_end && n_pop == 1 && depth == in - 1 && depth >= 1, "the end of a directory is delivered as that");
			POST(T.path_size - 1 == P(in) - 1 && T.path_last_size == NS(in), "with the path the directory had");
#if FROM < 3
			COVER(depth > 1);
#endif
		}
		POST(IMPLIES(g_c < P(d0), PATH[g_c] == before || (!last_found && g_c == P(in) - 1 && PATH[g_c] == 0)), "the directories above keep their part of the path");
		if (enter) {
			POST(IMPLIES(last_found && g_c == P(d0) + NS(in), PATH[g_c] == '/'), "a directory's name is followed by a slash");
			POST(IMPLIES(g_c >= P(d0) && g_c < P(d0) + NS(in), PATH[g_c] == before), "and kept");
			POST(L.name_size == NS(in), "its name is remembered for the way back");
		}
	} else {
		if (err == SQFS_OK) {
			POST(!failed && depth == 0 && T.state == TRAVERSE_FINISHED && INV, "the end comes after the first directory's end");
			POST(s0 == TRAVERSE_FINISHED ? n_next == 0 : (d0 == 1 && !enter && n_next == 1 && !last_found && n_pop == 1), "and not before");
#if FROM > 0 && FROM < 4
			COVER(1);
#endif
		} else {
			POST(failed, "an error comes from the image or from memory");
			POST(T.state == TRAVERSE_ERROR, "and lasts");
#if FROM < 3
			COVER(n_push == (FROM == 0));
			COVER(last_found);
#endif
		}
		POST(path_live, "the path stays the caller's until closed");
	}
	sqfs_traverse_close(&T);
	POST(!path_live && destroyed == 1 && T.path == NULL, "closing releases path and levels");
	sqfs_traverse_close(&T);
#else
	sqfs_inode node;
	TREE(1); TREE(2);
	path_live = 0; created = 0; depth = 0;
	sqfs_err e;
	bool by_id = nondet_bool();
	if (by_id) { e = sqfs_traverse_open(&T, &the_fs, g_iid); }
	else { given = &node; e = sqfs_traverse_open_inode(&T, &the_fs, &node); }
	if (e == SQFS_OK) {
		POST(!failed && T.fs == &the_fs && depth == 1 && n_push == 1 && n_open == 1 && n_get == by_id, "the directory given is open");
		POST(INV && T.state == TRAVERSE_NAME_REMOVE && T.path_size == 1 && T.path_last_size == 0 && L.name_size == 0, "and the traversal starts before its first entry, with an empty path");
		COVER(by_id);
		COVER(!by_id);
		sqfs_traverse_close(&T);
		POST(!path_live && T.path == NULL, "closing releases the path");
	} else {
		POST(failed, "an error comes from the image or from memory");
		POST(!path_live && !created, "a failed start leaves nothing behind");
		COVER(n_push == 1);
		COVER(n_get == 1 && by_id && n_push == 0);
	}
#endif
}
