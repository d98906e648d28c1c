/* Contract of squash_scandir.
 * @what the list holds a copy of every selected entry in order, the array given to the caller can hold them all, and a failure frees everything once
 * @source src/scandir.c
 * @fn squash_scandir
 * @unwind 7
 * @bounded directories of at most 5 entries, the list's first capacity scaled from 1024 to 2 so that it grows twice
 * @solver minisat
 * @object_bits 6
 * @trusted malloc, realloc, free, qsort as in C (qsort permutes the array it is given)
 *
 * g_j is a watched place in the list: what is shown of it holds of every place. Entry number e
 * of the directory is selected or not as the caller's function says. */
#include "lsq.h"
#include <dirent.h>
/* the copy of an entry is watched at its inode number, its type, and at one byte of its name up to the terminator */
#include "squash.h"
#undef MAX_DIR_ENT
#define MAX_DIR_ENT 2
#define MAXN 5
static struct dirent *LA[32], *LB[32], **g_list;
static char ENTB[sizeof(struct dirent)] __attribute__((aligned(8))), WB[sizeof(struct dirent)] __attribute__((aligned(8))), GB[sizeof(struct dirent)] __attribute__((aligned(8)));
#define ENT (*(struct dirent *)ENTB)
#define W (*(struct dirent *)WB)
#define G (*(struct dirent *)GB)
static struct dirent *last;
static size_t g_k, g_namelen; static bool W_has; static char W_k;
static size_t g_cap, g_cap0;    /* bytes in the list's block */
static uint64_t g_total, g_read, g_sel, g_ent; static size_t g_j, g_freed_w, g_freed, g_made;
static uint64_t W_ino; static uint8_t W_type;
static bool sel_now, g_eof, g_have_sel, g_nomem; static int closes, sorts, list_free;
static SQUASH_DIR D;
static int g_failed; static sqfs *the_fs; static const char *the_dir;
static struct dirent **result;
static void chosen(void) {
	sel_now = 1;
	if (g_sel == g_j) { W_ino = ENT.d_ino; W_type = ENT.d_type; W_k = ENT.d_name[g_k]; W_has = g_k <= g_namelen; }
	g_sel++;
}
SQUASH_DIR *squash_opendir(sqfs *fs, const char *name) {
	CALLEE(fs == the_fs && name == the_dir, "the directory asked for is opened");
	if (nondet_bool()) { errno = lsq_err(); return NULL; }
	closes = 0;
	return &D;
}
int squash_closedir(SQUASH_DIR *d) { CALLEE(d == &D && closes == 0, "the stream is closed once"); closes = 1; errno = nondet_int(); return nondet_bool() ? 0 : -1; }
struct dirent *squash_readdir(SQUASH_DIR *d) {
	CALLEE(d == &D && closes == 0 && !g_eof, "the open stream is read, up to its end");
	if (g_read >= g_total) { g_eof = 1; return NULL; }
	if (nondet_bool()) { g_eof = 1; errno = g_failed = lsq_err(); return NULL; }
	g_read++;
	ENT.d_ino = nondet_u64(); ENT.d_type = nondet_u8();
	g_namelen = nondet_size(); ASSUME(g_namelen < sizeof(ENT.d_name));
	ENT.d_name[g_k] = nondet_char(); ASSUME((g_k != g_namelen || ENT.d_name[g_k] == 0) && (g_k >= g_namelen || ENT.d_name[g_k] != 0));
	sel_now = 0;
	if (!g_have_sel) chosen();
	return &ENT;
}
static int the_select(const struct dirent *e) {
	CALLEE(e == &ENT && !sel_now, "an entry is offered to the selection once");
	if (nondet_bool()) { errno = nondet_int(); return 0; }
	chosen();
	errno = nondet_int();
	int r = nondet_int();
	ASSUME(r != 0);
	return r;
}
static bool have_list;
static void *lsq_malloc(size_t n) {
	if (!have_list) {
		CALLEE(n % sizeof(struct dirent *) == 0, "scaffold: the list comes first");
		if (nondet_bool()) { g_nomem = 1; return NULL; }
		have_list = 1;
		g_list = LA; g_cap = n; list_free = 0;
		return LA;
	}
	CALLEE(n >= sizeof(struct dirent), "a copy has room for an entry");
	if (nondet_bool()) { g_nomem = 1; return NULL; }
	CALLEE(sel_now && g_made + 1 == g_sel, "one copy for each selected entry");
	last = g_sel - 1 == g_j ? &W : &G;
	g_made++;
	return last;
}
static void *lsq_realloc(void *p, size_t n) {
	CALLEE(p == g_list && have_list && n % sizeof(struct dirent *) == 0, "the list's block changes size");
	if (nondet_bool()) { g_nomem = 1; return NULL; }
	struct dirent **q = nondet_bool() ? LA : LB;
	if (g_j < n / sizeof(*q) && q != g_list) q[g_j] = g_list[g_j];
	g_list = q; g_cap = n;
	return q;
}
/* the other cells of the list hold whatever they hold: every free before the list's is counted, and
   the watched copy must be among them; for every watched place, that makes each freed exactly once */
static void lsq_free(void *p) {
	CALLEE(have_list || !p, "only what was allocated is freed");
	if (!have_list) return;
	if (g_freed < g_made) { g_freed++; if (p == &W) g_freed_w = 1; return; }
	CALLEE(p == g_list && list_free == 0, "the list is freed once, after the entries, and nothing else");
	list_free = 1;
}
#define COPIES(f) (o <= offsetof(struct dirent, f) && offsetof(struct dirent, f) + sizeof(ENT.f) <= o + n)
static void *lsq_memcpy(void *d, const void *s, size_t n) {
	size_t o = __CPROVER_POINTER_OFFSET(s), at = offsetof(struct dirent, d_name) + g_k;
	CALLEE(last && __CPROVER_same_object(d, last) && __CPROVER_same_object(s, ENTB) && o == __CPROVER_POINTER_OFFSET(d), "scaffold: the entry is copied into its own copy");
	CALLEE(__CPROVER_r_ok(s, n) && __CPROVER_w_ok(d, n), "the entry and its copy have what is copied");
	if (__CPROVER_same_object(d, WB)) {
		if (COPIES(d_ino)) W.d_ino = ENT.d_ino;
		if (COPIES(d_type)) W.d_type = ENT.d_type;
		if (at >= o && at - o < n) W.d_name[g_k] = ENT.d_name[g_k];
	}
	return d;
}
static size_t lsq_strlen(const char *s) { CALLEE(s == ENT.d_name, "scaffold: the name of the entry just read is measured"); return g_namelen; }
static int the_compar(const struct dirent **a, const struct dirent **b) { return nondet_int(); }
static size_t sort_n; static void *sort_base;
static void lsq_qsort(void *base, size_t n, size_t w, int (*c)(const void *, const void *)) {
	CALLEE(w == sizeof(struct dirent *) && (void *)c == (void *)the_compar, "the entries are sorted by the caller's order");
	sorts++; sort_n = n; sort_base = base;
}
#undef malloc
#undef realloc
#undef free
#undef memcpy
#define malloc lsq_malloc
#define realloc lsq_realloc
#define free lsq_free
#define memcpy lsq_memcpy
#define qsort lsq_qsort
#define strlen lsq_strlen
#define WATCHED (W.d_ino == W_ino && W.d_type == W_type && IMPLIES(W_has, W.d_name[g_k] == W_k))
#include "cur/scandir.c"
void harness(void) {
	sqfs fs; char name[2];
	struct dirent **nl = (struct dirent **)nondet_ptr(), ***where = nondet_bool() ? &nl : NULL;
	the_fs = &fs; the_dir = nondet_bool() ? name : NULL;
	g_total = nondet_u64(); ASSUME(g_total <= MAXN);
	g_j = nondet_size(); ASSUME(g_j < MAXN);
	g_k = nondet_size(); ASSUME(g_k < sizeof(ENT.d_name));
	g_have_sel = nondet_bool();
	bool sorted = nondet_bool();
	W.d_ino = nondet_u64(); W.d_type = nondet_u8(); W.d_name[g_k] = nondet_char();
	have_list = g_eof = g_nomem = sel_now = 0; closes = -1; sorts = list_free = 0;
	g_read = g_sel = g_made = g_freed_w = g_freed = g_cap = 0; g_list = last = NULL;
	errno = nondet_int(); g_failed = 0;
	int r = squash_scandir(&fs, the_dir, where, g_have_sel ? the_select : NULL, sorted ? the_compar : NULL);
	POST(closes != 0, "an opened stream is closed");
	if (r >= 0) {
		POST(where && the_dir && g_eof && !g_failed, "a result means the whole directory was read");
		POST((uint64_t)r == g_sel, "the number of selected entries is returned");
		POST(nl == g_list && list_free == 0 && g_cap / sizeof(*nl) >= (size_t)r, "the caller gets a valid array with room for all of them");
		POST(g_freed == 0, "and none of them is freed");
		POST(IMPLIES(g_j < (size_t)r, nl[g_j] == &W && WATCHED), "every place holds a copy of its selected entry");
		POST(sorts == (sorted && (r > 1 || sorts)), "the array is sorted if the caller gives an order");
		POST(IMPLIES(sorts, sorted && sort_base == nl && sort_n == (size_t)r), "the sorted array is the whole result");
		COVER(r == 0 && sorted);
		COVER(r > 2 && g_j == 1 && g_have_sel);
		COVER(g_list == LB && r > 1);
		COVER(g_nomem);
		COVER(W_has && g_k == 255 && r > 0);
	} else {
		POST(r == -1, "failure is -1");
		POST(IMPLIES(have_list, list_free == 1 && g_freed == g_made && IMPLIES(g_j < g_made, g_freed_w)), "a failure frees the list and every copy");
		POST(IMPLIES(have_list && !g_failed, errno == ENOMEM), "without memory errno says so");
		POST(IMPLIES(g_failed && !g_nomem, errno == g_failed), "what made the listing fail is the reason");
		COVER(g_failed && g_made == 2);
		COVER(g_made > 2);
		COVER(!where);
		COVER(!have_list && closes == 1);
	}
}
