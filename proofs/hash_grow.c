/* Contracts of growing and destroying a hash: buckets and chains of any number and length.
 * @what growing moves every entry once, in front of the chain of its key among twice the buckets, or changes nothing; destroying releases every entry and the buckets once
 * @source src/hash.c
 * @fn sqfs_hash_double sqfs_hash_destroy sqfs_hash_init
 * @loop sqfs_hash_double 0
 * @loop sqfs_hash_double 1
 * @loop sqfs_hash_destroy 0
 * @loop sqfs_hash_destroy 1
 * @ghost sqfs_hash_double 0
 * @ghost sqfs_hash_double 1
 * @ghost sqfs_hash_destroy 0
 * @ghost sqfs_hash_destroy 1
 * @nobody malloc memcpy
 * @solver minisat
 * @variants OP=0 | OP=1
 *
 * Chain c has LEN(c) entries, its entry j has key KEY(c, j). What an iteration can see of them
 * is made when it starts: the head of chain i, entry g_j of it in W[g_j % 4], its pointer to the
 * next. (g_wc, g_wj) is a watched entry, g_x a watched bucket of the new ones. */
#include "lsq.h"
#include "squash/hash.h"
uint32_t __CPROVER_uninterpreted_KEY(uint64_t, uint64_t);
uint64_t __CPROVER_uninterpreted_LEN(uint64_t);
#define KEY(c, j) __CPROVER_uninterpreted_KEY(c, j)
#define LEN(c) __CPROVER_uninterpreted_LEN(c)
typedef sqfs_hash_bucket node;
static node W0, W1, W2, W3;
#define WP(i) (((i) & 3) == 0 ? &W0 : ((i) & 3) == 1 ? &W1 : ((i) & 3) == 2 ? &W2 : &W3)
#define NODE(c, j) ((j) < LEN(c) ? WP(j) : (node *)NULL)
static sqfs_hash h, h0;
static node **B, **NB; static size_t cap;
static uint64_t g_j, g_n, g_x, g_wc, g_wj; static unsigned g_seen; static node *g_prev, *g_xh; static uint64_t g_cx;
static bool oom, g_bfree; static uint64_t g_nfreed;
#define BKT(c, j) (KEY(c, j) & (2 * cap - 1))
/* chain i starts */
static size_t chain(size_t i) {
	__CPROVER_assert(i <= cap, "scaffold: a bucket");
	if (i < cap) { B[i] = NODE(i, 0); g_j = 0; }
	return i;
}
static node *entry(size_t c, node *b) {
	node x;
	uint64_t j = g_j;
	__CPROVER_assert(c < cap && b == NODE(c, j), "scaffold: the entry looked at next");
	if (j >= LEN(c)) return NULL;
	*WP(j + 1) = x;
	WP(j)->key = KEY(c, j);
	WP(j)->next = NODE(c, j + 1);
	g_j++; g_n++;
	if (c == g_wc && j == g_wj) g_seen++;
#if OP == 0
	g_prev = NB[BKT(c, j)];
	g_xh = NB[g_x];
	if (BKT(c, j) == g_x) g_cx = 1;
#endif
	return WP(j);
}
static void *lsq_calloc(size_t n, size_t s) {
	CALLEE(n * s == 2 * cap * sizeof(void *) && NB == NULL, "buckets double");
	if (nondet_bool()) { oom = 1; return NULL; }
	size_t m = 2 * cap;        /* cbmc takes 2 * cap * 8 for pairs */
	NB = malloc(m * sizeof *NB);
	__CPROVER_array_set(NB, (node *)NULL);
	return NB;
}
static size_t g_ci;
static void lsq_free(void *p) {
	if (p == B) { CALLEE(!g_bfree, "the old buckets are released once"); g_bfree = 1; return; }
#if OP == 0
	CALLEE(0, "only the old buckets are released");
#else
	CALLEE(g_j > 0 && p == WP(g_j - 1) && g_nfreed == g_n - 1 && !g_bfree, "each entry is released when it is reached, once");
	g_nfreed++;
#endif
}
/* the watched entry has been reached iff its turn has come */
#define SEEN(c, j) (g_seen == ((g_wc < (c) && g_wj < LEN(g_wc) || g_wc == (c) && g_wj < (j) && g_wj < LEN(g_wc)) ? 1 : 0))
#define LAST (WP(g_j - 1))
#define PLACED(c) (LAST->key == KEY(c, g_j - 1) && LAST->next == g_prev && NB[BKT(c, g_j - 1)] == LAST \
	&& (BKT(c, g_j - 1) != g_x ==> NB[g_x] == g_xh))
#define LSQ_GHOST_sqfs_hash_double_0 i = chain(i),
#define LSQ_GHOST_sqfs_hash_double_1 b = entry(i, b),
#define LSQ_GHOST_sqfs_hash_destroy_0 i = chain(i),
#define LSQ_GHOST_sqfs_hash_destroy_1 b = entry(i, b),
#define SHAPE (h->capacity == 2 * cap && h->buckets == NB && h->value_size == h0.value_size && h->size == g_n && !g_bfree)
#define MOVED W0, W1, W2, W3, g_j, g_n, g_seen, g_prev, g_xh, g_cx, h->size, __CPROVER_object_whole(NB)
#define LSQ_LOOP_sqfs_hash_double_0 __CPROVER_assigns(i, MOVED, __CPROVER_object_whole(B)) __CPROVER_loop_invariant( \
	i <= oc && oc == cap && ob == B && SHAPE && SEEN(i, 0) && (g_cx == 0 ==> NB[g_x] == NULL))
#define LSQ_LOOP_sqfs_hash_double_1 __CPROVER_assigns(b, MOVED) __CPROVER_loop_invariant( \
	g_j <= LEN(i) && b == NODE(i, g_j) && SHAPE && SEEN(i, g_j) && (g_j > 0 ==> PLACED(i)) && (g_cx == 0 ==> NB[g_x] == NULL))
#define LSQ_LOOP_sqfs_hash_destroy_0 __CPROVER_assigns(i, W0, W1, W2, W3, g_j, g_n, g_seen, g_nfreed, g_bfree, __CPROVER_object_whole(B)) __CPROVER_loop_invariant( \
	i <= cap && SEEN(i, 0) && g_nfreed == g_n && !g_bfree)
#define LSQ_LOOP_sqfs_hash_destroy_1 __CPROVER_assigns(b, W0, W1, W2, W3, g_j, g_n, g_seen, g_nfreed, g_bfree) __CPROVER_loop_invariant( \
	g_j <= LEN(i) && b == NODE(i, g_j) && SEEN(i, g_j) && g_nfreed == g_n && !g_bfree)
#define calloc lsq_calloc
#define free lsq_free
#include "cur/hash.c"
#undef free
void harness(void) {
	size_t lg = nondet_size();
	ASSUME(lg <= 32);
	cap = (size_t)1 << lg;
	B = malloc(cap * sizeof *B); NB = NULL;
	g_j = 0; g_n = 0; g_seen = 0; g_cx = 0; g_nfreed = 0; oom = g_bfree = 0; g_prev = g_xh = NULL;
	g_x = nondet_u64(); g_wc = nondet_u64(); g_wj = nondet_u64();
	ASSUME(g_x < 2 * cap && g_wc < cap);
	h.buckets = B; h.capacity = cap; h.value_size = nondet_size(); h.size = nondet_size();
	h0 = h;
#if OP == 0
	sqfs_err e = sqfs_hash_double(&h);
	POST((e != SQFS_OK) == oom, "growing fails only when memory runs out");
	if (e) {
		POST(h.buckets == B && h.capacity == cap && h.size == h0.size && h.value_size == h0.value_size && !g_bfree && !g_n, "a failed growth changes nothing");
		COVER(1);
		return;
	}
	POST(h.capacity == 2 * cap && h.buckets == NB && h.value_size == h0.value_size, "twice the buckets");
	POST(h.size == g_n, "as many entries as there were");
	POST(g_bfree, "the old buckets are released");
	POST(IMPLIES(g_cx == 0, NB[g_x] == NULL), "a bucket no entry belongs to is empty");
	COVER(g_n == 9 && cap == 4);
	COVER(g_cx == 0 && g_n == 2);
#else
	sqfs_hash_destroy(&h);
	POST(g_bfree, "the buckets are released");
	POST(g_nfreed == g_n, "every entry reached is released");
	COVER(g_n == 9 && cap == 4);
#endif
	POST(g_seen == (g_wj < LEN(g_wc)), "every entry is reached once");
	COVER(g_seen && g_wj == 5);
}
