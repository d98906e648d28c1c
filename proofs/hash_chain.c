/* Contracts of the hash operations on chains of any length, in any number of buckets.
 * @what a key is found iff its chain holds it, removal unlinks and releases that entry only, an addition puts one entry in front of the chain of its key, growth or no growth
 * @source src/hash.c
 * @fn sqfs_hash_init sqfs_hash_add sqfs_hash_add_internal sqfs_hash_get sqfs_hash_remove
 * @loop sqfs_hash_get 0
 * @loop sqfs_hash_remove 0
 * @ghost sqfs_hash_get 0
 * @ghost sqfs_hash_remove 0
 * @replace sqfs_hash_double
 * @solver minisat
 * @variants OP=0 | OP=1 | OP=2 | OP=3 | OP=4
 *
 * The chain looked at has LEN entries, entry i with key KEY(i), all different. What an iteration
 * can see of it is made when it starts: entry g_i, in W[g_i % 4], the entry before it, and its
 * pointer to the next. Everything else in the buckets and in W is arbitrary. */
#include "lsq.h"
#include "squash/hash.h"
uint32_t __CPROVER_uninterpreted_KEY(uint64_t);
#define KEY(i) __CPROVER_uninterpreted_KEY(i)
static sqfs_hash_bucket W0, W1, W2, W3;
static uint64_t LEN, g_i, g_w;
static sqfs_hash h, h0;
static sqfs_hash_bucket **B, *oldhead; static size_t cap;
static sqfs_hash_key K;
static bool g_freed, oom; static unsigned g_new; static char *N; static size_t g_c;
#define WP(i) (((i) & 3) == 0 ? &W0 : ((i) & 3) == 1 ? &W1 : ((i) & 3) == 2 ? &W2 : &W3)
#define NODE(i) ((i) < LEN ? WP(i) : (sqfs_hash_bucket *)NULL)
#define HEAD (B[K & (cap - 1)])
/* entry i as it is in the chain */
#define INTACT(i) (WP((i))->key == KEY(i) && WP((i))->next == NODE((i) + 1))
static void put(uint64_t i) { WP(i)->key = KEY(i); WP(i)->next = NODE(i + 1); }
static sqfs_hash_bucket *node(sqfs_hash_bucket *b) {
	sqfs_hash_bucket x;
	if (g_i >= LEN) { __CPROVER_assert(b == NULL, "scaffold: the end"); return NULL; }
	__CPROVER_assert(b == WP(g_i), "scaffold: the entry looked at next");
	*WP((g_i + 1)) = x;
	put(g_i++);
	return WP((g_i - 1));
}
static sqfs_hash_bucket **link_(sqfs_hash_bucket **p) {
	sqfs_hash_bucket x;
	uint64_t i = g_i;
	__CPROVER_assert(p == (i ? &WP((i - 1))->next : &HEAD), "scaffold: the link looked at next");
	if (i) put(i - 1);
	*WP((i + 1)) = x;
	if (i < LEN) { put(i); g_i++; }
	return i ? &WP((i - 1))->next : &HEAD;
}
static void lsq_free(void *p) {
	CALLEE(g_i > 0 && p == WP((g_i - 1)) && !g_freed, "the entry looked at is released, once");
	g_freed = 1;
}
static void *lsq_malloc(size_t n) {
	CALLEE(n >= 12 + h0.value_size, "an entry has room for its value");
	CALLEE(g_new == 0, "one entry is allocated per addition");
	if (nondet_bool()) { oom = 1; return NULL; }
	g_new++;
	return N = malloc(n);
}
static size_t g_zeroed;
static void *lsq_calloc(size_t n, size_t s) {
	CALLEE(n * s == cap * sizeof(void *), "a bucket for each place");
	if (nondet_bool()) { oom = 1; return NULL; }
	g_zeroed++;
	B = malloc(cap * sizeof *B);
	__CPROVER_array_set(B, (sqfs_hash_bucket *)NULL);
	return B;
}
static const char *V;
static void *cpv(void *d, const void *s, size_t n) {
	CALLEE(s == V && n == h0.value_size && __CPROVER_w_ok(d, n), "a value is copied whole");
	if (g_c < n) ((char *)d)[g_c] = V[g_c];
	return d;
}
#define LSQ_GHOST_sqfs_hash_get_0 b = node(b),
#define LSQ_GHOST_sqfs_hash_remove_0 bp = link_(bp),
#define PASSED(k) (g_i <= LEN && (g_i > 0 ==> INTACT(g_i - 1)) && (g_w < g_i ==> KEY(g_w) != (k)))
#define LSQ_LOOP_sqfs_hash_get_0 __CPROVER_assigns(b, g_i, W0, W1, W2, W3) __CPROVER_loop_invariant( \
	PASSED(k) && b == NODE(g_i))
#define LSQ_LOOP_sqfs_hash_remove_0 __CPROVER_assigns(bp, g_i, g_freed, h->size, HEAD, W0, W1, W2, W3) __CPROVER_loop_invariant( \
	PASSED(k) && bp == (g_i ? &WP((g_i - 1))->next : &HEAD) && HEAD == NODE(0) && !g_freed && h->size == h0.size)
#define malloc lsq_malloc
#define calloc lsq_calloc
#define free lsq_free
#define memcpy cpv
#include "cur/hash.c"
#undef malloc
#undef free
static bool g_grown;
/* contract of sqfs_hash_double (unit hash_grow): twice the buckets with the same entries, or nothing happens */
sqfs_err stub_sqfs_hash_double(sqfs_hash *q) {
	CALLEE(q == &h && !g_grown && g_new == 0, "scaffold: the hash grows before the entry is made");
	if (nondet_bool()) { oom = 1; return SQFS_ERR; }
	g_grown = 1;
	cap = 2 * cap;
	B = malloc(cap * sizeof *B);
	h.buckets = B; h.capacity = cap;
	oldhead = HEAD;
	return SQFS_OK;
}
void harness(void) {
	size_t lg = nondet_size(), x = nondet_size();
	ASSUME(lg <= 32);
	cap = (size_t)1 << lg;
	LEN = nondet_u64(); g_w = nondet_u64(); K = nondet_u32(); g_c = nondet_size();
	ASSUME(LEN < 1ull << 40);
	g_i = 0; g_freed = oom = g_grown = 0; g_new = 0; g_zeroed = 0; N = NULL;
	h.value_size = nondet_size(); h.size = nondet_size(); h.capacity = cap;
	ASSUME(h.value_size >= 1 && h.value_size <= 1 << 20 && h.size < 1ull << 40);
#if OP == 0
	{
		size_t want = nondet_size();
		bool pow = want == cap;
		if (!pow) ASSUME(want == 0 || (want & (want - 1)) != 0);
		size_t vs = h.value_size;
		sqfs_hash any;
		h = any;
		sqfs_err e = sqfs_hash_init(&h, vs, want);
		if (!pow) { POST(e != SQFS_OK && !g_zeroed, "a bucket count that is no power of two is refused"); COVER(want == 0); COVER(want == 6); return; }
		POST((e != SQFS_OK) == oom && g_zeroed == !oom, "a hash is created unless memory runs out");
		if (e) { COVER(1); return; }
		POST(h.buckets == B && h.capacity == cap && h.size == 0 && h.value_size == vs, "as asked");
		POST(IMPLIES(x < cap, B[x] == NULL), "a fresh hash is empty");
		COVER(cap == 8);
		return;
	}
#endif
	B = malloc(cap * sizeof *B);
	h.buckets = B;
	HEAD = NODE(0);
	oldhead = HEAD;
	h0 = h;
	ASSUME(x < cap && x != (K & (cap - 1)) || cap == 1);
	sqfs_hash_bucket *other = B[x < cap ? x : 0];
#if OP == 1
	char *r = sqfs_hash_get(&h, K);
	POST(h.size == h0.size && h.capacity == cap && h.buckets == B && h.value_size == h0.value_size && HEAD == NODE(0), "looking up changes nothing");
	POST(IMPLIES(g_i, INTACT(g_i - 1)), "looking up changes no entry");
	if (r) {
		POST(g_i > 0 && KEY(g_i - 1) == K && r == WP((g_i - 1))->value, "the value found is that of the entry with the key");
		COVER(g_i == 1); COVER(g_i == 70);
	} else {
		POST(g_i == LEN && IMPLIES(g_w < LEN, KEY(g_w) != K), "a key not found is not in its chain");
		COVER(LEN == 0); COVER(LEN == 70 && g_w == 3);
	}
#elif OP == 2
	sqfs_err e = sqfs_hash_remove(&h, K);
	POST(e == SQFS_OK, "removing succeeds");
	POST(h.capacity == cap && h.buckets == B && h.value_size == h0.value_size, "the buckets stay");
	POST(IMPLIES(x < cap && cap > 1, B[x] == other), "no other chain is touched");
	if (g_freed) {
		uint64_t r = g_i - 1;
		POST(KEY(r) == K, "the entry removed is that of the key");
		POST(h.size == h0.size - 1, "there is one entry less");
		POST((r ? WP((r - 1))->next : HEAD) == NODE(r + 1), "the entry is out of its chain, the rest is in");
		POST(IMPLIES(r, HEAD == NODE(0) && WP((r - 1))->key == KEY(r - 1)), "what comes before it stays");
		COVER(r == 0); COVER(r == 70 && LEN == 71); COVER(r == 3 && LEN == 9);
	} else {
		POST(g_i == LEN && IMPLIES(g_w < LEN, KEY(g_w) != K), "an entry that stays has another key");
		POST(h.size == h0.size && HEAD == NODE(0) && IMPLIES(g_i, INTACT(g_i - 1)), "nothing is changed");
		COVER(LEN == 0); COVER(LEN == 70 && g_w == 3);
	}
#elif OP == 3 || OP == 4
	V = malloc(h.value_size);
	char vb = g_c < h.value_size ? V[g_c] : 0;
#if OP == 3
	ASSUME(h.size < cap);
#else
	ASSUME(h.size >= cap && cap < (1ull << 32));
#endif
	sqfs_err e = sqfs_hash_add(&h, K, (void *)V);
	POST((e != SQFS_OK) == oom, "adding fails only when memory runs out");
	POST(h.capacity == cap && h.buckets == B && h.value_size == h0.value_size, "the buckets are those there are");
	POST(IMPLIES(!g_grown && x < cap && cap > 1, B[x] == other), "no other chain is touched");
	if (e) {
		POST(h.size == h0.size && HEAD == oldhead && !g_new, "a failed addition changes nothing");
		COVER(1);
	} else {
		sqfs_hash_bucket *b = (sqfs_hash_bucket *)N;
		POST(h.size == h0.size + 1 && g_new == 1, "an addition adds one entry");
		POST(HEAD == b && b->next == oldhead, "in front of its chain");
		POST(b->key == K && IMPLIES(g_c < h.value_size, b->value[g_c] == vb), "with its key and its value");
		COVER(h.value_size == 100 && g_c == 99 && cap == 64);
		COVER(cap == 1 || OP == 4);
	}
#endif
}
