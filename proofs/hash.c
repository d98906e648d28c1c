/* Contracts of the hash functions, as steps from an arbitrary well-formed hash.
 * @what a hash holds exactly the keys added and not removed, each with its value, through growth and failed growth, and releases every node
 * @source src/hash.c
 * @solver minisat
 * @fn sqfs_hash_init sqfs_hash_add sqfs_hash_add_internal sqfs_hash_double sqfs_hash_get sqfs_hash_remove sqfs_hash_destroy
 * @unwind 6
 * @bounded from any well-formed hash of CAP buckets with chains of up to 2 entries (distinct keys); each operation is then checked in full, the representation invariant included
 * @arrays flat
 * @fallback 6
 * @variants CAP=1 OP=0 | CAP=1 OP=1 | CAP=1 OP=2 | CAP=1 OP=3 | CAP=1 OP=4 | CAP=2 OP=0 | CAP=2 OP=1 | CAP=2 OP=2 | CAP=2 OP=3 | CAP=2 OP=4
 */
#include "lsq.h"
#include "squash/hash.h"
#define COVER_OP(n, c) COVER_##n(c)
#if OP == 0
#define COVER_0(c) COVER(c)
#else
#define COVER_0(c) (void)0
#endif
#if OP == 1
#define COVER_1(c) COVER(c)
#else
#define COVER_1(c) (void)0
#endif
#if OP == 2
#define COVER_2(c) COVER(c)
#else
#define COVER_2(c) (void)0
#endif
#if OP == 3
#define COVER_3(c) COVER(c)
#else
#define COVER_3(c) (void)0
#endif
#if OP == 4
#define COVER_4(c) COVER(c)
#else
#define COVER_4(c) (void)0
#endif
typedef struct { sqfs_hash_bucket b; char more[8]; } node;
#define OLD (2 * CAP)
static node pool[OLD + 1];
static bool alive[OLD + 1];
static sqfs_hash_bucket *arr0[CAP], *arr1[2 * CAP];
static bool a0, a1;
static bool oom, frees_ok;
static void *lsq_malloc(size_t n) {
	CALLEE(n >= sizeof(sqfs_hash_bucket *) + sizeof(sqfs_hash_key) + 4, "an entry has room for its value");
	if (nondet_bool()) { oom = 1; return NULL; }
	CALLEE(!alive[OLD], "one entry is allocated per addition");
	alive[OLD] = 1;
	return &pool[OLD];
}
static void *lsq_calloc(size_t n, size_t s) {
	if (nondet_bool()) { oom = 1; return NULL; }
	CALLEE(n * s == CAP * sizeof(void *) || n * s == 2 * CAP * sizeof(void *), "buckets double");
	if (n == CAP) { for (int i = 0; i < CAP; i++) arr0[i] = NULL; a0 = 1; return arr0; }
	for (int i = 0; i < 2 * CAP; i++) arr1[i] = NULL;
	a1 = 1;
	return arr1;
}
static void lsq_free(void *p) {
	bool hit = p == NULL;
	if (p == arr0 && a0) { a0 = 0; hit = 1; }
	if (p == arr1 && a1) { a1 = 0; hit = 1; }
	for (int i = 0; i <= OLD; i++) if (p == &pool[i] && alive[i]) { alive[i] = 0; hit = 1; }
	CALLEE(hit, "only what is allocated is freed, once");
}
static void *cp4(void *d, const void *s, size_t n) {
	CALLEE(n == 4, "a value is copied whole");
	*(uint32_t *)d = *(const uint32_t *)s;
	return d;
}
#define malloc lsq_malloc
#define calloc lsq_calloc
#define free lsq_free
#define memcpy cp4
#include "cur/hash.c"
#undef malloc
#undef free
static sqfs_hash h;
static sqfs_hash_key K[OLD]; static uint32_t V[OLD]; static bool in[OLD];
/* every entry is in the chain of its key, and there are h.size of them */
static bool wf(void) {
	size_t n = 0;
	bool ok = h.capacity == CAP || h.capacity == 2 * CAP;
	for (int i = 0; i < 2 * CAP; i++) {
		if (i >= h.capacity) break;
		sqfs_hash_bucket *b = h.buckets[i];
		for (int j = 0; j < OLD + 1; j++) {
			if (!b) break;
			if ((b->key & (h.capacity - 1)) != i) ok = 0;
			n++;
			b = b->next;
		}
		if (b) ok = 0;
	}
	return ok && n == h.size && h.value_size == 4;
}
static int nalive(void) { int n = 0; for (int i = 0; i <= OLD; i++) n += alive[i]; return n; }
static void any(void) {
	h.capacity = CAP; h.value_size = 4; h.size = 0; h.buckets = arr0;
	a0 = 1; a1 = 0;
	for (int i = 0; i <= OLD; i++) alive[i] = 0;
	for (int i = 0; i < CAP; i++) {
		arr0[i] = NULL;
		for (int j = 0; j < 2; j++) {
			int x = 2 * i + j;
			K[x] = nondet_u32(); V[x] = nondet_u32();
			in[x] = nondet_bool();
			if (!in[x]) continue;
			ASSUME((K[x] & (CAP - 1)) == i);
			for (int y = 0; y < x; y++) ASSUME(!in[y] || K[y] != K[x]);
			alive[x] = 1;
			pool[x].b.key = K[x];
			*(uint32_t *)&pool[x].b.value = V[x];
			pool[x].b.next = arr0[i];
			arr0[i] = &pool[x].b;
			h.size++;
		}
	}
}
static void expect(sqfs_hash_key q, bool has, uint32_t val) {
	uint32_t *r = sqfs_hash_get(&h, q);
	POST((r != NULL) == has, "a key is found iff it was added and not removed");
	POST(IMPLIES(has, r && *r == val), "with its own value");
}
void harness(void) {
	sqfs_err e;
	int which = OP;
	oom = 0;
	if (which == 0) {
		size_t bad = nondet_size();
		ASSUME(bad == 0 || (bad & (bad - 1)) != 0 || bad == CAP);
		a0 = a1 = 0;
		for (int i = 0; i <= OLD; i++) alive[i] = 0;
		e = sqfs_hash_init(&h, 4, bad);
		if (bad != CAP) {
			POST(e != SQFS_OK && !a0 && !a1, "a bucket count that is no power of two is refused");
			COVER_OP(0, bad == 0);
			return;
		}
		POST((e != SQFS_OK) == oom && a0 == !oom, "a hash is created unless memory runs out");
		if (e) { COVER_OP(0, 1); return; }
		POST(wf() && h.size == 0, "a fresh hash is empty");
		expect(nondet_u32(), 0, 0);
		COVER_OP(0, 1);
		return;
	}
	any();
	size_t n = h.size;
	int l = nalive();
	sqfs_hash_key k = nondet_u32(), q = nondet_u32();
	uint32_t v = nondet_u32(), val = 0, kval = 0;
	bool has = 0, hask = 0;
	for (int x = 0; x < OLD; x++) {
		if (in[x] && K[x] == q) { has = 1; val = V[x]; }
		if (in[x] && K[x] == k) { hask = 1; kval = V[x]; }
	}
	if (which == 1) {
		expect(q, has, val);
		POST(h.size == n && wf(), "looking up changes nothing");
		COVER_OP(1, has && n == OLD);
		COVER_OP(1, !has);
	} else if (which == 2) {
		ASSUME(!hask);
		e = sqfs_hash_add(&h, k, &v);
		POST((e != SQFS_OK) == oom, "adding fails only when memory runs out");
		POST(h.size == n + (e == SQFS_OK) && wf(), "an addition adds one entry, in its chain");
		POST(nalive() == l + (e == SQFS_OK) && a0 + a1 == 1 && (a1 ? h.buckets == arr1 : h.buckets == arr0), "old buckets are released, new ones kept");
		if (e == SQFS_OK && q == k) expect(q, 1, v); else expect(q, has, val);
		COVER_OP(2, e == SQFS_OK && a1);
		COVER_OP(2, e != SQFS_OK && n >= CAP);
		COVER_OP(2, e == SQFS_OK && a0);
	} else if (which == 3) {
		e = sqfs_hash_remove(&h, k);
		POST(e == SQFS_OK, "removing succeeds");
		POST(h.size == n - hask && wf() && nalive() == l - hask, "the entry of the key, and no other, is removed and released");
		if (q == k) expect(q, 0, 0); else expect(q, has, val);
		COVER_OP(3, hask && n == OLD);
		COVER_OP(3, !hask);
	} else {
		sqfs_hash_destroy(&h);
		POST(nalive() == 0 && !a0 && !a1, "destroy releases every entry and the buckets");
		COVER_OP(4, n == OLD);
	}
}
