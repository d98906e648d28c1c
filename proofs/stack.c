/* Contracts of the stack: sqfs_stack_init, _create, _push, _pop, _at, _top, _size, _destroy, _capacity, _next_capacity, _grow.
 * @what a stack keeps every pushed item in place through growth, hands out the last one, frees each item exactly once in reverse order, and a failed push changes nothing
 * @source src/stack.c
 * @fn sqfs_stack_init sqfs_stack_create sqfs_stack_push sqfs_stack_pop sqfs_stack_at sqfs_stack_top sqfs_stack_size sqfs_stack_destroy sqfs_stack_capacity sqfs_stack_next_capacity sqfs_stack_grow
 * @loop sqfs_stack_destroy 0
 * @fallback 5
 * @variants VS=1 | VS=8 | VS=24
 * @thorough VS=3 | VS=40 | VS=4104
 *
 * VS is the item size. g_wo is a watched byte of an item below the top. */
#include "lsq.h"
static size_t g_j, g_freed_j, g_calls, g_top0, g_wo;
static char *g_base;
#ifdef LSQ_BOUNDED
#define MAXC 3
#else
#define MAXC (1 << 20)
#define LSQ_LOOP_sqfs_stack_destroy_0 __CPROVER_assigns(s->size, g_freed_j, g_calls) __CPROVER_loop_invariant( \
	s->size <= g_top0 && g_calls == (s->freer ? g_top0 - s->size : 0) && g_freed_j == (s->freer && g_j >= s->size && g_j < g_top0 ? 1 : 0))
#endif
#include "squash/stack.h"
static int live;
static void *lsq_realloc(void *p, size_t n) {
	CALLEE(n > 0, "a stack never shrinks to nothing");
	CALLEE(p == NULL || __CPROVER_POINTER_OFFSET(p) == 0, "the whole allocation is resized");
	if (nondet_bool())
		return NULL;
	char *q = malloc(n);
	if (!p) { live++; return q; }
	if (g_wo < __CPROVER_OBJECT_SIZE(p) && g_wo < n)
		q[g_wo] = ((char *)p)[g_wo];
	free(p);
	return q;
}
static void lsq_free(void *p) { if (p) live--; free(p); }
#define realloc lsq_realloc
#define free lsq_free
static void freer(void *v) {
	CALLEE((char *)v == g_base + (g_top0 - 1 - g_calls) * VS, "items are released from the top down");
	if ((char *)v == g_base + g_j * VS) g_freed_j++;
	g_calls++;
}
#include "cur/stack.c"

void harness(void) {
	sqfs_stack s;
	sqfs_err e;
	int which = nondet_int();
	live = 0; g_calls = 0; g_freed_j = 0; g_j = nondet_size(); g_wo = nondet_size();
	ASSUME(g_j <= MAXC);
	if (which == 0) {
		sqfs_stack_init(&s);
		POST(s.items == NULL && sqfs_stack_size(&s) == 0 && s.capacity == 0, "an initialised stack is empty");
		s.freer = NULL;
		POST(!sqfs_stack_pop(&s) && sqfs_stack_size(&s) == 0, "nothing to pop");
		void *v = &s;
		POST(sqfs_stack_top(&s, &v) != SQFS_OK && v == &s, "an empty stack has no top");
		sqfs_stack_destroy(&s);
		POST(live == 0, "destroying it is harmless");
		COVER(1);
		return;
	}
	if (which == 1) {
		size_t n;
		ASSUME(n <= MAXC);
		s.freer = NULL;
		e = sqfs_stack_create(&s, VS, n, freer);
		POST(sqfs_stack_size(&s) == 0 && s.value_size == VS && s.freer == freer, "a fresh stack is empty");
		POST(IMPLIES(e == SQFS_OK, s.capacity >= n && (n == 0 || __CPROVER_w_ok(s.items, n * VS))), "with room for the initial items");
		POST(IMPLIES(e != SQFS_OK, live == 0), "a failed one owns nothing");
		sqfs_stack_destroy(&s);
		POST(live == 0 && g_calls == 0, "an empty stack frees its array only");
		COVER(e == SQFS_OK && n > 0);
		COVER(e != SQFS_OK);
		return;
	}
	/* any stack */
	ASSUME(s.size <= s.capacity && s.capacity <= MAXC);
	s.value_size = VS;
	s.freer = nondet_bool() ? freer : NULL;
	s.items = s.capacity ? malloc(s.capacity * VS) : NULL;
	live = s.capacity ? 1 : 0;
	g_base = s.items;
	g_top0 = s.size;
	size_t n0 = s.size;
	ASSUME(g_wo < n0 * VS || n0 == 0);
	char w0 = n0 ? s.items[g_wo] : 0;
	void *v = &s;
	if (which == 2) {
		e = sqfs_stack_push(&s, &v);
		if (e == SQFS_OK) {
			POST(s.size == n0 + 1 && s.capacity >= s.size, "a push adds one item");
			POST((char *)v == s.items + n0 * VS && __CPROVER_w_ok(v, VS), "the pushed item is the new last one, with room of its own");
			POST(n0 == 0 || s.items[g_wo] == w0, "earlier items keep their content");
			COVER(n0 > 0 && g_base != s.items);
			COVER(n0 == 0);
		} else {
			POST(s.size == n0 && s.items == g_base && (n0 == 0 || s.items[g_wo] == w0), "a failed push changes nothing");
			COVER(n0 > 0);
		}
		POST(g_calls == 0, "a push releases no item");
		POST(s.value_size == VS && live == (s.items ? 1 : 0), "one array is owned");
	} else if (which == 3) {
		size_t i;
		e = sqfs_stack_at(&s, i, &v);
		POST(IMPLIES(i < n0, e == SQFS_OK && (char *)v == s.items + i * VS), "at(i) is the i-th item");
		POST(IMPLIES(i >= n0, e != SQFS_OK && v == &s), "there is no item past the top");
		e = sqfs_stack_top(&s, &v);
		POST(IMPLIES(n0 > 0, e == SQFS_OK && (char *)v == s.items + (n0 - 1) * VS), "top is the last item");
		POST(sqfs_stack_size(&s) == n0, "size counts the items");
		COVER(i < n0);
		COVER(i == n0 && n0 == 0);
	} else if (which == 4) {
		short r = sqfs_stack_pop(&s);
		POST(!!r == (n0 > 0), "pop says whether there was an item");
		POST(s.size == (n0 ? n0 - 1 : 0) && s.items == g_base, "pop removes one item");
		POST(g_calls == (n0 && s.freer ? 1 : 0), "the popped item is released exactly once");
		COVER(n0 && s.freer);
		COVER(!n0);
	} else {
		bool f = s.freer != NULL;
		sqfs_stack_destroy(&s);
		POST(live == 0 && s.items == NULL && s.size == 0 && s.capacity == 0, "destroy leaves an empty stack owning nothing");
		POST(IMPLIES(f, g_calls == n0 && IMPLIES(g_j < n0, g_freed_j == 1)), "every item is released exactly once");
		COVER(f && n0 > 2);
	}
}
