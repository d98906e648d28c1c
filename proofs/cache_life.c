/* Contracts of sqfs_cache_init, sqfs_block_cache_init, sqfs_blockidx_init, sqfs_cache_destroy, sqfs_block_dispose.
 * @what a fresh cache is empty, a failed one owns nothing, destroying disposes of every live entry once
 * @source src/cache.c
 * @fn sqfs_cache_init sqfs_cache_destroy
 * @loop sqfs_cache_destroy 0
 * @fallback 5
 * @variants SZE=16 | SZE=8
 * @cbmc --malloc-may-fail --malloc-fail-null
 */
#include "lsq.h"
size_t g_j;
unsigned g_nd;
#ifdef LSQ_BOUNDED
#define MAXC 4
#else
#define MAXC (1 << 20)
#define LSQ_LOOP_sqfs_cache_destroy_0 __CPROVER_loop_invariant( \
	i <= cache->count && g_nd == (g_j < i && cache->idxs[g_j] != 0 ? 1 : 0))
#endif
#include "squash/fs.h"
static int live, was_init;
static void *lsq_calloc(size_t n, size_t s) {
	void *p = malloc(n * s);
	if (p) { live++; uint8_t *z = p; if (g_j < n) { ASSUME(((uint64_t *)p)[g_j * s / 8] == 0); } }
	return p;
}
static void lsq_free(void *p) { if (p) live--; free(p); }
#define calloc lsq_calloc
#define free lsq_free
int MUTEX_INIT(MUTEX *m) { was_init = 1; return 0; }
int MUTEX_DESTORY(MUTEX *m) { was_init = 0; return 0; }
int MUTEX_LOCK(MUTEX *m) { return 0; }
int MUTEX_UNLOCK(MUTEX *m) { return 0; }
static uint8_t *g_entry_j;
static void disp(void *p) { if (p == g_entry_j) g_nd++; }
#include "cur/cache.c"

void harness(void) {
	sqfs_cache c;
	size_t n;
	sqfs_err e;
	ASSUME(n >= 1 && n <= MAXC && g_j < n);
	live = 0;
	e = sqfs_cache_init(&c, SZE, n, disp);
	if (e != SQFS_OK) {
		POST(live == 0 && c.idxs == NULL && c.buf == NULL, "a failed cache owns nothing");
		COVER(1);
	} else {
		POST(live == 2 && c.idxs && c.buf, "both arrays are allocated");
		POST(c.idxs[g_j] == SQFS_CACHE_IDX_INVALID, "a fresh cache is empty");
		POST(c.count == n && c.size == SZE && c.next < c.count && c.dispose == disp && was_init, "shape of a fresh cache");
		/* any later contents */
		c.idxs[g_j] = nondet_u64();
		sqfs_cache_idx k = c.idxs[g_j];
		g_nd = 0;
		g_entry_j = c.buf + g_j * SZE;
		sqfs_cache_destroy(&c);
		POST(g_nd == (k != 0), "a live entry is disposed of exactly once, a dead one never");
		POST(live == 0 && c.idxs == NULL && c.buf == NULL, "destroy frees both arrays and forgets them");
		COVER(k != 0);
		COVER(k == 0);
	}
	/* the fix: destroying again is harmless */
	sqfs_cache_destroy(&c);
	POST(live == 0, "destroying twice frees nothing twice");
}
