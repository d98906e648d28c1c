/* Contracts of sqfs_cache_add and sqfs_cache_invalidate.
 * @what adding claims one slot, disposes of exactly what it held, leaves every other slot alone
 * @source src/cache.c
 * @fn sqfs_cache_add sqfs_cache_invalidate sqfs_cache_entry
 * @variants SZE=16 | SZE=8
 * @unwind 2
 */
#include "lsq.h"
#include "squash/fs.h"
int MUTEX_INIT(MUTEX *m) { return 0; }
int MUTEX_DESTORY(MUTEX *m) { return 0; }
int MUTEX_LOCK(MUTEX *m) { return 0; }
int MUTEX_UNLOCK(MUTEX *m) { return 0; }
#include "cur/cache.c"
static unsigned n_disp;
static void *last_disp;
static void disp(void *p) { n_disp++; last_disp = p; }

void harness(void) {
	sqfs_cache c, c0;
	sqfs_cache_idx idx, at_j, at_r;
	size_t j, r;
	uint8_t *ret, byte_j;
	size_t b;
	ASSUME(c.count >= 1 && c.count <= (1 << 20) && c.size == SZE && c.next < c.count && idx != 0);
	c.idxs = malloc(c.count * sizeof(sqfs_cache_idx));
	c.buf = malloc(c.count * SZE);
	c.dispose = disp;
	ASSUME(j < c.count && b < SZE);
	at_j = c.idxs[j];
	byte_j = c.buf[j * SZE + b];
	c0 = c;
	n_disp = 0;
	sqfs_cache_idx *snap = c.idxs;
	size_t guess = nondet_size();
	ASSUME(guess < c.count);
	at_r = c.idxs[guess];
	ret = sqfs_cache_add(&c, idx);
	POST(ret != NULL && __CPROVER_POINTER_OBJECT(ret) == __CPROVER_POINTER_OBJECT(c.buf), "a slot of the buffer is returned");
	r = (ret - c.buf) / SZE;
	POST((ret - c.buf) % SZE == 0 && r < c.count, "the entry is a whole slot");
	POST(c.idxs[r] == idx, "the slot now holds the key");
	POST(c.next < c.count, "the eviction index stays inside");
	POST(IMPLIES(c.count > 1, c.next != r), "the newest slot is not the next to be evicted");
	POST(c.count == c0.count && c.size == c0.size && c.idxs == c0.idxs && c.buf == c0.buf, "shape unchanged");
	if (guess == r)
		POST(n_disp == (at_r != 0 ? 1 : 0) && IMPLIES(at_r != 0, last_disp == ret), "exactly the evicted entry is disposed of");
	if (j != r) {
		POST(c.idxs[j] == at_j, "other keys are untouched");
	}
	POST(c.buf[j * SZE + b] == byte_j, "no entry is overwritten");
	COVER(at_r != 0 && guess == r);
	COVER(at_r == 0 && guess == r && c.count == 8);
	/* forgetting the entry */
	at_j = c.idxs[j];
	sqfs_cache_invalidate(&c, ret);
	POST(c.idxs[r] == SQFS_CACHE_IDX_INVALID, "the entry is forgotten");
	POST(IMPLIES(j != r, c.idxs[j] == at_j), "invalidating leaves other keys alone");
	COVER(j != r);
}
