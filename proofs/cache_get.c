/* Contract of sqfs_cache_get.
 * @what a cache lookup returns a slot holding exactly that key, and NULL only if no slot does
 * @source src/cache.c
 * @fn sqfs_cache_get sqfs_cache_entry
 * @loop sqfs_cache_get 0
 * @fallback 5
 * @variants SZE=16 | SZE=8
 */
#include "lsq.h"
size_t g_j;
#ifdef LSQ_BOUNDED
#define MAXC 4
#else
#define MAXC (1 << 20)
#define LSQ_LOOP_sqfs_cache_get_0 __CPROVER_loop_invariant( \
	i <= cache->count && ret == (void *)0 && (g_j < i ==> cache->idxs[g_j] != idx))
#endif
#include "squash/fs.h"
int MUTEX_INIT(MUTEX *m) { return 0; }
int MUTEX_DESTORY(MUTEX *m) { return 0; }
int MUTEX_LOCK(MUTEX *m) { return 0; }
int MUTEX_UNLOCK(MUTEX *m) { return 0; }
#include "cur/cache.c"

void harness(void) {
	sqfs_cache c, c0;
	sqfs_cache_idx idx, at_j;
	size_t r;
	uint8_t *ret;
	ASSUME(c.count >= 1 && c.count <= MAXC && c.size == SZE);
	c.idxs = malloc(c.count * sizeof(sqfs_cache_idx));
	c.buf = malloc(c.count * SZE);
	ASSUME(g_j < c.count);
	at_j = c.idxs[g_j];
	c0 = c;
	ret = sqfs_cache_get(&c, idx);
	if (ret == NULL) {
		POST(at_j != idx, "NULL only if no slot holds the key");
		COVER(c.count == 3);
	} else {
		POST(__CPROVER_POINTER_OBJECT(ret) == __CPROVER_POINTER_OBJECT(c.buf), "the entry lies in the buffer");
		r = (ret - c.buf) / SZE;
		POST((ret - c.buf) % SZE == 0 && r < c.count, "the entry is a whole slot");
		POST(c.idxs[r] == idx, "the slot returned holds the key");
		COVER(r == 2);
	}
	POST(c.idxs[g_j] == at_j && c.idxs == c0.idxs && c.buf == c0.buf && c.next == c0.next && c.count == c0.count,
		"a lookup changes nothing");
}
