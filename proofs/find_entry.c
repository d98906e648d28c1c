/* Contract of squash_find_entry.
 * @what a stream or handle finds exactly the vfd it is the payload of
 * @source src/fd.c
 * @solver minisat
 * @fn squash_find_entry
 * @loop squash_find_entry 0
 * @fallback 6
 * @nobody sqfs_inode_get sqfs_inode_root sqfs_lookup_path_inner sqfs_stat sqfs_read_range atexit MUTEX_INIT MUTEX_DESTORY dup close calloc realloc strdup squash_extract_clear_cache
 *
 * Every slot but two holds nothing, or another file: an iteration reads one slot only, so
 * a table uniform but for the slot sought and a watched one shows it every table. */
#include "lsq.h"
#include "squash.h"
#ifdef LSQ_BOUNDED
#define MAXT 5
#else
#define MAXT (1 << 22)
#define LSQ_LOOP_squash_find_entry_0 __CPROVER_assigns(i, ret) __CPROVER_loop_invariant( \
	i <= g_end && ret == NULL && (g_hit ==> i <= g_at))
#endif
static size_t g_end, g_at; static bool g_hit;
static int locks;
int MUTEX_LOCK(MUTEX *m) { CALLEE(m == &squash_global_mutex && locks == 0, "the table is locked once"); locks++; return 0; }
int MUTEX_UNLOCK(MUTEX *m) { CALLEE(m == &squash_global_mutex && locks == 1, "and unlocked after"); locks--; return 0; }
#include "cur/fd.c"
static struct squash_file F, O, P;
void harness(void) {
	size_t nr = nondet_size(), w = nondet_size();
	g_end = nondet_size(); g_at = nondet_size(); g_hit = nondet_bool();
	ASSUME(nr <= MAXT && g_end <= nr);
	if (g_hit) ASSUME(g_at < g_end);
	F.payload = nondet_ptr(); O.payload = nondet_ptr(); P.payload = nondet_ptr();
	ASSUME(F.payload != O.payload && F.payload != P.payload && F.payload != NULL);
	struct squash_file **tab = nr ? malloc(nr * sizeof *tab) : NULL;
	if (nr) {
		struct squash_file *rest = nondet_bool() ? &O : NULL;
		__CPROVER_array_set(tab, rest);
		if (w < nr) tab[w] = nondet_bool() ? &P : NULL;
		if (g_hit) tab[g_at] = &F;
		/* past the end: not in use */
		else if (g_end < nr && nondet_bool()) tab[g_end] = &F;
	}
	squash_global_fdtable.fds = tab;
	squash_global_fdtable.nr = nr;
	squash_global_fdtable.end = g_end;
	locks = 0;
	struct squash_file *q = squash_find_entry(F.payload);
	POST(locks == 0, "the table's lock is released");
	POST(q == (g_hit ? &F : NULL), "the vfd with that payload is found, or none");
	POST(squash_global_fdtable.fds == tab && squash_global_fdtable.nr == nr && squash_global_fdtable.end == g_end, "the table stays");
	COVER(g_hit && g_at == 4);
	COVER(!g_hit && g_end == 5);
}
