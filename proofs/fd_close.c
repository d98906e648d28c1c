/* Contracts of squash_close, squash_halt.
 * @what closing releases exactly the vfd named, once, and keeps the rest of the table; anything else is EBADF and changes nothing
 * @source src/fd.c
 * @solver minisat
 * @fn squash_close squash_halt
 * @loop squash_close 0
 * @fallback 5
 * @nobody sqfs_inode_get sqfs_inode_root sqfs_lookup_path_inner sqfs_stat sqfs_read_range atexit MUTEX_INIT dup calloc realloc strdup
 * @trusted close() of a descriptor
 *
 * g_j is a watched slot of the table. */
#include "lsq.h"
#include "squash.h"
#include <unistd.h>
#ifdef LSQ_BOUNDED
#define MAXT 4
#else
#define MAXT (1 << 22)
#define LSQ_LOOP_squash_close_0 __CPROVER_assigns(vfd) __CPROVER_loop_invariant( \
	vfd >= -1 && vfd <= g_vfd && ((int64_t)g_j > vfd && (int64_t)g_j < g_end0 ==> tab0[g_j] == NULL))
#endif
static size_t g_j; static int64_t g_end0; static int g_vfd;
static struct squash_file **tab0;
static int locks, closed, close_ret, nf_file, nf_name, nf_pay, nf_other, nf_tab;
static struct squash_file F; static char name_obj[4]; static int pay_obj[2];
static void lsq_free(void *p) {
	if (p == NULL) return;
	if (p == &F) { nf_file++; CALLEE(nf_name == 1 && nf_pay == 1, "scaffold: what the file owns is released before it"); }
	else if (p == name_obj) nf_name++;
	else if (p == pay_obj) nf_pay++;
	else if (p == tab0) nf_tab++;
	else nf_other++;
}
static int lsq_close(int fd) {
	CALLEE(fd == g_vfd, "the descriptor of this vfd is closed");
	closed++;
	close_ret = nondet_bool() ? 0 : -1;
	if (close_ret) errno = 5;
	return close_ret;
}
int MUTEX_LOCK(MUTEX *m) { CALLEE(m == &squash_global_mutex && locks == 0, "the table is locked once"); locks++; return 0; }
int MUTEX_UNLOCK(MUTEX *m) { CALLEE(locks == 1, "and unlocked after"); locks--; return 0; }
int MUTEX_DESTORY(MUTEX *m) { CALLEE(m == &squash_global_mutex, "the table's lock is destroyed"); return 0; }
static int cleared;
void squash_extract_clear_cache(void) { cleared++; }
#define free lsq_free
#define close lsq_close
#include "cur/fd.c"
void harness(void) {
	int r, vfd = nondet_int();
	struct squash_file *at_j = NULL;
	struct squash_file f0;
	size_t nr0 = nondet_size();
	locks = closed = nf_file = nf_name = nf_pay = nf_other = nf_tab = cleared = 0;
	F = f0; F.filename = nondet_bool() ? name_obj : NULL; F.payload = pay_obj; nf_name = F.filename ? 0 : 1;
	g_end0 = nondet_i64(); g_j = nondet_size(); g_vfd = vfd;
	ASSUME(nr0 <= MAXT && g_end0 >= 0 && g_end0 <= (int64_t)nr0 && g_j <= MAXT);
	tab0 = nr0 ? malloc(nr0 * 8) : NULL;
	/* the table holds F at vfd, or nothing there; the watched slot is empty past the end, taken just before it */
	bool valid = vfd >= 0 && vfd < g_end0 && nondet_bool();
	if (vfd >= 0 && (size_t)vfd < nr0) tab0[vfd] = valid ? &F : NULL;
	if (g_j < nr0) {
		if ((int64_t)g_j >= g_end0) ASSUME(tab0[g_j] == NULL);
		if ((int64_t)g_j + 1 == g_end0) ASSUME(tab0[g_j] != NULL);
		at_j = tab0[g_j];
	}
	if (g_end0) ASSUME(tab0[g_end0 - 1] != NULL);
	squash_global_fdtable.fds = tab0;
	squash_global_fdtable.nr = nr0;
	squash_global_fdtable.end = g_end0;
	struct squash_fdtable *t = &squash_global_fdtable;
	if (nondet_bool()) {
		squash_halt();
		POST(nf_tab == (tab0 != NULL) && cleared == 1, "at exit the table is freed once and the extraction cache cleared");
		COVER(tab0 != NULL);
		return;
	}
	errno = nondet_int();
	r = squash_close(vfd);
	POST(locks == 0, "the table's lock is released");
	POST(t->fds == tab0 && t->nr == nr0 && nf_tab == 0 && nf_other == 0, "the table itself stays");
	if (!valid) {
		POST(r == -1 && errno == EBADF && closed == 0, "anything but an open vfd is EBADF and closes nothing");
		POST(nf_file == 0 && t->end == (size_t)g_end0 && IMPLIES(g_j < nr0, tab0[g_j] == at_j), "and changes nothing");
		COVER(vfd < 0);
		COVER(vfd >= 0 && vfd < g_end0);
	} else if (close_ret != 0) {
		POST(r == -1 && nf_file == 0 && t->end == (size_t)g_end0 && IMPLIES(g_j < nr0, tab0[g_j] == at_j), "a failed close keeps the vfd");
		COVER(1);
	} else {
		POST(r == 0 && closed == 1, "an open vfd is closed");
		POST(nf_file == 1 && nf_name == 1 && nf_pay == 1, "file, name and payload are released exactly once");
		POST(tab0[vfd] == NULL, "its slot is free");
		if (g_j < nr0 && g_j != (size_t)vfd)
			POST(tab0[g_j] == at_j, "no other slot changes");
		POST(t->end <= (size_t)g_end0 && (t->end == 0 || tab0[t->end - 1] != NULL), "the end is just past a taken slot");
		POST(IMPLIES(g_j >= t->end && g_j < nr0, tab0[g_j] == NULL), "and no slot is taken past it");
		COVER(vfd + 1 == g_end0 && t->end > 0);
		COVER(vfd + 1 < g_end0);
		COVER(t->end == 0);
	}
}
