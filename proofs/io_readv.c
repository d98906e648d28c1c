/* Contract of the interception layer's readv.
 * @what readv of a descriptor of the image fills the buffers in order with consecutive bytes, stops at a short read, and reports what was read; an error after some bytes still reports them
 * @source sample/enclose_io_unix.c
 * @solver minisat
 * @fn enclose_io_readv
 * @loop enclose_io_readv 0
 * @fallback 4
 * @nobody strlen strnlen strncmp memcpy memmove strstr
 */
#include "lsq.h"
#include "squash.h"
#include "enclose_io_common.h"
#undef assert
#define assert(e) __CPROVER_assert((e), "assertion of the code: " #e)
struct squash_fdtable squash_global_fdtable;
static struct squash_file F;
static int g_fd, sys; static bool virt, done, err; static long ret;
static struct iovec *V; static int cnt;
static int nxt;                 /* buffers read into so far */
static int64_t total;           /* bytes read so far */
ssize_t readv(int fd, const struct iovec *v, int n) { CALLEE(!virt && fd == g_fd && v == V && n == cnt, "the system gets the caller's arguments"); sys++; return ret; }
ssize_t squash_read(int fd, void *b, sqfs_off_t n) {
	CALLEE(virt && fd == g_fd && !done, "the descriptor of the image is read until a read is short or fails");
	CALLEE(nxt < cnt && b == V[nxt].iov_base && n == (sqfs_off_t)V[nxt].iov_len, "into the caller's buffers, in order");
	nxt++;
	if (nondet_bool()) { err = done = 1; return -1; }
	int64_t r = nondet_i64();
	ASSUME(r >= 0 && r <= n && r <= (1ll << 50) - total);     /* no file is larger */
	total += r;
	if (r < n) done = 1;
	return r;
}
#ifndef LSQ_BOUNDED
#define LSQ_LOOP_enclose_io_readv_0 __CPROVER_assigns(i, i_ssize, ret, nxt, total, done, err) __CPROVER_loop_invariant( \
	i >= 0 && i <= (cnt > 0 ? cnt : 0) && nxt == i && !done && !err && ret == total && total >= 0 && total <= (1ll << 50))
#endif
#include "cur/enclose_io_unix.c"
void harness(void) {
	struct squash_file **fds; size_t nr = nondet_size();
	ASSUME(nr <= 1 << 22);
	fds = nr ? malloc(nr * 8) : NULL;
	g_fd = nondet_int();
	virt = g_fd >= 0 && (size_t)g_fd < nr && nondet_bool();
	if (g_fd >= 0 && (size_t)g_fd < nr) fds[g_fd] = virt ? &F : NULL;
	squash_global_fdtable.fds = fds; squash_global_fdtable.nr = nr;
	cnt = nondet_int();
	ASSUME(cnt <= 1024);        /* IOV_MAX */
#ifdef LSQ_BOUNDED
	ASSUME(cnt <= 3);
#endif
	V = malloc((cnt > 0 ? cnt : 1) * sizeof *V);
	ret = nondet_i64(); sys = nxt = 0; total = 0; done = err = 0;
	size_t j = nondet_size();
	ssize_t r = enclose_io_readv(g_fd, V, cnt);
	if (!virt) { POST(sys == 1 && r == ret, "any other descriptor is the system's"); COVER(1); return; }
	POST(!sys, "the system is not asked");
	POST(r == (err && total == 0 ? -1 : total), "what was read is reported, or the error when nothing was");
	POST(done || nxt >= cnt, "every buffer is used unless a read was short");
	COVER(err && total > 0); COVER(err && total == 0); COVER(nxt == 2 && done && !err); COVER(nxt > 1 && nxt == cnt && !done);
}
