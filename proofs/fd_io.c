/* Contracts of squash_read, squash_lseek.
 * @what a vfd reads on from its position, which advances by what was delivered; seeking sets it as documented or leaves it
 * @source src/fd.c
 * @solver minisat
 * @fn squash_read squash_lseek
 * @unwind 2
 * @fallback 2
 * @nobody sqfs_inode_get sqfs_inode_root sqfs_lookup_path_inner sqfs_stat atexit MUTEX_INIT MUTEX_DESTORY dup close calloc realloc strdup squash_extract_clear_cache
 */
#include "lsq.h"
#include "squash.h"
#define MAXT (1 << 22)
static int g_vfd; static bool g_hit;
static int locks;
int MUTEX_LOCK(MUTEX *m) { locks++; return 0; }
int MUTEX_UNLOCK(MUTEX *m) { locks--; return 0; }
#include "cur/fd.c"
static struct squash_file F, O;
static int reads; static sqfs_err rd_err; static int64_t rd_n, rd_pos; static void *the_buf; static int64_t want_n;
sqfs_err sqfs_read_range(sqfs *fs, sqfs_inode *inode, sqfs_off_t start, sqfs_off_t *size, void *buf) {
	CALLEE(fs == F.fs && inode == &F.node, "the file of this vfd is read");
	CALLEE(start == rd_pos && *size == want_n && buf == the_buf, "from its position, for what was asked, into the caller's buffer");
	reads++;
	rd_err = nondet_bool() ? SQFS_OK : SQFS_ERR;
	rd_n = nondet_i64();
	if (rd_err == SQFS_OK) ASSUME(rd_n >= 0 && rd_n <= want_n);
	*size = rd_n;
	return rd_err;
}
void harness(void) {
	int which = nondet_int(), vfd = nondet_int();
	sqfs fs;
	char b[4];
	struct squash_file f0, o0;
	size_t nr0 = nondet_size();
	struct squash_file **tab;
	F = f0; O = o0; F.fs = &fs;
	F.node.xtra.reg.file_size = nondet_u64();
	ASSUME(nr0 <= MAXT);
	tab = nr0 ? malloc(nr0 * 8) : NULL;
	bool valid = vfd >= 0 && (size_t)vfd < nr0 && nondet_bool();
	if (vfd >= 0 && (size_t)vfd < nr0) tab[vfd] = valid ? &F : NULL;
	squash_global_fdtable.fds = tab;
	squash_global_fdtable.nr = nr0;
	squash_global_fdtable.end = nondet_size();
	ASSUME(squash_global_fdtable.end <= nr0 && (!valid || vfd < squash_global_fdtable.end));
	g_vfd = vfd; g_hit = 0;
	errno = nondet_int();
	int64_t pos0 = F.pos;
	ASSUME(pos0 >= 0);       /* seeking refuses anything else */
	locks = reads = 0;
	if (which == 0) {
		int64_t n = nondet_i64();
		rd_pos = pos0; want_n = n; the_buf = b;
		ASSUME(n < (1ll << 62) && pos0 < (1ll << 62));
		ssize_t r = squash_read(vfd, b, n);
		if (!valid) {
			POST(r == -1 && errno == EBADF && reads == 0, "reading anything but an open vfd is EBADF");
			COVER(vfd == -1);
		} else {
			POST(reads == 1, "one range is read");
			if (rd_err == SQFS_OK) {
				POST(r == rd_n && (int64_t)F.pos == pos0 + rd_n, "the position advances by exactly what was delivered");
				COVER(rd_n > 0);
			} else {
				POST(r == -1 && errno != 0 && (int64_t)F.pos == pos0, "a failed read leaves the position");
				COVER(1);
			}
		}
	} else if (which == 1) {
		off_t off = nondet_i64();
		int wh = nondet_int();
		off_t r = squash_lseek(vfd, off, wh);
		if (!valid) {
			POST(r == -1 && errno == EBADF, "seeking anything but an open vfd is EBADF");
			COVER(vfd == -1);
			return;
		}
		bool reg = S_ISREG(F.node.base.mode);
		bool ovf = off > 0 && pos0 > INT64_MAX - off;
		ASSUME(F.node.xtra.reg.file_size <= INT64_MAX);
		if (wh == 0 && off >= 0) {
			POST(r == off && (int64_t)F.pos == off, "SEEK_SET sets the position");
			COVER(1);
		} else if (wh == 1 && !ovf && pos0 + off >= 0) {
			POST(r == pos0 + off && (int64_t)F.pos == r, "SEEK_CUR moves the position");
			COVER(off < 0);
		} else if (wh == 2 && reg) {
			POST(r == (off_t)F.node.xtra.reg.file_size && (int64_t)F.pos == r, "SEEK_END sets the position to the size of the file");
			COVER(1);
		} else {
			POST(r == -1 && errno == EINVAL && (int64_t)F.pos == pos0, "any other seek is refused and leaves the position");
			COVER(wh == 0);
			COVER(wh == 1);
			COVER(wh == 2);
			COVER(wh == 7);
		}
	}
}
