/* Contract of squash_uncached_extract.
 * @what the temporary file holds exactly the file's bytes, and a failure leaves neither file nor descriptor behind
 * @source src/extract.c
 * @fn squash_uncached_extract
 * @replace squash_tmpdir squash_tmpf
 * @loop squash_uncached_extract 0
 * @fallback 4
 * @nobody squash_extract getenv snprintf stat srand time getpid rand
 * @trusted fopen, fwrite, fclose, unlink, malloc, free as in C and POSIX
 */
#include "lsq.h"
#include "squash.h"
struct squash_fdtable squash_global_fdtable;
MUTEX squash_global_mutex;
static sqfs *the_fs; static const char *the_path, *the_ext;
static struct squash_file F, *tab[3];
static int g_vfd, vopen, closes, tmpf_live, unlinks, fcloses; static char tmpname[4], dirname_[4]; static FILE *fp_obj; static char fpmem[8];
static bool on_disk, writing, failed;
static uint64_t g_size, g_pos, g_out, g_b; static char g_B, g_W;
int squash_open(sqfs *fs, const char *path) {
	CALLEE(fs == the_fs && path == the_path && !vopen, "the file asked for is opened");
	if (nondet_bool()) { failed = 1; errno = lsq_err(); return -1; }
	vopen = 1; g_pos = 0;
	tab[g_vfd] = &F;
	return g_vfd;
}
int squash_close(int fd) { CALLEE(fd == g_vfd && vopen == 1, "the descriptor is closed once"); vopen = 0; closes++; tab[g_vfd] = NULL; return nondet_bool() ? 0 : -1; }
ssize_t squash_read(int fd, void *buf, sqfs_off_t n) {
	CALLEE(fd == g_vfd && vopen && !failed, "the open file is read");
	CALLEE(n > 0 && __CPROVER_w_ok(buf, n), "into a buffer of its size");
	if (nondet_bool()) { failed = 1; return nondet_bool() ? -1 : 0; }
	ssize_t r = nondet_i64();
	ASSUME(r >= 0 && r <= n && (uint64_t)r <= g_size - g_pos && (r > 0 || g_pos == g_size));
	if (g_b >= g_pos && g_b - g_pos < (uint64_t)r) ((char *)buf)[g_b - g_pos] = g_B;
	g_pos += r;
	return r;
}
static FILE *lsq_fopen(const char *name, const char *mode) {
	CALLEE(name == tmpname && mode[0] == 'w' && !writing, "the temporary file is created");
	if (nondet_bool()) { failed = 1; return NULL; }
	on_disk = 1; writing = 1; g_out = 0;
	return (FILE *)fpmem;
}
static size_t lsq_fwrite(const void *p, size_t s, size_t n, FILE *f) {
	CALLEE((void *)f == fpmem && writing && !failed, "the temporary file is written");
	CALLEE(s == 0 || n == 0 || __CPROVER_r_ok(p, s == 1 ? n : n == 1 ? s : s * n), "from the buffer");
	CALLEE(s == 1 || n == 1, "scaffold: one block or single bytes");
	size_t m = s == 1 ? n : s;
	if (m == 0) return 0;
	if (nondet_bool()) { failed = 1; return n == 1 ? 0 : nondet_size() % n; }
	if (g_b >= g_out && g_b - g_out < m) g_W = ((const char *)p)[g_b - g_out];
	g_out += m;
	return n;
}
static int lsq_fclose(FILE *f) { CALLEE((void *)f == fpmem && writing, "the temporary file is closed once"); writing = 0; fcloses++; if (nondet_bool()) { failed = 1; return EOF; } return 0; }
static int lsq_unlink(const char *n) { CALLEE(n == tmpname && tmpf_live && on_disk && !writing, "the temporary file is removed, closed, by its name"); on_disk = 0; unlinks++; return 0; }
static void lsq_free(void *p) { if (!p) return; CALLEE(p == tmpname && tmpf_live, "only the temporary name is freed, once"); tmpf_live = 0; }
#define fopen lsq_fopen
#define fwrite lsq_fwrite
#define fclose lsq_fclose
#define unlink lsq_unlink
#define free lsq_free
#ifndef LSQ_BOUNDED
#define LSQ_LOOP_squash_uncached_extract_0 __CPROVER_assigns(offset, ssize, size, __CPROVER_object_whole(buffer), g_pos, g_out, g_W, failed) __CPROVER_loop_invariant( \
	offset >= 0 && g_pos <= g_size && (uint64_t)offset == g_size - g_pos && g_out == g_pos && !failed && (g_b < g_out ==> g_W == g_B))
#endif
#include "cur/extract.c"
static bool have_dir;
SQUASH_OS_PATH stub_squash_tmpdir(void) { if (nondet_bool()) { failed = 1; return NULL; } return dirname_; }
SQUASH_OS_PATH stub_squash_tmpf(SQUASH_OS_PATH d, const char *ext) {
#ifdef LSQ_BOUNDED
	CALLEE(d == dirname_, "the name lies in the temporary directory");
#endif
	CALLEE(ext == the_ext && vopen, "the name has the extension asked for");
	if (nondet_bool()) { failed = 1; return NULL; }
	tmpf_live = 1;
	return tmpname;
}
void harness(void) {
	sqfs fs; char path[2], ext[2];
	the_fs = &fs; the_path = path; the_ext = nondet_bool() ? ext : NULL;
	tab[0] = tab[1] = tab[2] = NULL;
	squash_global_fdtable.fds = tab; squash_global_fdtable.nr = 3; squash_global_fdtable.end = 3;
	g_vfd = nondet_bool() ? 1 : 2;
	g_size = nondet_u64(); ASSUME(g_size <= INT64_MAX);
#ifdef LSQ_BOUNDED
	ASSUME(g_size <= 3 * 16384);
#endif
	F.node.xtra.reg.file_size = g_size;
	g_b = nondet_u64(); g_B = nondet_char(); g_W = nondet_char();
	vopen = closes = tmpf_live = unlinks = fcloses = 0; on_disk = writing = failed = 0; g_out = g_pos = 0;
	SQUASH_OS_PATH r = squash_uncached_extract(&fs, path, the_ext);
	POST(!vopen, "no descriptor is left open");
	POST(!writing, "nor the temporary file");
	if (r) {
		POST(r == tmpname && tmpf_live && on_disk && !failed, "the name of a complete file is returned");
		POST(g_out == g_size, "as long as the file");
		POST(IMPLIES(g_b < g_size, g_W == g_B), "with the same bytes");
		COVER(g_size == 0);
		COVER(g_size > 40000 && g_b == 20000);
	} else {
		POST(failed, "failure has a reason");
		POST(!on_disk && !tmpf_live, "and leaves no file and no name behind");
		COVER(unlinks == 1 && g_out > 0);
		COVER(fcloses == 1 && g_out == g_size && unlinks == 1);
		COVER(closes == 0);
	}
}
