/* Contracts of the interception layer's operations on paths.
 * @what a path under the mount prefix, or relative while the virtual working directory is set, acts on the image (or on the overlay where it has that name); any other goes to the system unchanged
 * @source sample/enclose_io_unix.c
 * @solver cadical
 * @fn enclose_io_is_path enclose_io_lstat enclose_io_stat enclose_io_readlink enclose_io_opendir enclose_io_scandir enclose_io_access enclose_io_if enclose_io_ifextract enclose_io_dlopen enclose_io_execv enclose_io_dos_return
 * @variants OP=1 CASE=1 | OP=1 CASE=2 | OP=1 CASE=3 | OP=2 CASE=1 | OP=2 CASE=2 | OP=2 CASE=3 | OP=3 CASE=1 | OP=3 CASE=2 | OP=3 CASE=3 | OP=4 CASE=1 | OP=4 CASE=2 | OP=4 CASE=3 | OP=5 CASE=1 | OP=5 CASE=2 | OP=5 CASE=3 | OP=6 CASE=1 | OP=6 CASE=2 | OP=6 CASE=3 | OP=8 CASE=1 | OP=8 CASE=2 | OP=8 CASE=3 | OP=9 CASE=1 | OP=9 CASE=2 | OP=9 CASE=3 | OP=10 CASE=1 | OP=10 CASE=2 | OP=10 CASE=3 | OP=11 CASE=1 | OP=11 CASE=2 | OP=11 CASE=3
 * @unwindset strncmp.0:22 io_setup.0:22 io_setup.1:22 io_setup.2:22
 * @fallback 22
 * @replace enclose_io__exec
 * @trusted strlen, strnlen, strncmp, memcpy, memmove, strstr as in C (ghost lengths); the name of the temporary overlay directory does not contain the mount prefix
 * @nobody free malloc
 */
#include "lsq.h"

#include "io.h"
#include "cur/enclose_io_unix.c"
static int sys, img, ovl, probes, probe_r; static const void *sa[3]; static long ia[3]; static long ret; static void *pret;
static sqfs the_fs;
static bool same_ok(const char *s) { return s && s[lp] == 0 && s[we] == x_we; }
static bool name_ok(const char *s) { return s && s[lx] == 0 && exp_ok(s); }
static bool over_ok(const char *s) { return s && s == OVR && moved && ovr_ok(s); }
static void sys_call(const char *s) {
	if (!REL && !IMG) { CALLEE(same_ok(s), "the system gets the caller's path"); sys++; }
	else { CALLEE(over_ok(s) && probe_r == 0 && probes, "the system gets a name of the image only as its overlay name, when that exists"); ovl++; }
}
static void img_call(sqfs *fs, const char *s) {
	CALLEE(REL || IMG, "the image gets only names of the image");
	CALLEE(fs == &the_fs && name_ok(s), "the image gets the name as seen from its working directory");
	img++;
}
#define ARGS2(x, y) CALLEE(sa[0] == (void *)(x) && ia[0] == (long)(y), "the other arguments are the caller's")
#define ARGP(x) CALLEE(sa[0] == (void *)(x), "the other arguments are the caller's")
int stat(const char *s, struct stat *b) {
	if ((REL || IMG) && !probes) { CALLEE(over_ok(s), "the overlay is probed for the name"); probes++; return probe_r; }
	ARGP(b); sys_call(s); return ret;
}
int lstat(const char *s, struct stat *b) { ARGP(b); sys_call(s); return ret; }
ssize_t readlink(const char *s, char *b, size_t n) { ARGS2(b, n); sys_call(s); return ret; }
DIR *opendir(const char *s) { sys_call(s); return pret; }
int scandir(const char *s, struct dirent ***l, int (*f)(const struct dirent *), int (*c)(const struct dirent **, const struct dirent **)) { ARGP(l); CALLEE(sa[1] == (void *)f && sa[2] == (void *)c, "the other arguments are the caller's"); sys_call(s); return ret; }
int access(const char *s, int m) { CALLEE(m == ia[0], "the mode asked for is the caller's"); sys_call(s); return ret; }
void *dlopen(const char *s, int m) { CALLEE(m == ia[0], "the mode is the caller's"); if (img) { CALLEE(s == pret, "the extracted file is loaded"); } else sys_call(s); return (void *)sa[1]; }
int execv(const char *s, char *const *a) { ARGP(a); sys_call(s); return ret; }
int stub_enclose_io__exec(const char *s, char *const *a) { ARGP(a); img_call(enclose_io_fs, s); return ret; }
int squash_stat(sqfs *fs, const char *s, struct stat *b) { if (OP != 6) ARGP(b); img_call(fs, s); return ret; }
int squash_lstat(sqfs *fs, const char *s, struct stat *b) { ARGP(b); img_call(fs, s); return ret; }
ssize_t squash_readlink(sqfs *fs, const char *s, char *b, size_t n) { ARGS2(b, n); img_call(fs, s); return ret; }
SQUASH_DIR *squash_opendir(sqfs *fs, const char *s) { img_call(fs, s); return pret; }
int squash_scandir(sqfs *fs, const char *s, struct SQUASH_DIRENT ***l, int (*f)(const struct SQUASH_DIRENT *), int (*c)(const struct SQUASH_DIRENT **, const struct SQUASH_DIRENT **)) { ARGP(l); CALLEE(sa[1] == (void *)f && sa[2] == (void *)c, "the other arguments are the caller's"); img_call(fs, s); return ret; }
int squash_open(sqfs *fs, const char *s) { img_call(fs, s); return ret; }
SQUASH_OS_PATH squash_extract(sqfs *fs, const char *s, const char *e) { if (OP == 9) CALLEE(e == sa[0], "the extension is the caller's"); img_call(fs, s); return pret; }

void harness(void) {
	io_setup(1);
	bool over;                                    /* the overlay is looked at: it exists and the name is below the prefix */
	static char any[4]; static struct stat st;
	enclose_io_fs = &the_fs;
	sys = img = ovl = probes = 0;
	probe_r = nondet_bool() ? 0 : -1;
	ret = nondet_int(); pret = nondet_bool() ? any : NULL;
	over = (REL || IMG) && W && lw + SC < lo() && x_at(SC) == '/';
	bool vis = over && probe_r == 0;
	long r = ret; void *rp = pret;
#if OP == 1
	sa[0] = &st; r = enclose_io_stat(P, &st);
#elif OP == 2
	sa[0] = &st; r = enclose_io_lstat(P, &st);
#elif OP == 3
	ret = nondet_i64(); sa[0] = any; ia[0] = nondet_i64(); r = enclose_io_readlink(P, any, ia[0]);
#elif OP == 4
	rp = enclose_io_opendir(P);
#elif OP == 5
	sa[0] = any; sa[1] = any + 1; sa[2] = any + 2;
	r = enclose_io_scandir(P, (void *)any, (void *)sa[1], (void *)sa[2]);
#elif OP == 6
	ia[0] = nondet_int(); sa[0] = &st; r = enclose_io_access(P, ia[0]);
#elif OP == 8
	POST(enclose_io_is_path(P) == IMG, "a path of the image starts with the mount prefix");
	POST(enclose_io_if(P) == (REL || IMG), "what goes to the image is what starts with the prefix or is relative to the virtual directory");
	COVER(lp > 100);
#elif OP == 9
	sa[0] = any; rp = (void *)enclose_io_ifextract(P, any);
	POST(REL || IMG ? img == 1 && rp == pret : img == 0 && rp == P, "a path of the image is extracted, any other is itself");
	COVER(lp > 100);
#elif OP == 10
	ia[0] = nondet_int(); sa[1] = any; rp = enclose_io_dlopen(P, ia[0]);
	POST(rp == sa[1] && img == (REL || IMG), "a library of the image is extracted and loaded");
	COVER(lp > 100);
#elif OP == 11
	sa[0] = any; r = enclose_io_execv(P, (void *)any);
	over = vis = 0;
#endif
#if OP < 8 || OP > 10
	POST(sys == (!REL && !IMG), "a call on any other path goes to the system, once");
	POST(img == ((REL || IMG) && !vis), "a call on a path of the image goes to the image, once");
	POST(ovl == vis, "a name the overlay has is the overlay's");
	POST(r == ret && rp == pret, "the result is that of the operation performed");
	COVER(lx > 3000 || CASE == 1); COVER(lp == 30);
#if OP != 11 && CASE != 3
	COVER(ovl); COVER(over && !vis);
#endif
#if CASE != 3
	COVER(img);
#endif
#if CASE == 1
	COVER(we == lc + 3 && lx > we); COVER(lx == PL);
#endif
#endif
}
