/* Contract of the interception layer's chdir.
 * @what a directory of the image becomes the virtual working directory (relative names against the one before); any other path is the system's and ends the virtual one; a failure leaves it
 * @source sample/enclose_io_unix.c
 * @solver cadical
 * @fn enclose_io_chdir
 * @variants CASE=1 | CASE=2 | CASE=3
 * @unwindset strncmp.0:22 io_setup.0:22 io_setup.1:22 io_setup.2:22 memcpy.0:22
 * @unwind 2
 * @timeout 420
 * @fallback 22
 * @replace enclose_io_chdir_helper
 * @trusted strlen, strnlen, strncmp, memcpy, memmove, strstr as in C (ghost lengths); the name of the temporary overlay directory does not contain the mount prefix
 * @nobody free malloc
 */
#include "lsq.h"
#define EXP_HEAD
#include "io.h"
#include "cur/enclose_io_unix.c"
static int sys, img, entered, probes, probe_r, mode; static long ret, img_r; static bool in_ovl;
static sqfs the_fs;
static bool same_ok(const char *s) { return s && s[lp] == 0 && s[we] == x_we; }
static bool name_ok(const char *s) { return s && s[lx] == 0 && exp_ok(s); }
int stat(const char *s, struct stat *b) { CALLEE(CASE != 3 && !probes && s == OVR && moved && ovr_ok(s), "the overlay is probed for the name"); probes++; return probe_r; }
int chdir(const char *s) {
	if (CASE == 3) CALLEE(same_ok(s), "the system gets the caller's path");
	else { CALLEE(s == OVR && moved && ovr_ok(s) && probes && probe_r == 0, "the system enters the overlay's directory of that name"); in_ovl = 1; }
	sys++;
	return ret;
}
int squash_stat(sqfs *fs, const char *s, struct stat *b) {
	CALLEE(CASE != 3 && fs == &the_fs && name_ok(s), "the image gets the name as seen from its working directory");
	img++;
	if (img_r == 0) b->st_mode = mode; else errno = lsq_err();
	return img_r;
}
void stub_enclose_io_chdir_helper(const char *s) { CALLEE(CASE != 3 && name_ok(s) && !entered && lx < PL, "the name becomes the virtual working directory"); entered++; }
void harness(void) {
	io_setup(1);
	enclose_io_fs = &the_fs;
	sys = img = entered = probes = 0; in_ovl = 0;
	probe_r = nondet_bool() ? 0 : -1; img_r = nondet_bool() ? 0 : -1; mode = nondet_int(); ret = nondet_bool() ? 0 : -1;
	char c0 = enclose_io_cwd[0];
	int r = enclose_io_chdir(P);
#if CASE == 3
	POST(sys == 1 && !img && !entered && r == ret, "any other path is the system's");
	POST(enclose_io_cwd[0] == (r == 0 ? 0 : c0), "and ends the virtual working directory, unless it fails");
	COVER(c0 && r == 0); COVER(c0 && r);
#else
	bool over = W && lw + SC < lo() && x_at(SC) == '/' && probe_r == 0;
	POST(enclose_io_cwd[0] == c0, "scaffold: the virtual working directory changes in one place");
	if (lx >= PL) { POST(r == -1 && errno == ENAMETOOLONG && !entered && !sys, "a path past the limit is ENAMETOOLONG"); COVER(1); return; }
	if (over) { POST(sys == 1 && in_ovl && r == ret && entered == (r == 0) && !img, "a directory of the overlay is entered there"); COVER(r == 0); COVER(r); }
	else {
		POST(img == 1 && !sys, "the image is asked");
		POST(r == (img_r == 0 && S_ISDIR(mode) ? 0 : -1) && entered == (r == 0), "exactly a directory of the image is entered");
		POST(r == 0 || errno != 0, "a failure has a reason");
		COVER(r == 0); COVER(img_r == 0 && r);
		COVER(W && probes);
	}
#endif
}
