/* Contract of the interception layer's open.
 * @what a path of the image is opened in the image, or in the overlay where that has it; with O_CREAT it is made in the overlay, with the caller's flags and mode, after its directory; any other goes to the system unchanged
 * @source sample/enclose_io_unix.c
 * @solver cadical
 * @fn enclose_io_open enclose_io_dos_return
 * @variants CASE=1 CREATE=0 | CASE=2 CREATE=0 | CASE=3 CREATE=0 | CASE=1 CREATE=1 | CASE=2 CREATE=1 | CASE=3 CREATE=1
 * @unwindset strncmp.0:22 io_setup.0:22 io_setup.1:22 io_setup.2:22
 * @timeout 420
 * @fallback 22
 * @replace enclose_io_mkdir
 * @trusted strlen, strnlen, strncmp, memcpy, memmove, strstr, strrchr, strdup as in C (ghost lengths); the name of the temporary overlay directory does not contain the mount prefix
 * @nobody malloc
 */
#include "lsq.h"

#include "io.h"
#include "cur/enclose_io_unix.c"
static int sys, img, ovl, probes, probe_r, made; static long ret;
static int flags, mode; static bool three; static bool have_w, dup_fails;
static sqfs the_fs;
static char *DUP; static size_t ls; static bool slash, freed;
static bool same_ok(const char *s) { return s && s[lp] == 0 && s[we] == x_we; }
static bool name_ok(const char *s) { return s && s[lx] == 0 && exp_ok(s); }
static bool over_ok(const char *s) { return s && s == OVR && moved && ovr_ok(s); }
int stat(const char *s, struct stat *b) { CALLEE(!CREATE && !probes && (REL || IMG) && over_ok(s), "the overlay is probed for the name"); probes++; return probe_r; }
int open(const char *s, int fl, ...) {
	CALLEE(fl == flags, "the flags are the caller's");
	if (three && (CREATE || CASE == 3)) { va_list ap; va_start(ap, fl); CALLEE(va_arg(ap, int) == mode, "the mode is the caller's"); va_end(ap); }
	if (CASE == 3) { CALLEE(same_ok(s), "the system gets the caller's path"); sys++; }
	else { CALLEE(over_ok(s) && (CREATE ? made == slash : probe_r == 0 && probes), "the system gets a name of the image only as its overlay name"); ovl++; }
	return ret;
}
int squash_open(sqfs *fs, const char *s) { CALLEE(CASE != 3 && !CREATE && fs == &the_fs && name_ok(s), "the image gets the name as seen from its working directory"); img++; return ret; }
char *strdup(const char *s) {
	if (dup_fails) return NULL;
	CALLEE(s == P && !DUP, "scaffold: the path is copied");
	DUP = __CPROVER_allocate(lp + 1, 0);
	DUP[lp] = 0; DUP[we] = P[we];
	if (slash) DUP[ls] = '/';
	return DUP;
}
void free(void *p) { CALLEE(p == (void *)DUP && DUP && !freed, "what was copied is released, once"); freed = 1; }
char *strrchr(const char *s, int c) {
	CALLEE(c == '/' && s && s[lx] == 0 && exp_ok(s) && (s == EXP || (DUP && s == DUP)), "the last slash of the name is looked for");
	return slash ? (char *)s + ls : NULL;
}
int stub_enclose_io_mkdir(const char *s, mode_t m) {
	CALLEE(CREATE && CASE != 3 && slash && !made, "scaffold: the directory is made once");
	CALLEE(s[ls] == 0 && (we >= ls || s[we] == x_we), "the directory that is made is the one the name is in");
	made++;
	mkdir_workdir = W;             /* the overlay is there now, unless making it failed */
	errno = nondet_int();
	return nondet_bool() ? 0 : -1;
}
void harness(void) {
	io_setup(1);
	enclose_io_fs = &the_fs;
	probe_r = nondet_bool() ? 0 : -1;
	ret = nondet_int(); flags = nondet_int(); mode = nondet_int(); three = nondet_bool();
	dup_fails = nondet_bool(); slash = nondet_bool(); ls = nondet_size(); DUP = NULL; freed = 0; made = sys = img = ovl = probes = 0;
	ASSUME(!!(flags & O_CREAT) == CREATE);
	if (CREATE) ASSUME(three);
	/* the last slash; one in the directory the joined name starts with, or the first byte of the mount prefix, always exists */
	ASSUME(!slash || (ls < lx && x_at(ls) == '/'));
	ASSUME(we <= ls || x_we != '/' || !slash);
	if (CASE != 3) ASSUME(slash);
	if (CREATE && CASE != 3 && W && nondet_bool()) mkdir_workdir = NULL;      /* not made yet */
	bool below = W && lw + SC < lo() && x_at(SC) == '/';
	long r = three ? enclose_io_open(3, P, flags, mode) : enclose_io_open(2, P, flags);
#if CASE == 3
	POST(sys == 1 && !img && !ovl && r == ret, "any other path goes to the system, once");
	COVER(!three || CREATE); COVER(lx > 4000);
#elif CREATE
	bool nodup = CASE == 2 && dup_fails && !made;
	POST(!sys && !img, "nothing is made in the image or at the system's path of that name");
	POST(nodup || made == 1, "the directory is made first");
	POST(nodup ? r == -1 && !ovl : below ? ovl == 1 && r == ret : !ovl && r == -1, "the file is made in the overlay, or not at all");
	POST(CASE == 1 || DUP == NULL || freed, "nothing is kept");
	COVER(ovl); COVER(!below); COVER(nodup || CASE == 1); COVER(ls > SC + 5);
#else
	bool vis = below && probe_r == 0;
	POST(sys == 0 && img == !vis && ovl == vis && r == ret, "it is opened in the image, or in the overlay where that has it");
	COVER(img); COVER(ovl); COVER(below && !vis); COVER(we > SC + 3 && ovl);
#endif
}
