/* Contract of the interception layer's mkdir.
 * @what a directory of the image is made in the overlay under the same name, EEXIST when the image has it; any other path is the system's
 * @source sample/enclose_io_unix.c
 * @fn enclose_io_mkdir
 * @variants CASE=1 | CASE=2 | CASE=3
 * @unwindset strncmp.0:22 io_setup.0:22 io_setup.1:22 io_setup.2:22
 * @fallback 22
 * @replace enclose_io_mkdir_workdir enclose_io_mkdir_consult
 * @trusted strlen, strnlen, strncmp, memcpy, strcpy, strcat as in C (ghost lengths); the name of the temporary overlay directory does not contain the mount prefix
 */
#include "lsq.h"
#include "io.h"
static bool nomem, freed; static size_t room;
static void *my_malloc(size_t n) { if (nomem) return NULL; CALLEE(!OVR, "scaffold: one buffer"); room = n; return OVR = __CPROVER_allocate(n, 0); }
static void my_free(void *p) { if (p) { CALLEE(p == (void *)OVR && !freed, "the name is released once"); freed = 1; } }
static char *my_strcpy(char *d, const char *s) { CALLEE(d == OVR && s == W && room > lw, "the overlay directory comes first"); if (in_w) d[ww] = W[ww]; d[lw] = 0; return d; }
static char *my_strcat(char *d, const char *s) {
	CALLEE(d == OVR && d[lw] == 0 && room > lw + lx && s[lx] == 0, "then the name");
	if (!in_w) d[lw + we] = s[we];
	d[lw + lx] = 0;
	return d;
}
static int sys, consulted, mode, inner, inner_errno, img; static int ret, img_r; static sqfs the_fs;
int mkdir(const char *s, mode_t m);
#define malloc my_malloc
#define free my_free
#define strcpy my_strcpy
#define strcat my_strcat
#include "cur/enclose_io_unix.c"
#undef malloc
#undef free
int stub_enclose_io_mkdir_consult(char *s, mode_t m) {
	CALLEE(s == OVR && !freed && m == mode && s[lw + lx] == 0 && (in_w ? s[ww] == w_ww : we >= lx || s[lw + we] == x_we), "the directory is made under the overlay directory");
	consulted++;
	errno = inner_errno;
	return inner;
}

static bool have_w;
char *stub_enclose_io_mkdir_workdir(void) { if (!W) { errno = nondet_int(); return NULL; } mkdir_workdir = W; return W; }
int squash_stat(sqfs *fs, const char *s, struct stat *b) {
	CALLEE(CASE != 3 && fs == &the_fs && s[lx] == 0 && exp_ok(s) && !img, "the image is asked for the name as seen from its working directory");
	img++;
	if (img_r) errno = lsq_err();
	return img_r;
}
int mkdir(const char *s, mode_t m) { CALLEE(CASE == 3 && s == P && m == mode, "the system gets the caller's arguments"); sys++; return ret; }
void harness(void) {
	io_setup(1);
	enclose_io_fs = &the_fs;
	mode = nondet_int(); inner = nondet_bool() ? 0 : -1; inner_errno = lsq_err(); img_r = nondet_bool() ? 0 : -1; ret = nondet_int();
	nomem = nondet_bool(); freed = 0; sys = consulted = img = 0;
	if (W && nondet_bool()) mkdir_workdir = NULL;
	int r = enclose_io_mkdir(P, mode);
#if CASE == 3
	POST(sys == 1 && !consulted && r == ret, "any other path is the system's");
	COVER(lc > 0); COVER(lp > 3000);
#else
	POST(!sys && freed == (OVR != NULL), "nothing is kept");
	if (!W || nomem) { POST(r == -1 && errno == (W ? ENOMEM : ENOENT), "without an overlay it fails"); COVER(!W); COVER(W); return; }
	POST(consulted == 1, "the directory is made in the overlay");
	POST(img_r == 0 ? r == -1 && errno == EEXIST : r == inner && errno == inner_errno, "EEXIST when the image has it, else what making it gave");
	COVER(r == 0); COVER(img_r == 0); COVER(we > SC + 1 && !in_w);
#endif
}
