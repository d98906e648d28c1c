/* Contract of the interception layer's openat.
 * @what a path of the image, or relative to the virtual working directory (AT_FDCWD), is open's with the caller's flags and mode; any other is the system's, unchanged
 * @source sample/enclose_io_unix.c
 * @fn enclose_io_openat
 * @variants CASE=1 | CASE=2 | CASE=3
 * @unwindset strncmp.0:22 io_setup.0:22 io_setup.1:22 io_setup.2:22
 * @fallback 22
 * @replace enclose_io_open
 * @trusted strnlen, strncmp as in C (ghost lengths)
 * @nobody free malloc
 */
#include "lsq.h"

#include "io.h"
#include "cur/enclose_io_unix.c"
static int sys, opened, flags, mode, dfd; static long ret; static bool with_mode;
int openat(int d, const char *s, int fl, ...) {
	CALLEE(d == dfd && s == P && fl == flags, "the system gets the caller's arguments");
	if (with_mode) { va_list ap; va_start(ap, fl); CALLEE(va_arg(ap, int) == mode, "the mode is the caller's"); va_end(ap); }
	sys++;
	return ret;
}
int stub_enclose_io_open(int nargs, const char *s, int fl, ...) {
	CALLEE(s == P && fl == flags, "open gets the caller's path and flags");
	CALLEE(nargs == (with_mode ? 3 : 2), "open is told whether there is a mode");
	if (with_mode) { va_list ap; va_start(ap, fl); CALLEE(va_arg(ap, int) == mode, "the mode is the caller's"); va_end(ap); }
	opened++;
	return ret;
}
void harness(void) {
	io_setup(1);
	sys = opened = 0; ret = nondet_int(); flags = nondet_int(); mode = nondet_int(); with_mode = nondet_bool();
	dfd = nondet_bool() ? AT_FDCWD : nondet_int();
	int r = with_mode ? enclose_io_openat(4, dfd, P, flags, mode) : enclose_io_openat(3, dfd, P, flags);
	bool virt = IMG || (REL && dfd == AT_FDCWD);
	POST(opened == virt && sys == !virt, "exactly the names of the image are open's");
	POST(r == ret, "the result is that of the operation performed");
	COVER(sys || CASE == 2); COVER(with_mode && (opened || CASE == 3)); COVER(!with_mode);
}
