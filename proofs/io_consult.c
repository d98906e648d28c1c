/* Contract of enclose_io_mkdir_consult.
 * @what the directories of the image above the new one are mirrored in the overlay, outermost first, before it is made; nothing is made outside the overlay's name for the path
 * @source sample/enclose_io_unix.c
 * @fn enclose_io_mkdir_consult
 * @bounded overlay names of 1 byte, the scope shortened to "/s", names of up to 5 bytes below it, over '/' and 'a'
 * @arrays flat
 * @solver minisat
 * @unwind 11
 * @fallback 11
 */
#include "lsq.h"
#include "squash.h"
#include "enclose_io_common.h"
#undef assert
#define assert(e) __CPROVER_assert((e), "assertion of the code: " #e)
extern char *enclose_io_mkdir_scope;
#define NN 5
static char path[1 + 2 + NN + 1], orig[NN + 1], want[NN][NN + 2]; static int nwant, nmade, nstat, mode, ret; static bool isdir[NN], eof_err; static unsigned n, nfree, ndup, dups;
static sqfs the_fs;
static char *D;
size_t strlen(const char *s) { size_t i = 0; while (s[i]) i++; return i; }
char *strstr(const char *s, const char *t) { for (size_t i = 0; s[i]; i++) if (s[i] == '/' && s[i + 1] == 's') return (char *)s + i; return NULL; }
void *memmove(void *d, const void *s, size_t k) {
	char t[12]; CALLEE(k <= 12, "scaffold: short names");
	CALLEE(__CPROVER_r_ok(s, k) && __CPROVER_w_ok(d, k), "what is moved is inside its buffers");
	for (size_t i = 0; i < k; i++) t[i] = ((const char *)s)[i];
	for (size_t i = 0; i < k; i++) ((char *)d)[i] = t[i];
	return d;
}
static char *my_strdup(const char *s) { if (dups++ == 9) return NULL; char *r = malloc(1 + 2 + NN + 1); for (int i = 0; i < 8; i++) r[i] = s[i]; ndup++; return r; }
static void my_free(void *p) { if (p) nfree++; }
/* prefixes of the name below the scope, in order; the length of the k-th */
static unsigned plen[NN + 1]; static unsigned nplen;
int squash_stat(sqfs *fs, const char *s, struct stat *b) {
	CALLEE(fs == &the_fs && (unsigned)nstat < nplen, "the image is asked for each directory above, once");
	unsigned l = plen[nstat];
	bool same = s[0] == '/' && s[1] == 's' && s[2 + l] == 0;
	for (unsigned i = 0; i < l; i++) same = same && s[2 + i] == orig[i];
	CALLEE(same, "in order, by its name in the image");
	bool d = isdir[nstat++];
	if (!d) { if (nondet_bool()) return -1; b->st_mode = nondet_int(); ASSUME(!S_ISDIR(b->st_mode)); return 0; }
	b->st_mode = S_IFDIR;
	return 0;
}
static unsigned expect_made;
int mkdir(const char *s, mode_t m) {
	CALLEE(m == mode, "with the caller's mode");
	unsigned l = (unsigned)nmade < expect_made ? plen[nmade] : n;
	CALLEE((unsigned)nmade <= expect_made, "nothing more is made");
	bool same = s[0] == 'W' && s[1 + l] == 0;
	for (unsigned i = 0; i < l; i++) same = same && s[1 + i] == orig[i];
	CALLEE(same, "the overlay's name for the directory");
	if ((unsigned)nmade++ == expect_made) return ret;
	return nondet_bool() ? 0 : -1;
}
#define strdup my_strdup
#define free my_free
#include "cur/enclose_io_unix.c"
void harness(void) {
	enclose_io_mkdir_scope = "/s";
	enclose_io_fs = &the_fs;
	unsigned len = nondet_uint(); ASSUME(len <= NN);
	path[0] = 'W'; path[1] = '/'; path[2] = 's';
	n = 0; nplen = 0;
	for (unsigned i = 0; i < NN; i++) if (i < len) { orig[i] = nondet_bool() ? '/' : 'a'; path[3 + i] = orig[i]; if (orig[i] != '/') n = i + 1; }
	path[3 + len] = 0; orig[len] = 0;
	for (unsigned i = 1; i < NN; i++) if (i < n && orig[i] == '/') plen[nplen++] = i;
	expect_made = 0; bool go = 1;
	for (unsigned i = 0; i < NN; i++) { isdir[i] = nondet_bool(); if (i < nplen && go) { if (isdir[i]) expect_made++; else go = 0; } }
	mode = nondet_int(); ret = nondet_bool() ? 0 : -1; nmade = nstat = 0; nfree = ndup = dups = 0;
	bool below = n > 0 && orig[0] == '/';
	int r = enclose_io_mkdir_consult(path, mode);
	POST(nfree == ndup, "nothing is kept");
	if (!below) { POST(r == -1 && errno == ENOENT && !nmade, "the scope itself and its look-alikes are ENOENT"); COVER(len == 2); return; }
	POST((unsigned)nmade == expect_made + 1 && r == ret, "the directories above and then the directory itself are made, with the result of the last");
	COVER(expect_made == 2); COVER(expect_made == 1 && nplen == 2); COVER(n < len);
}
