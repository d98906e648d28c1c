/* Contracts of squash_tmpdir and squash_tmpf.
 * @what the temporary name is one that was not taken, in the directory the environment names
 * @source src/extract.c
 * @fn squash_tmpdir squash_tmpf
 * @unwind 66
 * @solver minisat
 * @arrays flat
 * @nobody squash_open squash_close squash_read fopen fwrite fclose unlink malloc strcmp free squash_uncached_extract
 * @trusted getenv, strdup, snprintf, stat, rand as in C and POSIX
 */
#include "lsq.h"
#include "squash.h"
#include <stdarg.h>
struct squash_fdtable squash_global_fdtable;
MUTEX squash_global_mutex;
static char v_tmpdir[4], v_tmp[4], v_temp[4]; static bool has1, has2, has3;
static char *lsq_getenv(const char *n) {
	if (n[0] == 'T' && n[1] == 'M' && n[2] == 'P' && n[3] == 'D') return has1 ? v_tmpdir : NULL;
	if (n[0] == 'T' && n[1] == 'M' && n[2] == 'P' && n[3] == 0) return has2 ? v_tmp : NULL;
	if (n[0] == 'T' && n[1] == 'E' && n[2] == 'M' && n[3] == 'P' && n[4] == 0) return has3 ? v_temp : NULL;
	return NULL;
}
static const char *dup_of; static char copy[8]; static bool nomem; static void *bufp; static int dups;
static char *lsq_strdup(const char *s) {
	dup_of = s; dups++;
	nomem = nondet_bool();
	if (nomem) return NULL;
	if (s == bufp) return copy;
	bool end = 0;
	for (int i = 0; i < 5; i++) { char c = end ? 0 : s[i]; if (!c) end = 1; copy[i] = c; }
	return copy;
}
static size_t lsq_strlen(const char *s) { size_t i = 0; while (s[i]) i++; return i; }
static int tries, taken; static char dirname_[3], ext_[3]; static const char *the_ext; static int last_rand;
static int lsq_rand(void) { return last_rand = nondet_int(); }
/* the name made: directory and extension are strings of any one or two characters, the number is one token */
#define NUM 1000
static int tok[64], ntok;
static void put(int c) { CALLEE(ntok < 64, "scaffold: longer than the names made here"); if (ntok < 64) tok[ntok++] = c; }
static int lsq_snprintf(char *b, size_t n, const char *f, ...) {
	va_list ap;
	CALLEE(__CPROVER_w_ok(b, n) && n > 0, "within the buffer");
	ntok = 0;
	va_start(ap, f);
	for (size_t i = 0; f[i]; i++) {
		if (f[i] != '%') { put((unsigned char)f[i]); continue; }
		i++;
		if (f[i] == 's') {
			const char *s = va_arg(ap, const char *);
			for (int k = 0; k < 3 && s[k]; k++) put((unsigned char)s[k]);
		} else if (f[i] == 'd' || f[i] == 'i' || f[i] == 'u' || f[i] == 'x') {
			CALLEE(va_arg(ap, int) == last_rand, "scaffold: the number is the one drawn");
			put(NUM);
		} else CALLEE(0, "scaffold: a format this harness cannot interpret");
	}
	va_end(ap);
	int k = 0;
	bool numbered = 0;
	for (int i = 0; i < 2 && dirname_[i]; i++) { CALLEE(tok[k] == (unsigned char)dirname_[i], "the name lies in the directory"); k++; }
	CALLEE(k < ntok && tok[k] == '/', "the name lies in the directory");
	for (int i = 0; i < 64; i++) if (i > k && i < ntok) { CALLEE(tok[i] != '/' || (the_ext && i >= ntok - 2), "directly in the directory"); if (tok[i] == NUM) numbered = 1; }
	CALLEE(numbered, "a number makes the name");
	if (the_ext) {
		int l = ext_[0] ? ext_[1] ? 2 : 1 : 0;
		CALLEE(ntok > l && tok[ntok - l - 1] == '.' && (l < 1 || tok[ntok - l] == (unsigned char)ext_[0]) && (l < 2 || tok[ntok - 1] == (unsigned char)ext_[1]), "and the extension asked for");
	}
	bufp = b; tries++;
	return nondet_bool() ? -1 : (int)(nondet_u16() & 0xff) + 10;
}
static bool last_free;
static int lsq_stat(const char *p, struct stat *st) {
	CALLEE(p == bufp, "the name made is the one looked for");
	last_free = nondet_bool();
	if (!last_free) taken++;
	return last_free ? -1 : 0;
}
#define getenv lsq_getenv
#define strdup lsq_strdup
#define strlen lsq_strlen
#define snprintf lsq_snprintf
#define rand lsq_rand
#define stat(a, b) lsq_stat(a, b)
#define srand(x) ((void)0)
#include "cur/extract.c"
void harness(void) {
	has1 = nondet_bool(); has2 = nondet_bool(); has3 = nondet_bool();
	for (int i = 0; i < 4; i++) { v_tmpdir[i] = i < 3 ? nondet_char() : 0; v_tmp[i] = i < 3 ? nondet_char() : 0; v_temp[i] = i < 3 ? nondet_char() : 0; }
	bufp = NULL; dups = 0;
	SQUASH_OS_PATH d = squash_tmpdir();
	const char *want = has1 ? v_tmpdir : has2 ? v_tmp : has3 ? v_temp : "/tmp";
	POST(IMPLIES(d == NULL, nomem), "there is always a temporary directory");
	if (d) {
		size_t n = lsq_strlen(want), m = lsq_strlen(d);
		POST(d == copy, "it is the caller's own copy");
		POST(m == n || (m == n - 1 && n >= 2 && want[n - 1] == '/'), "without a slash at its end");
		for (int i = 0; i < 4; i++) if ((size_t)i < m) POST(d[i] == want[i], "TMPDIR, TMP, TEMP and /tmp are tried in this order");
		POST(m < 2 || want[n - 1] != '/' || m == n - 1, "one slash at the end is cut");
		COVER(m == 2 && n == 3);
		COVER(!has1 && has2);
		COVER(n == 1 && want[0] == '/');
	}
	for (int i = 0; i < 2; i++) { dirname_[i] = nondet_char(); ext_[i] = nondet_char(); }
	the_ext = nondet_bool() ? ext_ : NULL;
	tries = taken = dups = 0; last_free = 0; nomem = 0;
	SQUASH_OS_PATH t = squash_tmpf(dirname_, the_ext);
	if (t) {
		POST(dups == 1 && dup_of == bufp && last_free, "the name returned was not taken");
		COVER(taken == 2);
	} else {
		POST(nomem || taken == 3 || !last_free, "no name: all that were tried were taken");
		COVER(taken == 3);
	}
}
