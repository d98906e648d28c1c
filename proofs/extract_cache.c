/* Contracts of squash_extract, squash_extract_cache_find, squash_extract_cache_insert and squash_extract_clear_cache.
 * @what a path of an image is extracted once and found again under a name of the cache's own, and clearing removes every extracted file once
 * @source src/extract.c
 * @fn squash_extract squash_extract_cache_find squash_extract_cache_insert squash_extract_clear_cache
 * @replace squash_uncached_extract
 * @unwind 6
 * @solver minisat
 * @bounded three extractions of any of two paths of any of two images, then clearing, then one more
 * @nobody squash_open squash_close squash_read fopen fwrite fclose getenv snprintf stat srand time getpid rand strlen
 * @trusted malloc, strdup, free, unlink as in C and POSIX
 */
#include "lsq.h"
#include "squash.h"
struct squash_fdtable squash_global_fdtable;
MUTEX squash_global_mutex;
static sqfs fs1, fs2;
static char caller[3];          /* the caller's buffer: it may change after the call */
static char names[4][2];        /* extracted files: number i exists on disk, is freed */
static bool on_disk[4], name_live[4], dup_live[4], nomem; static char dups[4][3]; static int n_ext, n_dup, n_free_entry, n_entry;
static sqfs *ext_fs[4]; static char ext_path[4];
static void *lsq_malloc(size_t n) { if (nondet_bool()) { nomem = 1; return NULL; } n_entry++; return malloc(n); }
static char *lsq_strdup(const char *s) {
	if (nondet_bool()) { nomem = 1; return NULL; }
	int i = n_dup++;
	dups[i][0] = s[0]; dups[i][1] = s[0] ? s[1] : 0; dups[i][2] = 0;
	dup_live[i] = 1;
	return dups[i];
}
static int lsq_strcmp(const char *a, const char *b) { return a[0] != b[0] ? 1 : a[0] == 0 ? 0 : a[1] != b[1]; }
static void lsq_free(void *p) {
	if (!p) return;
	for (int i = 0; i < 4; i++) {
		if (p == dups[i]) { CALLEE(dup_live[i], "a path is freed once"); dup_live[i] = 0; return; }
		if (p == names[i]) { CALLEE(name_live[i], "a name is freed once"); name_live[i] = 0; return; }
	}
	n_entry--;
	free(p);
}
static int lsq_unlink(const char *n) {
	for (int i = 0; i < 4; i++) if (n == names[i]) { CALLEE(on_disk[i] && name_live[i], "a file is removed once, before its name is freed"); on_disk[i] = 0; return 0; }
	CALLEE(0, "only extracted files are removed");
	return -1;
}
#define malloc lsq_malloc
#define strdup lsq_strdup
#define strcmp lsq_strcmp
#define free lsq_free
#define unlink lsq_unlink
#include "cur/extract.c"
static sqfs *now_fs; static const char *now_ext;
SQUASH_OS_PATH stub_squash_uncached_extract(sqfs *fs, const char *path, const char *ext) {
	CALLEE(fs == now_fs && path == caller && ext == now_ext, "what is asked for is extracted");
	if (nondet_bool()) return NULL;
	int i = n_ext++;
	on_disk[i] = name_live[i] = 1;
	ext_fs[i] = fs; ext_path[i] = path[0];
	return names[i];
}
static char *res[4];
static void one(int i) {
	sqfs *f = nondet_bool() ? &fs1 : &fs2;
	char c = nondet_bool() ? 'a' : 'b';
	caller[0] = c; caller[1] = 'x'; caller[2] = 0;
	now_fs = f; now_ext = nondet_bool() ? "so" : NULL;
	int before = n_ext; bool had = nomem, again = 0; int which = 0;
	for (int j = 0; j < 4; j++) if (j < before && on_disk[j] && ext_fs[j] == f && ext_path[j] == c) { again = 1; which = j; }
	char *r = squash_extract(f, caller, now_ext);
	res[i] = r;
	if (r) {
		int k = 4;
		for (int j = 0; j < 4; j++) if (r == names[j]) k = j;
		POST(k < n_ext && name_live[k] && on_disk[k], "the name of an extracted file is returned");
		POST(k < 4 && ext_fs[k] == f && ext_path[k] == c, "extracted from that image and path");
		POST(IMPLIES(again && !had, n_ext == before && k == which), "a path extracted before is not extracted again");
	} else POST(n_ext == before, "no name: nothing was extracted");
	caller[0] = 'z'; caller[1] = 0;
}
void harness(void) {
	squash_extract_cache = NULL;
	n_ext = n_dup = n_entry = 0; nomem = 0;
	for (int i = 0; i < 4; i++) on_disk[i] = name_live[i] = dup_live[i] = 0;
	one(0); one(1); one(2);
	COVER(n_ext == 3 && !nomem);
	COVER(n_ext == 1 && res[0] && res[0] == res[2]);
	bool nm = nomem;
	squash_extract_clear_cache();
	for (int i = 0; i < 4; i++) {
		POST(!dup_live[i], "clearing frees every path");
		POST(IMPLIES(!nm, !on_disk[i] && !name_live[i]), "and removes every file");
	}
	POST(n_entry == 0, "and every entry");
	int m = n_ext;
	if (!nm && n_ext < 4) {
		one(3);
		POST(IMPLIES(res[3], n_ext == m + 1), "after clearing a path is extracted anew");
		COVER(res[3]);
	}
	squash_extract_clear_cache();
}
