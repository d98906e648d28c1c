/* Contracts of sqfs_dir_lookup and of the predicate it passes to the index (sqfs_dir_ff_name_f).
 * @what a name is found in a directory exactly when it is there, with that entry's inode, however long the directory and whatever its index
 * @source src/dir.c
 * @fn sqfs_dir_lookup sqfs_dir_ff_name_f
 * @replace sqfs_dir_open sqfs_dir_ff_header sqfs_dir_next follow_link_links sqfs_dentry_name
 * @loop sqfs_dir_lookup 0
 * @fallback 5
 * @nobody sqfs_inode_get sqfs_inode_root squash_readlink_inode strstr sqfs_mode
 * @trusted strncmp(): compares bytes as unsigned up to n or a NUL (stub with that contract, over the abstract order)
 * @trusted a well-formed image lists a directory's entries in strict byte order, and an index entry carries the name of the first entry of its header
 *
 * Entries 0..N-1 are strictly sorted, so relative to the name sought every entry before some
 * g_m is smaller, and every one after is greater; entry g_m is the name itself or greater. */
#include "lsq.h"
#include "squash/dir.h"
#include "squash/fs.h"
uint8_t __CPROVER_uninterpreted_PFX(uint64_t);
uint16_t __CPROVER_uninterpreted_NL(uint64_t);
static uint64_t g_n, g_m, g_i;     /* entries; first not smaller; next to deliver */
static bool g_exists;
static size_t g_len;               /* length of the name sought */
static sqfs_err g_err;
#define REL(i) ((i) < g_m ? -1 : (i) == g_m && g_exists ? 0 : 1)
/* a greater name may have the sought one as a proper prefix; then it is longer */
#define PFX(i) (__CPROVER_uninterpreted_PFX(i) != 0)
#define SIZE(i) (REL(i) == 0 ? g_len : REL(i) > 0 && PFX(i) ? g_len + 1 + (__CPROVER_uninterpreted_NL(i) & 63) : 1 + (size_t)(__CPROVER_uninterpreted_NL(i) & 255))
#ifndef LSQ_BOUNDED
#define LSQ_LOOP_sqfs_dir_lookup_0 __CPROVER_assigns(g_i, g_err, g_term, g_cmp, dir.header.count, err, *found, entry->inode, entry->name_size, entry->type) __CPROVER_loop_invariant( \
	g_i <= g_n && g_i <= g_m && *found == 0 && g_err == SQFS_OK && err == SQFS_OK)
#endif
static const char *the_key; static char namebuf[8];
static uint64_t g_cmp;             /* the entry or index name in the buffer */
static bool g_term;                /* it has been terminated */
static int lsq_cmp(const char *a, const char *b, size_t n, bool isstr) {
	bool swap = a == the_key && b == namebuf;
	CALLEE((a == namebuf && b == the_key) || swap, "scaffold: the entry's name is compared with the name sought");
	CALLEE(n == g_len, "scaffold: over the length of the name sought");
	CALLEE(!isstr || g_term, "a name is compared as a string only once terminated");
	int r = nondet_int();
	int rel = REL(g_cmp);
	if (rel < 0) ASSUME(r < 0);
	else if (rel == 0 || PFX(g_cmp)) ASSUME(r == 0);
	else ASSUME(r > 0);
	return swap ? (r < 0 ? 1 : r > 0 ? -1 : 0) : r;
}
static int lsq_strncmp(const char *a, const char *b, size_t n) { return lsq_cmp(a, b, n, 1); }
static int lsq_memcmp(const void *a, const void *b, size_t n) {
	CALLEE(n <= SIZE(g_cmp), "scaffold: within the name");
	return lsq_cmp(a, b, n, 0);
}
#define strncmp lsq_strncmp
#define memcmp lsq_memcmp
#include "cur/dir.c"
static sqfs *the_fs; static sqfs_inode *the_ino; static sqfs_dir *the_dir; static sqfs_dir_entry *the_entry;
static int opened, ff;
uint64_t __CPROVER_uninterpreted_INO(uint64_t);
sqfs_err stub_follow_link_links(sqfs *fs, const char *path, sqfs_inode *node, int *links) { return SQFS_ERR; }
sqfs_err stub_sqfs_dir_open(sqfs *fs, sqfs_inode *inode, sqfs_dir *dir, off_t offset) {
	CALLEE(fs == the_fs && inode == the_ino && offset == 0, "the directory is listed from its start");
	the_dir = dir;
	opened = 1;
	g_i = 0;
	if (nondet_bool()) { g_err = SQFS_ERR; return g_err; }
	return SQFS_OK;
}
/* contract of sqfs_dir_ff_header with the predicate below: the last index entry whose name is not greater */
sqfs_err stub_sqfs_dir_ff_header(sqfs *fs, sqfs_inode *inode, sqfs_dir *dir, sqfs_dir_header_f func, void *arg) {
	sqfs_dir_ff_name_t *a = arg;
	CALLEE(opened == 1 && fs == the_fs && inode == the_ino && dir == the_dir && g_i == 0, "scaffold: the index of this directory");
	CALLEE(func == sqfs_dir_ff_name_f && a->cmp == the_key && a->cmplen == g_len && a->name == namebuf, "scaffold: searched for the name sought");
	if (nondet_bool()) { g_err = SQFS_ERR; return g_err; }
	uint64_t p = nondet_u64();
	ASSUME(p == 0 || (p < g_n && REL(p) <= 0));
	g_i = p;
	ff = 1;
	return SQFS_OK;
}
short stub_sqfs_dir_next(sqfs *fs, sqfs_dir *dir, sqfs_dir_entry *entry, sqfs_err *err) {
	CALLEE(fs == the_fs && dir == the_dir && opened == 1 && entry == the_entry && entry->name == namebuf, "the listing is stepped through into the caller's entry");
	*err = SQFS_OK;
	if (g_i >= g_n)
		return 0;
	if (nondet_bool()) { *err = g_err = SQFS_ERR; return 0; }
	entry->inode = __CPROVER_uninterpreted_INO(g_i);
	entry->name_size = SIZE(g_i);
	entry->type = nondet_int();
	dir->header.count = nondet_u32();
	g_cmp = g_i;
	g_term = 0;
	g_i++;
	return 1;
}
const char *stub_sqfs_dentry_name(sqfs_dir_entry *entry) {
	g_term = 1;
	return namebuf;
}
/* index names: the same order; cursor protocol */
static size_t g_isize; static int nread;
static sqfs_md_cursor *the_cur;
sqfs_err sqfs_md_read(sqfs *fs, sqfs_md_cursor *cur, void *buf, size_t size) {
	CALLEE(fs == the_fs && cur == the_cur && buf == namebuf && size == SIZE(g_cmp) && nread == 0, "the index name is read");
	nread = 1;
	if (nondet_bool()) { g_err = SQFS_ERR; return g_err; }
	namebuf[2] = 'x';
	return SQFS_OK;
}
void harness(void) {
	sqfs fs;
	sqfs_inode ino;
	sqfs_dir_entry e;
	sqfs_err r;
	short found;
	char key[1];
	static struct { char name[4]; char term[1]; } nm;
	the_fs = &fs; the_ino = &ino; the_entry = &e; the_key = key;
	opened = ff = 0; g_err = SQFS_OK; g_term = 0; nread = 0;
	g_n = nondet_u64(); g_m = nondet_u64(); g_exists = nondet_bool(); g_len = nondet_size();
	ASSUME(g_m <= g_n && (!g_exists || g_m < g_n) && g_len >= 1 && g_len <= 256);
	g_i = 0;
	if (nondet_bool()) {
		sqfs_dir_ff_name_t a;
		struct squashfs_dir_index x;
		sqfs_md_cursor c;
		short stop = 0;
		g_cmp = nondet_u64();
		ASSUME(g_cmp < g_n && SIZE(g_cmp) == 3);    /* the names' bytes are abstract: one length stands for all */
		x.size = SIZE(g_cmp) - 1;
		the_cur = &c;
		a.cmp = key; a.cmplen = g_len; a.name = namebuf;
		namebuf[3] = 'x';
		g_term = 1;
		r = sqfs_dir_ff_name_f(&fs, &c, &x, &stop, &a);
		if (r == SQFS_OK) {
			POST(nread == 1 && !!stop == (REL(g_cmp) > 0), "an index entry is rejected exactly when its name is greater than the name sought");
			POST(namebuf[3] == 0, "its name is terminated");
			COVER(stop);
			COVER(stop && PFX(g_cmp));
			COVER(!stop && REL(g_cmp) == 0);
			COVER(!stop && REL(g_cmp) < 0);
		} else
			POST(g_err == SQFS_ERR, "it fails only when the index cannot be read");
		return;
	}
	e.name = namebuf;
	r = sqfs_dir_lookup(&fs, &ino, key, g_len, &e, &found);
	POST((r != SQFS_OK) == (g_err != SQFS_OK), "it fails exactly when the directory cannot be read");
	if (r != SQFS_OK) {
		COVER(ff);
		return;
	}
	POST((found != 0) == g_exists, "a name is found exactly when an entry has it");
	if (g_exists)
		POST(e.inode == __CPROVER_uninterpreted_INO(g_m), "the entry found is the one with that name");
	COVER(g_exists && g_m > 3 && g_n > 10);
	COVER(!g_exists && g_m < g_n && PFX(g_m));
	COVER(!g_exists && g_m == g_n && g_n > 1);
}
