/* Contract of squash_readdir.
 * @what the entry at the stream's position is delivered with its own number, type and name, positions advance one by one, and the end is reported without moving
 * @source src/dirent.c
 * @fn squash_readdir
 * @variants A0=0 LOC=0 | A0=0 LOC=1 | A0=0 LOC=2 | A0=1 LOC=0 | A0=1 LOC=1 | A0=1 LOC=2 | A0=2 LOC=0 | A0=2 LOC=2
 * @thorough A0=0 LOC=3 | A0=1 LOC=3 | A0=2 LOC=1 | A0=2 LOC=3 | A0=3 LOC=0 | A0=3 LOC=1 | A0=3 LOC=2 | A0=3 LOC=3
 * @arrays flat
 * @timeout 420
 * @solver minisat
 * @bounded streams of at most 3 entries in memory and positions up to 3 (each of these states; directories, names, allocation and failures unbounded)
 * @unwind 5
 * @nobody squash_open squash_open_inner squash_close sqfs_inode_get sqfs_inode_root sqfs_lookup_path_inner sqfs_dir_open MUTEX_LOCK MUTEX_UNLOCK calloc free strdup
 *
 * Entry i of the directory has number INO(i), type TY(i), a name of NSZ(i) bytes whose watched
 * byte g_c is NB(i). g_j is a watched entry: what is shown of it holds of every one. */
#include "lsq.h"
#include "squash.h"
uint32_t __CPROVER_uninterpreted_INO(uint64_t);
uint8_t __CPROVER_uninterpreted_TY(uint64_t);
uint8_t __CPROVER_uninterpreted_SZ(uint64_t);
uint8_t __CPROVER_uninterpreted_NB(uint64_t);
#define INO(i) __CPROVER_uninterpreted_INO(i)
#define TY(i) __CPROVER_uninterpreted_TY(i)
#define NSZ(i) ((size_t)__CPROVER_uninterpreted_SZ(i) + 1)      /* 1..256 */
#define NB(i) __CPROVER_uninterpreted_NB(i)
#define CUT(i) (NSZ(i) > sizeof(((struct dirent *)0)->d_name) - 1 ? sizeof(((struct dirent *)0)->d_name) - 1 : NSZ(i))
struct squash_fdtable squash_global_fdtable;
MUTEX squash_global_mutex;
static size_t g_c; static uint64_t g_j, g_n; static sqfs_err g_err; static bool g_eof;
static int g_dt(int t) {
	int b = t > 7 ? t - 7 : t;
	if (t < 1 || t > 14) return 0;
	return b == 1 ? 4 : b == 2 ? 8 : b == 3 ? 10 : b == 4 ? 6 : b == 5 ? 2 : b == 6 ? 1 : 12;
}
#define OKENT(x) ((x).sysentry.d_ino == INO(g_j) && (x).sysentry.d_type == g_dt(TY(g_j)) && (x).not_eof && \
	(g_c < CUT(g_j) ==> (uint8_t)(x).sysentry.d_name[g_c] == NB(g_j)) && (g_c == CUT(g_j) ==> (x).sysentry.d_name[g_c] == 0))
static int64_t a0;
static SQUASH_DIR D; 
static void *ent_memcpy(void *d, const void *s, size_t n) {
	CALLEE(__CPROVER_w_ok(d, n) && n <= 256, "scaffold: a name is copied");
	CALLEE(d == D.entries[D.actual_nr].sysentry.d_name && s == D.entries[D.actual_nr].name, "scaffold: into its own entry");
	CALLEE(n < sizeof(D.entries->sysentry.d_name), "the name and its terminator fit the entry");
	if (g_c < n) D.entries[D.actual_nr].sysentry.d_name[g_c] = D.entries[D.actual_nr].name[g_c];
	return d;
}
#define MAXL 3
#define SLOTS (MAXL + 2)
static size_t g_room;          /* bytes really allocated */
static void *lsq_realloc(void *p, size_t n) {
	CALLEE(p == D.entries && n % sizeof(*D.entries) == 0 && n / sizeof(*D.entries) >= D.nr, "the entries grow");
	if (nondet_bool()) return NULL;
	static __typeof__(*D.entries) q[SLOTS];
	__typeof__(*D.entries) x;
	if (g_j < D.nr && g_j < n / sizeof(*q) && g_j < (uint64_t)D.actual_nr) {
		for (int i = 0; i < A0; i++) { q[i] = x; ASSUME(q[i].not_eof == D.entries[i].not_eof); }
		ASSUME(q[g_j].sysentry.d_ino == D.entries[g_j].sysentry.d_ino && q[g_j].sysentry.d_type == D.entries[g_j].sysentry.d_type &&
			q[g_j].not_eof == D.entries[g_j].not_eof && (g_c >= 256 || q[g_j].sysentry.d_name[g_c] == D.entries[g_j].sysentry.d_name[g_c]));
	}
	g_room = n;
	return q;
}
#define memcpy ent_memcpy
#define realloc lsq_realloc
#include "cur/dirent.c"
void sqfs_dentry_init(sqfs_dir_entry *entry, char *namebuf) { entry->name = namebuf; }
short sqfs_dir_next(sqfs *fs, sqfs_dir *dir, sqfs_dir_entry *entry, sqfs_err *err) {
	uint64_t i = D.actual_nr;
	CALLEE((i + 1) * sizeof(*D.entries) <= g_room, "the slot is inside the allocation");
	CALLEE(fs == D.fs && dir == &D.dir && entry == &D.entries[i].entry, "the stream's listing is stepped through, into the next slot");
	CALLEE(entry->name == D.entries[i].name, "with a name buffer of its own");
	CALLEE(g_err == SQFS_OK && !g_eof, "nothing is read past an error or the end");
	*err = SQFS_OK;
	if (i >= g_n) { g_eof = 1; return 0; }
	if (nondet_bool()) { g_err = *err = SQFS_ERR; return 0; }
	D.entries[i].entry.inode_number = INO(i);
	D.entries[i].entry.type = TY(i);
	D.entries[i].entry.name_size = NSZ(i);
	if (g_c < NSZ(i)) D.entries[i].name[g_c] = NB(i);
	return 1;
}
void harness(void) {
	SQUASH_DIR x;
	sqfs fs;
	D = x; D.fs = &fs;
	g_c = nondet_size(); g_j = nondet_u64(); g_n = nondet_u64(); g_err = SQFS_OK; g_eof = 0;
	ASSUME(g_c <= 256 && g_n <= (1ull << 31));
	D.actual_nr = A0; D.loc = LOC;
	/* any stream: some entries are in memory, each as it should be */
	ASSUME(D.loc >= 0 && D.loc <= MAXL && D.nr <= (1ull << 34) && D.actual_nr >= 0 && (size_t)D.actual_nr <= D.nr && (uint64_t)D.actual_nr <= g_n);
	ASSUME(g_j <= MAXL);
	__typeof__(*D.entries) room[SLOTS];
	D.entries = D.nr ? room : NULL;
	g_room = D.nr * sizeof(*D.entries);
	a0 = D.actual_nr;
	for (int i = 0; i < A0; i++) ASSUME(D.entries[i].not_eof);
	if ((int64_t)g_j < a0) ASSUME(OKENT(D.entries[g_j]));
	long loc0 = D.loc;
	size_t nr0 = D.nr;
	void *e0 = D.entries;
	errno = 0;
	struct dirent *r = squash_readdir(&D);
	POST(D.fs == &fs && D.actual_nr >= a0 && (size_t)D.actual_nr <= D.nr && (uint64_t)D.actual_nr <= g_n, "entries already read are kept");
	POST(D.nr * sizeof(*D.entries) <= g_room, "the stream knows how much it has");
	POST(IMPLIES((int64_t)g_j < D.actual_nr, OKENT(D.entries[g_j])), "every entry in memory is as it is in the directory");
	if (r) {
		POST((uint64_t)loc0 < g_n, "an entry is delivered only where there is one");
		POST(D.loc == loc0 + 1, "the position advances by one");
		POST(loc0 < D.actual_nr && r == &D.entries[loc0].sysentry, "the entry at the position is delivered");
		COVER(1);
#if LOC > 0
		COVER(g_j == LOC - 1 && NSZ(g_j) == 4 && g_c == 3);
#endif
		COVER(g_j == LOC && NSZ(g_j) == 256 && g_c == 254);
		COVER(g_j == LOC && NSZ(g_j) == 256 && g_c == 255);
		COVER(g_j == LOC && NSZ(g_j) == 1 && g_c == 1);
	} else {
		POST(D.loc == loc0, "the position stays");
		POST(g_err != SQFS_OK || errno == ENOMEM || (uint64_t)loc0 >= g_n, "no entry: the end, an unreadable listing, or no memory");
		POST(IMPLIES(g_err != SQFS_OK, errno != 0), "an unreadable listing sets errno");
		POST(IMPLIES(g_err == SQFS_OK && errno != ENOMEM, errno == 0), "the end leaves errno alone");
		POST(IMPLIES(errno == ENOMEM, D.entries == e0 && D.nr == nr0), "without memory the stream stays as it was");
#if A0 <= LOC
		COVER(g_eof);
		COVER(g_err != SQFS_OK);
#endif
#if A0 == 0 || A0 <= LOC && LOC > 0
		COVER(errno == ENOMEM);
#endif
	}
}
