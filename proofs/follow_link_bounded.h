/* The stand-in for follow_link.c where its loop contracts no longer fit the source: at most three
 * links in the chain (any number followed before), the path length scaled from 2048 to 12, bases of a
 * few shapes. */
#include "lsq.h"
#include "squash/squashfs_fs.h"
#undef SQUASHFS_PATH_LEN
#define PL 12
#define SQUASHFS_PATH_LEN PL
#include "squash/dir.h"
#include "squash/fs.h"
static size_t lsq_strlen(const char *s) { size_t i = 0; while (s[i]) i++; return i; }
static void *lsq_memcpy(void *d, const void *s, size_t n) {
	CALLEE(__CPROVER_w_ok(d, n) && (!n || __CPROVER_r_ok(s, n)), "within the buffers");
	for (size_t i = 0; i < PL; i++) if (i < n) ((char *)d)[i] = ((const char *)s)[i];
	return d;
}
static char *lsq_strncpy(char *d, const char *s, size_t n) {
	CALLEE(__CPROVER_w_ok(d, n) && n <= PL, "within the buffers");
	bool end = 0;
	for (size_t i = 0; i < PL; i++) if (i < n) { if (!end) { CALLEE(__CPROVER_r_ok(s + i, 1), "a string is copied"); end = s[i] == 0; } d[i] = end ? 0 : s[i]; }
	return d;
}
#define strlen lsq_strlen
#define memcpy lsq_memcpy
#define strncpy lsq_strncpy
#define memset(p, c, n) ((void)(p))
#include "cur/dir.c"
static sqfs *the_fs; static sqfs_inode *the_node;
static const char *bases[] = { "l", "/a", "a/b", "/a/bc", "/aa/b/" };
static int left, followed, links0; static int *g_links;
static char base[PL], link_text[PL], want[PL];  /* where the link lies, what it says, what it names */
static bool rooted, is_link, read_done, too_long, cleared, clear_failed, missing, failed, got;
static uint64_t g_root;
ssize_t squash_readlink_inode(sqfs *fs, sqfs_inode *node, char *buf, size_t bufsize) {
	CALLEE(fs == the_fs && node == the_node && is_link && !rooted, "the link reached is read");
	CALLEE(__CPROVER_w_ok(buf, bufsize) && bufsize > 0 && bufsize <= PL, "into a buffer of its size");
	CALLEE(!failed && !missing && !clear_failed && !too_long, "nothing goes on after a failure");
	if (nondet_bool()) { failed = 1; return -1; }
	int n = nondet_int();
	ASSUME(n >= 1 && n < PL && n < (int)bufsize);
	for (int i = 0; i < PL; i++) if (i < (int)bufsize) {
		char c = nondet_char();
		ASSUME(i >= n || c != 0);
		buf[i] = link_text[i] = i < n ? c : 0;
	}
	read_done = 1; cleared = 0;
	/* what it names: itself when absolute, else put in the place of the base's last component */
	if (link_text[0] == '/') { for (int i = 0; i < PL; i++) want[i] = link_text[i]; too_long = 0; }
	else {
		int pos = lsq_strlen(base);
		while (pos > 0 && base[pos - 1] == '/') pos--;
		while (pos > 0 && base[pos - 1] != '/') pos--;
		too_long = pos + n >= PL;
		if (!too_long) for (int i = 0; i < PL; i++) want[i] = i < pos ? base[i] : i - pos < n ? link_text[i - pos] : 0;
	}
	return n;
}
sqfs_err stub_clear_dot_dot(char *p) {
	CALLEE(read_done && !too_long && __CPROVER_w_ok(p, PL), "scaffold: the path a relative link names is cleared");
	{ bool end = 0; for (int i = 0; i < PL; i++) { if (!end) CALLEE(p[i] == want[i], "a relative link starts from where it lies"); if (!want[i]) end = 1; } }
	if (nondet_bool()) { clear_failed = 1; return SQFS_ERR; }
	cleared = 1;
	for (int i = 0; i < PL; i++) { p[i] = i < PL - 1 ? nondet_char() : 0; want[i] = p[i]; }
	return SQFS_OK;
}
sqfs_inode_id sqfs_inode_root(sqfs *fs) { return g_root; }
sqfs_err sqfs_inode_get(sqfs *fs, sqfs_inode *inode, sqfs_inode_id id) {
	CALLEE(fs == the_fs && inode == the_node && id == g_root && read_done, "the walk to a link's target starts at the root");
	if (nondet_bool()) { failed = 1; return SQFS_ERR; }
	rooted = 1;
	return SQFS_OK;
}
sqfs_err stub_lookup_path_links(sqfs *fs, sqfs_inode *inode, const char *path, short *found, short follow, int *links) {
	CALLEE(fs == the_fs && inode == the_node && rooted && read_done && !follow, "the target is looked up from the root");
	CALLEE(links == g_links, "links on the way to it count as well");
	bool end = 0;
	for (int i = 0; i < PL; i++) {
		if (!end) CALLEE(path[i] == want[i], "the path the link names is looked up");
		if (!want[i]) end = 1;
	}
	followed++;
	CALLEE(*links == links0 + followed && *links <= SQUASHFS_MAX_LINK_LEVEL, "every link is counted, and no more than 32 are followed");
	rooted = read_done = 0;
	if (nondet_bool()) { failed = 1; return SQFS_ERR; }
	if (nondet_bool()) { missing = 1; *found = 0; return SQFS_OK; }
	*found = 1;
	is_link = nondet_bool();
	inode->base.mode = is_link ? S_IFLNK | 0777 : nondet_bool() ? S_IFREG | 0644 : S_IFDIR | 0755;
	got = 1;
	end = 0;
	for (int i = 0; i < PL; i++) { base[i] = end ? 0 : want[i]; if (!want[i]) end = 1; }
	return SQFS_OK;
}
void harness(void) {
	sqfs fs; sqfs_inode node; int links = nondet_int();
	the_fs = &fs; the_node = &node; g_root = nondet_u64();
	ASSUME(links <= SQUASHFS_MAX_LINK_LEVEL && links >= SQUASHFS_MAX_LINK_LEVEL - 3);
	links0 = links; g_links = &links;
	followed = 0; rooted = read_done = too_long = cleared = clear_failed = missing = failed = got = 0;
	is_link = 1; node.base.mode = S_IFLNK | 0777;
	bool over = 0;
	char path[PL + 1];
	{ bool end = 0; for (int i = 0; i < PL; i++) { char c = end ? 0 : bases[BASE][i]; if (!c) end = 1; path[i] = base[i] = c; } }
#if BASE == 0
	if (nondet_bool()) { over = 1; for (int i = 0; i < PL; i++) path[i] = 'a'; path[PL] = 0; }
#endif
	errno = 0;
	sqfs_err e = follow_link_links(&fs, path, &node, &links);
	if (e == SQFS_OK) {
		POST(got && !is_link && !failed && !missing && !clear_failed && !too_long && !over, "success: at the end of the chain is something that is no link");
		POST(followed >= 1 && links == links0 + followed, "every link followed is counted");
		COVER(followed == 3);
		COVER(followed == 1 && link_text[0] != '/');
	} else {
		POST(over || failed || missing || clear_failed || too_long || links > SQUASHFS_MAX_LINK_LEVEL, "failure has a reason");
		POST(IMPLIES(over, errno == ENAMETOOLONG && followed == 0), "a path too long is refused");
		POST(IMPLIES(missing || clear_failed, errno == ENOENT), "a target that is not there is reported as such");
		POST(IMPLIES(!over && !failed && !missing && !clear_failed && !too_long, errno == ELOOP && links0 + followed == SQUASHFS_MAX_LINK_LEVEL), "a chain of more than 32 links is a loop");
		COVER(errno == ELOOP && followed == 3);
		COVER(missing);
		COVER(too_long || BASE == 0);
		COVER(clear_failed);
	}
}
