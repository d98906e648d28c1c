/* Contracts of sqfs_lookup_path_inner and sqfs_lookup_path.
 * @what a path is walked from the inode given with no link counted yet, following a last link exactly when asked
 * @source src/dir.c
 * @solver minisat
 * @fn sqfs_lookup_path_inner sqfs_lookup_path
 * @replace lookup_path_links follow_link_links
 * @nobody sqfs_inode_get squash_readlink_inode sqfs_mode sqfs_md_read strstr strcmp strlen memmove memcpy memset strdup free sqfs_inode_root strncpy strncmp
 */
#include "lsq.h"
#include "squash/dir.h"
#include "squash/fs.h"
#include "cur/dir.c"
static sqfs *the_fs; static const char *the_path; static sqfs_inode *the_node; static short *the_found;
static short want_follow; static int walks; static sqfs_err ret; static short f;
sqfs_err stub_follow_link_links(sqfs *fs, const char *path, sqfs_inode *node, int *links) { CALLEE(0, "no link is followed before the walk"); return SQFS_ERR; }
sqfs_err stub_lookup_path_links(sqfs *fs, sqfs_inode *inode, const char *path, short *found, short follow, int *links) {
	CALLEE(fs == the_fs && inode == the_node && path == the_path && found == the_found, "the path given is walked from the inode given");
	CALLEE(!follow == !want_follow, "the last link is followed exactly when asked");
	CALLEE(*links == 0, "no link is counted yet");
	CALLEE(walks == 0, "it is walked once");
	walks++;
	*links = nondet_int();
	*found = f = nondet_short();
	return ret = nondet_bool() ? SQFS_OK : SQFS_ERR;
}
void harness(void) {
	sqfs fs; char path[2]; sqfs_inode node; short found = nondet_short();
	the_fs = &fs; the_path = path; the_node = &node; the_found = &found;
	walks = 0;
	sqfs_err e;
	bool outer = nondet_bool();
	want_follow = nondet_bool();
	if (outer) { want_follow = 0; e = sqfs_lookup_path(&fs, &node, path, &found); }
	else e = sqfs_lookup_path_inner(&fs, &node, path, &found, want_follow);
	POST(walks == 1 && e == ret && found == f, "what the walk says is reported");
	COVER(outer);
	COVER(want_follow && e == SQFS_OK);
}
