/* Contracts of sqfs_dir_next, sqfs_dir_md_read, sqfs_dir_open and the dentry accessors.
 * @what one step through a listing decodes the next entry where it lies, reads a new header exactly when a run is used up, and ends exactly at the listing's size
 * @source src/dir.c src/nonstd-stat.c
 * @fn sqfs_mode sqfs_dir_next sqfs_dir_md_read sqfs_dir_open sqfs_dentry_init sqfs_dentry_offset sqfs_dentry_next_offset sqfs_dentry_type sqfs_dentry_mode sqfs_dentry_inode sqfs_dentry_inode_num sqfs_dentry_name_size sqfs_dentry_name sqfs_dentry_is_dir
 * @replace sqfs_dir_ff_offset
 * @unwind 3
 * @fallback 3
 * @nobody sqfs_inode_get sqfs_inode_root squash_readlink_inode strstr
 */
#include "lsq.h"
#include "squash/dir.h"
#include "squash/fs.h"
static sqfs_dir *the_dir;
static sqfs *the_fs;
static char *the_name;
static struct squashfs_dir_header g_hdr; static struct squashfs_dir_entry g_ent;
static int phase;                 /* 0 header expected, 1 entry, 2 name, 3 done */
static sqfs_md_cursor g_cur;
static sqfs_err g_err;
static uint64_t g_reads;
#define memset dir_memset
static void *dir_memset(void *d, int c, size_t n) {
	CALLEE(n == sizeof(sqfs_dir) && c == 0, "scaffold: a whole sqfs_dir is cleared");
	*(sqfs_dir *)d = (sqfs_dir){ 0 };
	return d;
}
#include "cur/dir.c"
#undef memset
#include "cur/nonstd-stat.c"
sqfs_err sqfs_md_read(sqfs *fs, sqfs_md_cursor *cur, void *buf, size_t size) {
	CALLEE(fs == the_fs && cur == &the_dir->cur && cur->block == g_cur.block && cur->offset == g_cur.offset, "the listing is read on where the last read ended");
	CALLEE(phase < 3, "nothing is read after the name");
	CALLEE(phase != 0 || size == sizeof g_hdr, "a header has 12 bytes");
	CALLEE(phase != 1 || size == sizeof g_ent, "an entry has 8 bytes before its name");
	CALLEE(phase != 2 || (size == (size_t)g_ent.size + 1 && buf == the_name), "the name follows its entry");
	g_err = nondet_bool() ? SQFS_OK : nondet_bool() ? SQFS_ERR : SQFS_UNSUP;
	if (g_err) {	/* what was read before the failure may have been stored and passed over */
		cur->block = nondet_u64();
		cur->offset = nondet_size();
		if (phase == 0) { struct squashfs_dir_header part; *(struct squashfs_dir_header *)buf = part; }
		return g_err;
	}
	if (phase == 0) *(struct squashfs_dir_header *)buf = g_hdr;
	if (phase == 1) *(struct squashfs_dir_entry *)buf = g_ent;
	phase++;
	g_reads += size;
	cur->block = g_cur.block = nondet_u64();
	cur->offset = g_cur.offset = nondet_size();
	return SQFS_OK;
}
static int ffcalls; static sqfs_err ff_ret;
sqfs_err stub_sqfs_dir_ff_offset(sqfs *fs, sqfs_inode *inode, sqfs_dir *dir, sqfs_off_t offset) { ffcalls++; ff_ret = nondet_bool() ? SQFS_OK : SQFS_ERR; return ff_ret; }
void harness(void) {
	sqfs fs;
	struct squashfs_super_block sb;
	sqfs_dir d, d0;
	sqfs_dir_entry e, e0;
	sqfs_err err;
	struct squashfs_dir_header h0; struct squashfs_dir_entry x0;
	char nb[4];
	the_fs = &fs; fs.sb = &sb; the_dir = &d; g_hdr = h0; g_ent = x0; ffcalls = 0; g_reads = 0; g_err = SQFS_OK;
	if (nondet_bool()) {
		sqfs_inode ino;
		off_t off;
		ASSUME(ino.xtra.dir.dir_size >= 3);	/* the format counts dot and dot-dot */
		err = sqfs_dir_open(&fs, &ino, &d, off);
		if (!S_ISDIR(ino.base.mode)) {
			POST(err != SQFS_OK, "only a directory can be listed");
			COVER(1);
			return;
		}
		POST(ffcalls == (off != 0) && err == (off ? ff_ret : SQFS_OK), "a listing may be opened at an offset");
		POST(d.cur.block == ino.xtra.dir.start_block + sb.directory_table_start && d.cur.offset == ino.xtra.dir.offset, "the listing starts where the inode says, in the directory table");
		POST(d.offset == 0 && d.total == (sqfs_off_t)ino.xtra.dir.dir_size - 3 && d.header.count == 0, "nothing is consumed; the size excludes the 3 bytes of dot and dot-dot");
		COVER(off == 0);
		COVER(off != 0 && err == SQFS_OK);
		return;
	}
	d0 = d; e0 = e;
	/* a header never announces 2^32 entries (the format allows 256) */
	ASSUME(g_hdr.count != 0xffffffffu);
	ASSUME(d.offset >= 0 && d.offset < (1ll << 40));
	the_name = nondet_bool() ? nb : NULL;
	g_cur = d.cur;
	phase = d.header.count == 0 ? 0 : 1;
	sqfs_dentry_init(&e, the_name);
	POST(e.name == the_name, "an entry uses the buffer it is given");
	short r = sqfs_dir_next(&fs, &d, &e, &err);
	if (d0.header.count == 0 && d0.offset >= d0.total) {
		POST(!r && err == SQFS_OK && g_reads == 0, "at the end of the listing there is no entry and no error");
		POST(d.offset == d0.offset && d.header.count == 0, "and it stays the end");
		COVER(1);
	} else if (g_err != SQFS_OK) {
		POST(!r && err == g_err, "a failed read is reported");
		POST(d.cur.block == d0.cur.block && d.cur.offset == d0.cur.offset && d.offset == d0.offset && d.total == d0.total && d.header.count == d0.header.count &&
			d.header.start_block == d0.header.start_block && d.header.inode_number == d0.header.inode_number, "and consumes nothing: the same entry can be asked for again");
		COVER(phase == 2);
	} else {
		POST(r && err == SQFS_OK && phase == 3, "otherwise there is an entry, and its name is read");
		struct squashfs_dir_header *h = d0.header.count == 0 ? &g_hdr : &d0.header;
		uint32_t left = d0.header.count == 0 ? g_hdr.count + 1 : d0.header.count;
		POST(d.header.count == left - 1 && d.header.start_block == h->start_block && d.header.inode_number == h->inode_number, "one entry of the run is used up");
		POST(sqfs_dentry_offset(&e) == d0.offset, "the entry's offset is where the step started");
		POST(sqfs_dentry_next_offset(&e) == d.offset && (uint64_t)d.offset == d0.offset + g_reads, "the next offset is where it ended");
		POST(sqfs_dentry_type(&e) == g_ent.type && sqfs_dentry_name_size(&e) == (size_t)g_ent.size + 1, "type and name length");
		POST(sqfs_dentry_inode(&e) == ((uint64_t)h->start_block << 16) + g_ent.offset, "the inode reference combines the header's block with the entry's offset");
		POST(sqfs_dentry_inode_num(&e) == (uint32_t)(h->inode_number + (int16_t)g_ent.inode_number), "the inode number is the header's plus a signed difference");
		int t = g_ent.type;
		if (t >= 1 && t <= 14) {
			mode_t m = sqfs_dentry_mode(&e);
			int b = t > 7 ? t - 7 : t;
			mode_t w = b == 1 ? S_IFDIR : b == 2 ? S_IFREG : b == 3 ? S_IFLNK : b == 4 ? S_IFBLK : b == 5 ? S_IFCHR : b == 6 ? S_IFIFO : S_IFSOCK;
			POST(m == w && !!sqfs_dentry_is_dir(&e) == (b == 1), "the type gives the mode");
		}
		if (the_name && g_ent.size + 1 < 4) {
			nb[g_ent.size + 1] = 'x';
			const char *n = sqfs_dentry_name(&e);
			POST(n == nb && nb[g_ent.size + 1] == 0, "a name is terminated after its length");
			COVER(1);
		}
		POST(IMPLIES(!the_name, sqfs_dentry_name(&e) == NULL), "no buffer, no name");
		POST(d.total == d0.total, "the listing's size is unchanged");
		COVER(d0.header.count == 0);
		COVER(d0.header.count == 1 && d0.offset >= d0.total);
		COVER((int16_t)g_ent.inode_number < 0);
	}
}
