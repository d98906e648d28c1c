/* Contracts of sqfs_inode_get, sqfs_md_cursor_inode, sqfs_inode_root, sqfs_mode.
 * @what every inode type decodes to exactly the fields the squashfs 4.0 format stores for it
 * @source src/fs.c src/nonstd-stat.c
 * @fn sqfs_inode_get sqfs_md_cursor_inode sqfs_decode_dev sqfs_inode_root sqfs_mode
 * @replace sqfs_md_read
 * @unwind 57
 * @nobody sqfs_table_get sqfs_table_init sqfs_table_destroy sqfs_decompressor_get MUTEX_INIT MUTEX_LOCK MUTEX_UNLOCK MUTEX_DESTORY sqfs_cache_get sqfs_cache_add sqfs_cache_invalidate sqfs_cache_destroy sqfs_block_cache_init sqfs_blockidx_init
 */
#include "lsq.h"
#include "squash/fs.h"
#include "cur/nonstd-stat.c"
#undef S_IFMT
#include "cur/fs.c"

/* the stream of metadata bytes at the inode; a cursor at stream position p is abstract:
   the first read must be at the cursor the inode id denotes, later ones wherever earlier reads ended */
static uint8_t st[64];
static int64_t base_block;
static uint64_t base_off;
struct cm { int64_t block; uint64_t off; };
static struct cm after[64];     /* an arbitrary, injective image of the positions after the base */
static uint64_t skipped;        /* bytes skipped with a NULL buffer */
static int fails;
static unsigned pos_of(const sqfs_md_cursor *c) {
	/* position 0 is the inode id itself; the others are marked in the high part of `block` */
	if (c->block == base_block && c->offset == base_off)
		return 0;
	return (unsigned)(c->block - base_block - 1000000);
}
sqfs_err stub_sqfs_md_read(sqfs *fs, sqfs_md_cursor *cur, void *buf, size_t size) {
	unsigned p = pos_of(cur);
	CALLEE(p < 64 && (p == 0 || cur->offset == p), "metadata is read from a cursor into this inode");
	if (nondet_bool()) {
		fails++;
		return SQFS_ERR;
	}
	if (buf) {
		CALLEE(p + size <= 64, "no more than an inode is read");
		CALLEE(__CPROVER_w_ok(buf, size), "the destination holds what is read");
		if (p == 0) {
			for (unsigned i = 0; i < 56; i++)
				if (i < size) ((uint8_t *)buf)[i] = st[i];
		} else if (p == 16) {
			for (unsigned i = 0; i < 48; i++)
				if (i < size) ((uint8_t *)buf)[i] = st[16 + i];
		} else
			__CPROVER_assert(0, "SCAFFOLD inodes are read whole or after their common header");
		cur->block = base_block + 1000000 + p + size;
		cur->offset = p + size;
	} else {
		skipped = size;
		cur->block = nondet_i64();
		cur->offset = nondet_u64();
	}
	return SQFS_OK;
}
#define B16(o) ((uint32_t)st[o] | (uint32_t)st[(o) + 1] << 8)
#define B32(o) (B16(o) | B16((o) + 2) << 16)
#define B64(o) ((uint64_t)B32(o) | (uint64_t)B32((o) + 4) << 32)
#define AT(n) (pos_of(&ino.next) == (n) && ino.next.offset == (n))
void harness(void) {
	sqfs fs;
	struct squashfs_super_block sb;
	sqfs_inode ino;
	sqfs_inode_id id;
	sqfs_err e;
	uint32_t t;
	__CPROVER_havoc_object(st);
	fs.sb = &sb;
	/* where inode references point: block relative to the inode table, offset inside the block */
	ASSUME(sb.inode_table_start < (1ull << 50));
	base_block = (int64_t)(id >> 16) + (int64_t)sb.inode_table_start;
	base_off = id & 0xffff;
	ASSUME(base_off < 8192);
	skipped = 0; fails = 0;
	t = B16(0);
	POST(sqfs_inode_root(&fs) == sb.root_inode, "the root inode is the one the superblock names");
	e = sqfs_inode_get(&fs, &ino, id);
	if (e != SQFS_OK) {
		POST(fails > 0 || t < 1 || t > 14, "every valid inode that can be read decodes");
		COVER(fails == 0);
		COVER(fails == 1 && t == 10);
		return;
	}
	POST(fails == 0 && t >= 1 && t <= 14, "an inode of unknown type, or that cannot be read, is refused");
	POST(ino.base.inode_type == t && (ino.base.mode & 07777) == (B16(2) & 07777) &&
	     ino.base.uid == B16(4) && ino.base.guid == B16(6) && ino.base.mtime == B32(8) && ino.base.inode_number == B32(12), "common header");
	static const mode_t kind[15] = { 0, 0040000, 0100000, 0120000, 0060000, 0020000, 0010000, 0140000,
		0040000, 0100000, 0120000, 0060000, 0020000, 0010000, 0140000 };
	ASSUME((B16(2) & ~07777u) == 0); /* the format stores permission bits only */
	POST(ino.base.mode == (B16(2) | kind[t]), "the mode is the stored permissions and the type");
	switch (t) {
	case 1:
		POST(ino.nlink == (int)B32(20) && ino.xtra.dir.start_block == B32(16) && ino.xtra.dir.dir_size == B16(24) &&
		     ino.xtra.dir.offset == B16(26) && ino.xtra.dir.parent_inode == B32(28) && ino.xtra.dir.idx_count == 0, "directory");
		COVER(1); break;
	case 8:
		POST(ino.nlink == (int)B32(16) && ino.xtra.dir.dir_size == B32(20) && ino.xtra.dir.start_block == B32(24) &&
		     ino.xtra.dir.parent_inode == B32(28) && ino.xtra.dir.idx_count == B16(32) && ino.xtra.dir.offset == B16(34), "extended directory");
		POST(AT(40), "the directory index follows the inode");
		COVER(1); break;
	case 2:
		POST(ino.nlink == 1 && ino.xtra.reg.start_block == B32(16) && ino.xtra.reg.frag_idx == B32(20) &&
		     ino.xtra.reg.frag_off == B32(24) && ino.xtra.reg.file_size == B32(28), "file");
		POST(AT(32), "the block list follows the inode");
		COVER(1); break;
	case 9:
		POST(ino.nlink == (int)B32(40) && ino.xtra.reg.start_block == B64(16) && ino.xtra.reg.file_size == B64(24) &&
		     ino.xtra.reg.frag_idx == B32(44) && ino.xtra.reg.frag_off == B32(48), "extended file");
		POST(AT(56), "the block list follows the extended inode");
		COVER(1); break;
	case 3: case 10:
		POST(ino.nlink == (int)B32(16) && ino.xtra.symlink_size == B32(20), "symbolic link");
		POST(AT(24), "the target follows the inode");
		COVER(t == 3); COVER(t == 10); break;
	case 4: case 5: case 11: case 12: {
		uint32_t r = B32(20);
		POST(ino.nlink == (int)B32(16), "device links");
		POST(ino.xtra.dev.major == (int)((r >> 8) & 0xfff) && ino.xtra.dev.minor == (int)((r & 0xff) | ((r >> 12) & 0xfff00)), "device number");
		COVER(t == 4); COVER(t == 12); break;
	}
	default:
		POST(ino.nlink == (int)B32(16), "fifo and socket links");
		COVER(t == 6); COVER(t == 14); break;
	}
}
