/* Contracts of sqfs_init, sqfs_destroy, sqfs_open_image, sqfs_version, sqfs_version_supported, sqfs_compression.
 * @what an image is accepted exactly when its magic, version and compression are supported and everything could be set up; otherwise the error says which, and nothing stays allocated
 * @source src/fs.c src/util.c
 * @fn sqfs_init sqfs_destroy sqfs_open_image sqfs_fd_open sqfs_fd_close sqfs_version sqfs_version_supported sqfs_compression
 * @unwind 2
 * @variants OFF=0 | OFF=40
 * @thorough OFF=1
 * @nobody sqfs_table_get sqfs_mode MUTEX_LOCK MUTEX_UNLOCK sqfs_cache_get sqfs_cache_add sqfs_cache_invalidate sqfs_cache_init fprintf fwrite __builtin_fwrite fputc fputs
 */
#include "lsq.h"
#include "squash/fs.h"
#include "squash/file.h"
#include "squash/util.h"
static void *fs_memset(void *d, int c, size_t n) {
	CALLEE(__CPROVER_w_ok(d, n), "memset stays inside the object");
	if (c == 0 && n == sizeof(sqfs))
		*(sqfs *)d = (sqfs){ 0 };
	else
		CALLEE(0, "scaffold: only a whole sqfs is cleared");
	return d;
}
#define memset fs_memset
#include "cur/fs.c"
#include "cur/util.c"
#define NOBJ 7
static int live[NOBJ], inits[NOBJ];      /* id frag export md data fragc idx */
static uint64_t t_start[3]; static size_t t_each[3], t_count[3];
static sqfs_fd_t t_fd[3];
static sqfs *the_fs;
static sqfs_decompressor g_dec; static int dec_type;
static int failed;
sqfs_err dummy_dec(void *a, size_t b, void *c, size_t *d) { return SQFS_OK; }
sqfs_decompressor sqfs_decompressor_get(sqfs_compression_type type) {
	dec_type = type;
	return g_dec;
}
static sqfs_err setup(int k) {
	CALLEE(k >= 0 && k < NOBJ, "a part of the file system is set up");
	CALLEE(!live[k] && inits[k] == 0, "each part is set up once");
	inits[k]++;
	if (nondet_bool()) { failed = 1; return nondet_bool() ? SQFS_ERR : SQFS_BADFORMAT; }
	live[k] = 1;
	return SQFS_OK;
}
sqfs_err sqfs_table_init(sqfs_table *t, sqfs_fd_t fd, sqfs_off_t start, size_t each, size_t count) {
	int k = t == &the_fs->id_table ? 0 : t == &the_fs->frag_table ? 1 : t == &the_fs->export_table ? 2 : -1;
	sqfs_err e = setup(k);
	t_start[k] = start; t_each[k] = each; t_count[k] = count; t_fd[k] = fd;
	return e;
}
void sqfs_table_destroy(sqfs_table *t) {
	int k = t == &the_fs->id_table ? 0 : t == &the_fs->frag_table ? 1 : t == &the_fs->export_table ? 2 : -1;
	CALLEE(k >= 0, "a table of this file system");
	live[k] = 0;
}
static int ck(sqfs_cache *c) {
	return c == &the_fs->md_cache ? 3 : c == &the_fs->data_cache ? 4 : c == &the_fs->frag_cache ? 5 : c == &the_fs->blockidx ? 6 : -1;
}
sqfs_err sqfs_block_cache_init(sqfs_cache *c, size_t count) {
	CALLEE(count >= 1 && ck(c) >= 3 && ck(c) <= 5, "a block cache holds at least one block");
	return setup(ck(c));
}
sqfs_err sqfs_blockidx_init(sqfs_cache *c) { CALLEE(ck(c) == 6, "the block index cache"); return setup(ck(c)); }
void sqfs_cache_destroy(sqfs_cache *c) { CALLEE(ck(c) >= 3, "a cache of this file system"); live[ck(c)] = 0; }
static int nlive(void) { return live[0] + live[1] + live[2] + live[3] + live[4] + live[5] + live[6]; }
void harness(void) {
	sqfs fs;
	uint8_t *img;
	size_t off;
	sqfs_err e;
	bool viaimg = nondet_bool();
	struct squashfs_super_block sb;
	static struct { uint8_t lead[64]; struct squashfs_super_block sb; } image;
	image.sb = sb;
	off = OFF;
	img = (uint8_t *)&image.sb - OFF;
	the_fs = &fs;
	g_dec = nondet_bool() ? dummy_dec : NULL;
	__CPROVER_array_set(live, 0);
	__CPROVER_array_set(inits, 0);
	failed = 0; dec_type = -1;
	e = viaimg ? sqfs_open_image(&fs, img, off) : sqfs_init(&fs, img, off);
	bool expt = sb.lookup_table_start != ~0ull;
	if (sb.s_magic != 0x73717368) {
		POST(e == SQFS_BADFORMAT, "a wrong magic is a bad format");
		COVER(viaimg);
	} else if (sb.s_major != 4 || sb.s_minor != 0) {
		POST(e == SQFS_BADVERSION, "only version 4.0 is supported");
		COVER(sb.s_minor == 1 && viaimg);
	} else if (!g_dec) {
		POST(e == SQFS_BADCOMP && dec_type == sb.compression, "an unsupported compression is reported as such");
		COVER(1);
	} else if (failed) {
		POST(e == SQFS_ERR, "a failed set-up is an error");
		COVER(inits[6] == 1);
	} else {
		POST(e == SQFS_OK, "a supported image is accepted");
		COVER(viaimg && expt);
		COVER(!expt);
	}
	if (e == SQFS_OK) {
		POST(live[0] && live[1] && live[2] == expt && live[3] && live[4] && live[5] && live[6], "every table and cache the image needs is set up");
		POST(fs.sb->s_magic == sb.s_magic && (uint8_t *)fs.sb == img + off && fs.fd == img && fs.offset == off && fs.decompressor == g_dec && dec_type == sb.compression, "the superblock at the offset is the one used, with its decompressor");
		POST(t_fd[0] == img && t_start[0] == sb.id_table_start + off && t_each[0] == 4 && t_count[0] == sb.no_ids, "the id table is where the superblock says, with its size");
		POST(t_fd[1] == img && t_start[1] == sb.fragment_table_start + off && t_each[1] == 16 && t_count[1] == sb.fragments, "the fragment table is where the superblock says, with its size");
		POST(IMPLIES(expt, t_fd[2] == img && t_start[2] == sb.lookup_table_start + off && t_each[2] == 8 && t_count[2] == sb.inodes), "the export table is where the superblock says, with its size");
		int ma, mi, a, b, c, d;
		sqfs_version(&fs, &ma, &mi);
		POST(ma == sb.s_major && mi == sb.s_minor, "the version is the image's");
		POST(sqfs_compression(&fs) == sb.compression, "the compression is the image's");
		sqfs_version_supported(&a, &b, &c, &d);
		POST(a == 4 && c == 4 && b == 0 && d == 0, "versions 4.0 to 4.0 are supported");
		sqfs_destroy(&fs);
		POST(nlive() == 0, "destroy releases everything");
	} else {
		POST(nlive() == 0, "a failed mount leaves nothing allocated");
	}
}
