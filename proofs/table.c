/* Contracts of sqfs_table_init, sqfs_table_get, sqfs_table_destroy.
 * @what entry idx of a table is read from the metadata block and offset the format prescribes
 * @source src/table.c
 * @fn sqfs_table_init sqfs_table_get sqfs_table_destroy
 * @variants EACH=4 | EACH=8 | EACH=16
 * @unwind 9
 */
#include "lsq.h"
#include "watch.h"
#include "squash/fs.h"
#define memcpy lsq_memcpy
#include "cur/table.c"

static uint8_t data[8192];
static sqfs_block blk;
static uint64_t want_pos;
static sqfs *the_fs;
static int calls;
sqfs_err sqfs_md_cache(sqfs *fs, sqfs_off_t *pos, sqfs_block **block) {
	calls++;
	CALLEE(fs == the_fs && (uint64_t)*pos == want_pos, "the metadata block listed for this entry is read");
	if (nondet_bool())
		return SQFS_ERR;
	*pos += nondet_u16();
	*block = &blk;
	return SQFS_OK;
}
#define NBLK 40
void harness(void) {
	sqfs fs;
	sqfs_table t;
	static uint8_t img[NBLK * 8 + 64];
	size_t start, count, idx, k;
	uint8_t out[EACH + 4], o0;
	sqfs_err e;
	__CPROVER_havoc_object(img);
	__CPROVER_havoc_object(data);
	blk.data = data;
	the_fs = &fs;
	ASSUME(start <= 64 && count >= 1 && count <= (size_t)NBLK * 8192 / EACH);
	e = sqfs_table_init(&t, img, start, EACH, count);
	POST(e == SQFS_OK, "a table in the image needs no allocation");
	POST((const uint8_t *)t.blocks == img + start && t.each == EACH, "the table lies where the superblock says");
	ASSUME(idx < count && k < EACH);
	blk.size = nondet_size();
	ASSUME(blk.size <= 8192 && (idx % (8192 / EACH)) * EACH + EACH <= blk.size); /* the image's blocks hold all entries */
	want_pos = 0;
	for (int i = 7; i >= 0; i--)
		want_pos = want_pos << 8 | img[start + idx / (8192 / EACH) * 8 + i];
	calls = 0;
	g_w = out + k;
	size_t sk = nondet_size();
	ASSUME(sk < 4);
	o0 = out[EACH + sk];
	e = sqfs_table_get(&t, &fs, idx, out);
	POST(calls == 1, "one metadata block is consulted");
	if (e == SQFS_OK) {
		POST(g_val == data[(idx % (8192 / EACH)) * EACH + k], "the entry is the idx-th of the table");
		COVER(idx == 5000);
	}
	POST(out[EACH + sk] == o0, "nothing is written past the entry");
	COVER(e != SQFS_OK);
	sqfs_table_destroy(&t);
	POST(t.blocks == NULL, "a destroyed table is empty");
}
