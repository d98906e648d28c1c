/* Contracts of sqfs_decompressor_get and the zlib decompressor.
 * @what only zlib images are accepted; decompression hands zlib exactly the input and the output bound and reports what it produced
 * @source src/decompress.c
 * @fn sqfs_decompressor_get sqfs_decompressor_zlib
 * @unwind 2
 * @trusted zlib uncompress(): produces the decompressed data of its input, never more than *destLen bytes
 */
#include "lsq.h"
#include "squash/fs.h"
#include <zlib.h>
static Bytef *z_d; static const Bytef *z_s; static uLong z_n, z_cap; static uLong z_out; static int z_ret, z_calls;
int ZEXPORT uncompress(Bytef *d, uLongf *dn, const Bytef *s, uLong n) {
	z_calls++; z_d = d; z_s = s; z_n = n; z_cap = *dn;
	z_out = nondet_u64();
	ASSUME(z_out <= *dn);
	z_ret = nondet_int();
	*dn = z_out;
	return z_ret;
}
#include "cur/decompress.c"
void harness(void) {
	int type = nondet_int();
	sqfs_decompressor d = sqfs_decompressor_get(type);
	POST((d != NULL) == (type == 1), "zlib (1) is supported, every other compression is refused");
	COVER(d == NULL);
	if (d) {
		uint8_t in[8], out[8];
		size_t n = nondet_size(), cap = nondet_size(), cap0 = cap;
		sqfs_err e = d(in, n, out, &cap);
		POST(z_calls == 1 && z_d == out && z_s == in && z_n == n && z_cap == cap0, "zlib is given the whole input and the whole output buffer");
		POST((e == SQFS_OK) == (z_ret == Z_OK), "success exactly when zlib succeeds");
		POST(IMPLIES(e == SQFS_OK, cap == z_out), "the size reported is what zlib produced");
		COVER(e == SQFS_OK);
		COVER(e != SQFS_OK);
	}
}
