/* Memory primitives that check their whole range and transfer one symbolic ("watched") byte:
   g_w is the watched address, g_val its current value. Because g_w is arbitrary, what is
   proved for the watched byte holds for every byte. */
#ifndef WATCH_H
#define WATCH_H
#include "lsq.h"
uint8_t *g_w;
uint8_t g_val;
#define W_IN(d, n) (__CPROVER_POINTER_OBJECT(d) == __CPROVER_POINTER_OBJECT(g_w) && \
	__CPROVER_POINTER_OFFSET(g_w) >= __CPROVER_POINTER_OFFSET(d) && \
	__CPROVER_POINTER_OFFSET(g_w) - __CPROVER_POINTER_OFFSET(d) < (n))
static void *lsq_memcpy(void *d, const void *s, size_t n) {
	__CPROVER_assert(n == 0 || __CPROVER_r_ok(s, n), "CALLEE-PRE memcpy reads inside its source");
	__CPROVER_assert(n == 0 || __CPROVER_w_ok(d, n), "CALLEE-PRE memcpy writes inside its destination");
	if (W_IN(d, n))
		g_val = ((const uint8_t *)s)[__CPROVER_POINTER_OFFSET(g_w) - __CPROVER_POINTER_OFFSET(d)];
	return d;
}
static void *lsq_memset(void *d, int c, size_t n) {
	__CPROVER_assert(n == 0 || __CPROVER_w_ok(d, n), "CALLEE-PRE memset writes inside its destination");
	if (W_IN(d, n))
		g_val = (uint8_t)c;
	return d;
}
#endif
