/* Ghost vocabulary shared by all contract harnesses. */
#ifndef LSQ_H
#define LSQ_H
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#include <string.h>
#include <stdlib.h>
#include <errno.h>
#include <assert.h>

/* a precondition of the function under contract, or the postcondition of a replaced callee */
#define ASSUME(c) __CPROVER_assume(c)
/* a postcondition of the function under contract */
#define POST(c, msg) __CPROVER_assert((c), "POST " msg)
/* a precondition of a callee, checked at the call site */
#define CALLEE(c, msg) __CPROVER_assert((c), "CALLEE-PRE " msg)
/* reachability: must FAIL, or the contract is vacuous */
#define COVER(c) __CPROVER_assert(!(c), "COVER " #c)
#define IMPLIES(a, b) (!(a) || (b))

_Bool nondet_bool(void);
int nondet_int(void);
short nondet_short(void);
unsigned nondet_uint(void);
uint8_t nondet_u8(void);
uint16_t nondet_u16(void);
uint32_t nondet_u32(void);
uint64_t nondet_u64(void);
int64_t nondet_i64(void);
size_t nondet_size(void);
char nondet_char(void);
static inline int lsq_err(void) { int e = nondet_int(); __CPROVER_assume(e > 0); return e; }
static inline int lsq_err0(void) { int e = nondet_int(); __CPROVER_assume(e >= 0); return e; }
void *nondet_ptr(void);

/* the repository's assert() stays an obligation */
#undef assert
#define assert(e) __CPROVER_assert((e), "assertion of the code: " #e)

#endif
