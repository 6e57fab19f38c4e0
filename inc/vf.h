/*
 * Common vocabulary of the proof harnesses (verified with CBMC code contracts).
 * Nothing in here replaces code of /repo; units include the real .c files.
 */
#ifndef VF_H
#define VF_H
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>

size_t		nondet_size(void);
uint32_t	nondet_u32(void);
uint64_t	nondet_u64(void);
uint8_t		nondet_u8(void);
int		nondet_int(void);
unsigned	nondet_uint(void);
long		nondet_long(void);
_Bool		nondet_bool(void);
void *		nondet_ptr(void);

#define ASSUME(c)	__CPROVER_assume(c)
#define PROVE(c, msg)	__CPROVER_assert((c), msg)
/* Vacuity guard: this assertion must FAIL, else the path is unreachable. */
#define COVER(c, msg)	__CPROVER_assert(!(c), "VFCOVER " msg)
#define IMPL(a, b)	(!(a) || (b))

#define SAME(p, o)	__CPROVER_same_object((p), (o))
#define OFF(p)		((size_t)__CPROVER_POINTER_OFFSET(p))

#endif
