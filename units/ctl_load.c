/*
 * Buffer primitives of fstrm-private.h under contract: fs_load_be32,
 * fs_load_bytes, fs_store_be32, fs_store_bytes.
 * The buffer is an object of symbolic size, so that any access outside
 * [*buf, *buf + *len) is caught by the verifier's bounds checks.
 */
#include "vf.h"

#define BUFMAX 600
static uint8_t mem[BUFMAX];	/* *buf points to mem + BUFMAX - *len: reads past the end fail */
static uint8_t other[BUFMAX];
static size_t gj;		/* tracked byte */

#define be_at(p) (((uint32_t)(p)[0] << 24) | ((uint32_t)(p)[1] << 16) | ((uint32_t)(p)[2] << 8) | (uint32_t)(p)[3])

/* memmove() by its libc contract, for the tracked byte (trusted). */
static void *
vf_memmove(void *d, const void *s, size_t n)
{
	PROVE(__CPROVER_r_ok(s, n), "memmove source readable");
	PROVE(__CPROVER_w_ok(d, n), "memmove target writable");
	uint8_t t = 0;
	if (gj < n) t = ((const uint8_t *)s)[gj];
	if (gj < n) ((uint8_t *)d)[gj] = t;
	return d;
}
#define memmove(d, s, n) ((__builtin_constant_p(n) && (n) == 4) ? (*(uint32_t *)(void *)(d) = *(const uint32_t *)(const void *)(s), (void *)(d)) : vf_memmove(d, s, n))
#include "fstrm/fstrm-private.h"

_Bool load_be32_c(const uint8_t **buf, size_t *len, uint32_t *val)
__CPROVER_requires(*len <= BUFMAX && *buf == mem + (BUFMAX - *len))
__CPROVER_assigns(*buf, *len, *val)
__CPROVER_ensures(__CPROVER_return_value == (__CPROVER_old(*len) >= 4))
__CPROVER_ensures(IMPL(__CPROVER_return_value,
	*buf == __CPROVER_old(*buf) + 4 && *len == __CPROVER_old(*len) - 4 && *val == be_at(__CPROVER_old(*buf))))
__CPROVER_ensures(IMPL(!__CPROVER_return_value,
	*buf == __CPROVER_old(*buf) && *len == __CPROVER_old(*len) && *val == __CPROVER_old(*val)))
;
_Bool store_be32_c(uint8_t **buf, size_t *len, const uint32_t val)
__CPROVER_requires(*len <= BUFMAX && *buf == mem + (BUFMAX - *len))
__CPROVER_assigns(*buf, *len, __CPROVER_object_whole(mem))
__CPROVER_ensures(__CPROVER_return_value == (__CPROVER_old(*len) >= 4))
__CPROVER_ensures(IMPL(__CPROVER_return_value,
	*buf == __CPROVER_old(*buf) + 4 && *len == __CPROVER_old(*len) - 4 && be_at(__CPROVER_old(*buf)) == val))
__CPROVER_ensures(IMPL(!__CPROVER_return_value, *buf == __CPROVER_old(*buf) && *len == __CPROVER_old(*len)))
;
_Bool load_bytes_c(uint8_t *bytes, size_t len_bytes, const uint8_t **buf, size_t *len)
__CPROVER_requires(*len <= BUFMAX && *buf == mem + (BUFMAX - *len) && len_bytes <= BUFMAX && bytes == other + (BUFMAX - len_bytes))
__CPROVER_assigns(*buf, *len, __CPROVER_object_whole(other))
__CPROVER_ensures(__CPROVER_return_value == (__CPROVER_old(*len) >= len_bytes))
__CPROVER_ensures(IMPL(__CPROVER_return_value,
	*buf == __CPROVER_old(*buf) + len_bytes && *len == __CPROVER_old(*len) - len_bytes))
__CPROVER_ensures(IMPL(__CPROVER_return_value && gj < len_bytes, bytes[gj] == __CPROVER_old(*buf)[gj]))
__CPROVER_ensures(IMPL(!__CPROVER_return_value, *buf == __CPROVER_old(*buf) && *len == __CPROVER_old(*len)))
;
_Bool store_bytes_c(uint8_t **buf, size_t *len, const uint8_t *bytes, size_t len_bytes)
__CPROVER_requires(*len <= BUFMAX && *buf == mem + (BUFMAX - *len) && len_bytes <= BUFMAX && bytes == other + (BUFMAX - len_bytes))
__CPROVER_assigns(*buf, *len, __CPROVER_object_whole(mem))
__CPROVER_ensures(__CPROVER_return_value == (__CPROVER_old(*len) >= len_bytes))
__CPROVER_ensures(IMPL(__CPROVER_return_value,
	*buf == __CPROVER_old(*buf) + len_bytes && *len == __CPROVER_old(*len) - len_bytes))
__CPROVER_ensures(IMPL(__CPROVER_return_value && gj < len_bytes, __CPROVER_old(*buf)[gj] == bytes[gj]))
__CPROVER_ensures(IMPL(!__CPROVER_return_value, *buf == __CPROVER_old(*buf) && *len == __CPROVER_old(*len)))
;

static void env(void) { __CPROVER_havoc_object(mem); __CPROVER_havoc_object(other); gj = nondet_size(); }

void h_load_be32(void)
{
	env();
	size_t len = nondet_size(); uint32_t v = nondet_u32();
	ASSUME(len <= BUFMAX);
	const uint8_t *b = mem + (BUFMAX - len);
	_Bool r = fs_load_be32(&b, &len, &v);
	COVER(r && v == 0x01020304, "loaded");
	COVER(!r, "short");
}
void h_store_be32(void)
{
	env();
	size_t len = nondet_size();
	ASSUME(len <= BUFMAX);
	uint8_t *b = mem + (BUFMAX - len);
	size_t q = nondet_size(), l0 = len;
	ASSUME(q < BUFMAX);
	uint8_t old = mem[q];
	_Bool r = fs_store_be32(&b, &len, nondet_u32());
	PROVE(IMPL(!r || q < BUFMAX - l0 || q >= BUFMAX - l0 + 4, mem[q] == old), "fs_store_be32 changes no other byte");
	COVER(r, "stored"); COVER(!r, "short");
}
void h_load_bytes(void)
{
	env();
	size_t len = nondet_size(), n = nondet_size();
	ASSUME(len <= BUFMAX && n <= BUFMAX);
	const uint8_t *b = mem + (BUFMAX - len);
	_Bool r = fs_load_bytes(other + (BUFMAX - n), n, &b, &len);
	COVER(r && n > 300, "loaded"); COVER(!r, "short");
}
void h_store_bytes(void)
{
	env();
	size_t len = nondet_size(), n = nondet_size();
	ASSUME(len <= BUFMAX && n <= BUFMAX);
	uint8_t *b = mem + (BUFMAX - len);
	_Bool r = fs_store_bytes(&b, &len, other + (BUFMAX - n), n);
	COVER(r && n > 300, "stored"); COVER(!r, "short");
}
