/*
 * libmy/vector.h under contract: the two growable arrays of the library (byte buffers; with -DVF_FS, content type
 * lists), every operation.  Representation: _n <= _n_alloced, _v is a block of _n_alloced elements, _p == &_v[_n].
 * Content is followed through an arbitrary element gk.  realloc is a constructive stub: a new block, the tracked
 * element moved, the old block dead.  The growing loops double, so they are unwound completely (up to 2^34 elements).
 */
#include "vf.h"
unsigned char __CPROVER_uninterpreted_fmt(size_t);
#define C1(c) COVER(c, "c")
static void *cur; static size_t curcap, gk; static unsigned n_re, n_fv, n_fo, n_ma; static void *OBJ; static _Bool mk;
static void *s_malloc(size_t), *s_calloc(size_t, size_t), *s_realloc(void *, size_t), *s_memcpy(void *, const void *, size_t); static void s_free(void *);
#define malloc s_malloc
#define calloc s_calloc
#define realloc s_realloc
#define memcpy s_memcpy
#define memmove s_memcpy
#define free s_free
static size_t s_strlen(const char *s); static int s_vsnprintf(char *b, size_t n, const char *f);
#undef strlen
#define strlen s_strlen
#undef vsnprintf
#define vsnprintf(b, n, f, a) s_vsnprintf(b, n, f)
#include "fstrm/fstrm-private.h"
#include "libmy/ubuf.h"
#ifdef VF_FS
#define V_(x) fs_bufvec_##x
typedef fs_bufvec vec; typedef fs_buf elt;
static _Bool eq(elt a, elt b) { return a.len == b.len && a.data == b.data; }
#else
#define V_(x) ubuf_##x
typedef ubuf vec; typedef uint8_t elt;
static _Bool eq(elt a, elt b) { return a == b; }
#endif
#define SZ sizeof(elt)
static void *fresh(size_t n) { cur = __CPROVER_allocate(n, 0); curcap = n; return cur; }
static void *s_malloc(size_t n) { PROVE(n > 0 && n < (size_t)1 << 40, "size"); n_ma++; return fresh(n); }
static const char *STR; static size_t SLEN; static int n_vs, vneed; static size_t voff;
static size_t s_strlen(const char *s) { PROVE(s == STR, "the text given"); return SLEN; }
static uint8_t fmt_(size_t i) { return __CPROVER_uninterpreted_fmt(i); }
static int s_vsnprintf(char *b, size_t n, const char *f)
{
	PROVE(f == STR, "the format given"); n_vs++; if (b == NULL) return vneed;
	PROVE(SAME(b, cur) && __CPROVER_w_ok(b, n) && n == (size_t)vneed + 1, "the text and its end fit"); size_t o = OFF(b); voff = o;
	if (gk >= o && gk - o < n) ((uint8_t *)cur)[gk] = gk - o < (size_t)vneed ? fmt_(gk - o) : 0;
	return vneed;
}
static void *s_calloc(size_t a, size_t n) { PROVE(OBJ == NULL && a < 1024 && n < 1024, "one object"); OBJ = __CPROVER_allocate(a * n, 1); return OBJ; }
static void *s_realloc(void *p, size_t n)
{
	PROVE(p == cur && cur != NULL, "the block in use is resized"); PROVE(n > 0 && n < (size_t)1 << 40, "size"); n_re++;
	elt *o = p; size_t oc = curcap; elt *q = fresh(n);
	if (gk < oc / SZ && gk < n / SZ) q[gk] = o[gk];
	return q;
}
static void *s_memcpy(void *d, const void *s, size_t n)
{
	if (n == 0) return d;
	PROVE(SAME(d, cur) && OFF(d) % SZ == 0 && n % SZ == 0, "copies whole elements into the block in use"); PROVE(__CPROVER_w_ok(d, n) && __CPROVER_r_ok(s, n), "in bounds");
	size_t o = OFF(d) / SZ; if (gk >= o && gk - o < n / SZ) ((elt *)cur)[gk] = ((const elt *)s)[gk - o];
	return d;
}
static void s_free(void *p) { if (p == NULL) return; if (p == cur) { n_fv++; PROVE(n_fo == 0, "before the object"); return; } PROVE(p == OBJ, "own"); n_fo++; }
static vec X; static size_t N0, A0, H0; static elt E0;
#ifdef VF_BOUNDED
#define AMAX 64
#else
#define AMAX ((size_t)1 << 33)
#endif
#define OKREP(x) ((x)->_n <= (x)->_n_alloced && (x)->_v == cur && curcap == (x)->_n_alloced * SZ && (x)->_p == (x)->_v + (x)->_n && (x)->_hint >= 1 && (x)->_n_alloced >= 1)
static void any(void)
{
	n_re = n_fv = n_fo = n_ma = 0; OBJ = NULL; gk = nondet_size(); N0 = nondet_size(); A0 = nondet_size(); H0 = nondet_size();
	ASSUME(A0 >= 1 && A0 <= AMAX && N0 <= A0 && H0 >= 1 && H0 <= AMAX);
	X._v = fresh(A0 * SZ); X._n = N0; X._n_alloced = A0; X._hint = H0; X._p = X._v + N0; if (gk < N0) E0 = X._v[gk];
}
static void keptn(size_t n) { PROVE(OKREP(&X), "well formed"); PROVE(X._hint == H0, "hint kept"); if (gk < n && gk < X._n) PROVE(eq(X._v[gk], E0), "elements kept"); }
static void kept(void) { PROVE(OKREP(&X), "well formed"); PROVE(X._hint == H0, "hint kept"); if (gk < N0 && gk < X._n) PROVE(eq(X._v[gk], E0), "elements kept"); }
void h_add(void)
{
	any(); elt e; V_(add)(&X, e); PROVE(X._n == N0 + 1, "one more"); kept(); if (gk == N0) PROVE(eq(X._v[gk], e), "the new element last");
	PROVE(n_re == (N0 == A0 ? 1 : 0), "grows when full"); C1(n_re == 1 && gk < N0); C1(n_re == 0 && gk == N0);
}
void h_reserve(void)
{
	any(); size_t k = nondet_size(); ASSUME(k <= AMAX); V_(reserve)(&X, k); kept(); PROVE(X._n == N0 && X._n_alloced - N0 >= k, "room for that many"); PROVE(X._n_alloced >= A0 && (X._n_alloced == A0 || X._n_alloced < 2 * (N0 + k)), "no more than twice what is needed");
	PROVE(V_(ptr)(&X) == X._v + N0 && __CPROVER_w_ok(V_(ptr)(&X), k * SZ), "the pointer is to that room");
	C1(n_re > 3 && gk < N0); C1(n_re == 0 && k > 0);
}
void h_append(void)
{
	any(); size_t k = nondet_size(); ASSUME(k <= AMAX && k >= 1); elt *s = __CPROVER_allocate(k * SZ, 0); size_t j = nondet_size(); elt sj; if (j < k) sj = s[j];
	V_(append)(&X, s, k); kept(); PROVE(X._n == N0 + k, "that many more"); if (j < k && gk == N0 + j) PROVE(eq(X._v[gk], sj), "the new elements in order");
	C1(n_re > 1 && j < k && gk == N0 + j); C1(n_re == 0 && gk < N0);
}
void h_extend(void)
{
	any(); vec Y; size_t k = nondet_size(); ASSUME(k <= AMAX && k >= 1); Y._n_alloced = k; Y._v = __CPROVER_allocate(k * SZ, 0); Y._n = nondet_size(); ASSUME(Y._n <= k); Y._p = Y._v + Y._n; Y._hint = 1; vec Y0 = Y; size_t j = nondet_size(); elt sj; if (j < Y._n) sj = Y._v[j];
	V_(extend)(&X, &Y); kept(); PROVE(X._n == N0 + Y0._n, "all of the other one"); if (j < Y0._n && gk == N0 + j) PROVE(eq(X._v[gk], sj), "in order");
	PROVE(Y._n == Y0._n && Y._v == Y0._v && Y._p == Y0._p && Y._n_alloced == Y0._n_alloced, "the other one is left alone"); if (j < Y._n) PROVE(eq(Y._v[j], sj), "with its elements");
	C1(n_re > 1 && j < Y._n && gk == N0 + j); C1(Y._n == 0);
}
void h_reinit(void)
{
	any(); unsigned h = nondet_uint(); V_(reinit)(h, &X); PROVE(OKREP(&X) && X._n == 0 && X._n_alloced == (h ? h : 1) && X._hint == X._n_alloced && n_ma == 1 && n_re == 0 && n_fv == 0, "empty, with a block of its own"); C1(h == 0); C1(h > 9);
}
#ifndef VF_FS
static uint8_t TXT[64]; static size_t tlen; 
void h_cstr(void) { any(); n_vs = 0; SLEN = nondet_size(); ASSUME(SLEN < AMAX); STR = __CPROVER_allocate(SLEN + 1, 0); ASSUME(STR[SLEN] == 0);
	uint8_t last = N0 ? X._v[N0 - 1] : 1; size_t n1 = N0 && last == 0 ? N0 - 1 : N0;
 uint8_t c = gk >= n1 && gk - n1 < SLEN ? STR[gk - n1] : 0; ubuf_add_cstr(&X, STR); keptn(n1); PROVE(X._n == n1 + SLEN, "the text is added, without the old end"); if (gk >= n1 && gk < X._n) PROVE(X._v[gk] == c, "its bytes"); C1(n1 < N0 && n_re > 0 && gk >= n1 && gk < X._n);  }
void h_fmt(void)
{
	any(); n_vs = 0; SLEN = nondet_size(); ASSUME(SLEN < AMAX); STR = __CPROVER_allocate(SLEN + 1, 0); ASSUME(STR[SLEN] == 0);
	uint8_t last = N0 ? X._v[N0 - 1] : 1; size_t n1 = N0 && last == 0 ? N0 - 1 : N0;
		vneed = nondet_int(); ASSUME(vneed >= 0 && vneed < INT_MAX); ubuf_add_fmt(&X, STR); keptn(n1); PROVE(X._n == n1 + vneed && n_vs == 2, "the formatted text is added, without the old end");
		if (gk >= n1 && gk < X._n) PROVE(X._v[gk] == fmt_(gk - n1), "its bytes"); C1(n1 < N0 && n_re > 0 && gk >= n1 && gk < X._n); C1(vneed == 0);
}
void h_text(void)
{
	any(); n_vs = 0; SLEN = nondet_size(); ASSUME(SLEN < AMAX); STR = __CPROVER_allocate(SLEN + 1, 0); ASSUME(STR[SLEN] == 0);
	uint8_t last = N0 ? X._v[N0 - 1] : 1; size_t n1 = N0 && last == 0 ? N0 - 1 : N0;
	unsigned op = nondet_uint();
	if (op == 1 || op == 2)
	{
		char *r = NULL; if (op == 1) ubuf_cterm(&X); else r = ubuf_cstr(&X); kept(); PROVE(X._n == n1 + 1 && IMPL(op == 2, r == (char *)X._v), "ends in one zero"); if (gk == X._n - 1) PROVE(X._v[gk] == 0, "zero");
		C1(op == 1 && n1 < N0); C1(op == 2 && n_re == 1 && gk == N0);
	}
	if (op == 3) { char c = nondet_int(); ubuf_rstrip(&X, c); kept(); PROVE(X._n == (N0 && last == (uint8_t)c ? N0 - 1 : N0) && n_re == 0, "that byte is dropped from the end"); C1(X._n < N0); }
	if (op == 5) { ASSUME(SLEN < UINT_MAX); ubuf *x = ubuf_dup_cstr(STR); PROVE(x == OBJ && OKREP(x) && x->_n == SLEN, "a copy of the text"); if (gk < SLEN) PROVE(x->_v[gk] == (uint8_t)STR[gk], "its bytes"); C1(SLEN > 3); }
	if (op == 6) { ubuf *x = ubuf_new(); PROVE(x == OBJ && OKREP(x) && x->_n == 0, "empty"); C1(1); }
}
#endif
void h_simple(void)
{
	any(); unsigned op = nondet_uint(); size_t k = nondet_size();
	if (op == 0) { V_(reset)(&X); kept(); PROVE(X._n == 0 && X._n_alloced <= A0 && (X._n_alloced == A0 || X._n_alloced == H0) && X._n_alloced <= (H0 > A0 ? A0 : H0), "empty, at most the hint kept"); C1(n_re == 1); }
	if (op == 1) { V_(clip)(&X, k); kept(); PROVE(X._n == (k < N0 ? k : N0) && n_re == 0 && X._n_alloced == A0, "shortened"); C1(k < N0); }
	if (op == 2) { ASSUME(k <= A0 - N0); V_(advance)(&X, k); kept(); PROVE(X._n == N0 + k && n_re == 0, "advanced"); C1(k > 2); }
	if (op == 3) { ASSUME(gk < N0); elt e = V_(value)(&X, gk); kept(); PROVE(eq(e, E0) && n_re == 0, "the element"); C1(1); }
	if (op == 4) { PROVE(V_(size)(&X) == N0 && V_(bytes)(&X) == N0 * SZ && V_(data)(&X) == X._v && V_(ptr)(&X) == X._v + N0, "accessors"); kept(); C1(1); }
	if (op == 5)
	{
		elt *o; size_t on; elt *v0 = X._v; V_(detach)(&X, &o, &on); PROVE(o == v0 && on == N0 && n_fv == 0, "hands the block out"); if (gk < N0) PROVE(eq(o[gk], E0), "with its elements");
		PROVE(OKREP(&X) && X._n == 0 && X._v != v0 && n_re == 0, "and starts anew"); C1(gk < N0);
	}
}
void h_life(void)
{
	any(); unsigned h = nondet_uint(); vec *x = V_(init)(h); PROVE(x == OBJ && x != NULL && n_ma == 1 && n_re == 0, "made"); PROVE(OKREP(x) && x->_n == 0 && x->_n_alloced == (h ? h : 1) && x->_hint == x->_n_alloced, "empty, with room for the hint"); C1(h == 0); C1(h > 100);
	_Bool d = nondet_bool(); vec *y = d ? x : NULL; V_(destroy)(&y); PROVE(y == NULL && n_fo == (d ? 1 : 0) && n_fv == (d ? 1 : 0), "freed once, nothing for no vector"); C1(d); C1(!d);
}
