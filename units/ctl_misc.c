/*
 * fstrm_control_reset/destroy/init, add_field, match, get/set accessors.
 * Element i of the vector has length elen(i); the tracked element gk has its data in blobk.
 */
#include "vf.h"
#include "ctl_vecmodel.h"
#include <string.h>

_Bool __CPROVER_uninterpreted_eqmatch(size_t);	/* the bytes of element i equal those of the match argument */
#define eqm __CPROVER_uninterpreted_eqmatch

static size_t nfree_el, nfree_k;	/* frees of element data, of the tracked element's data */
static size_t nfree_obj, nfree_vec;	/* frees of the control object, of the vector object */
static struct fstrm_control *gc; static void *gvec;
static uint8_t varr[1];			/* the vector's array */
static size_t nfree_arr;
static void *vf_realloc(void *p, size_t n) { PROVE(p == varr, "only the vector's array is resized"); return p; }
static void vf_free(void *p)
{
	if (p == blobk) { nfree_k++; nfree_el++; }
	else if (p == blob) nfree_el++;
	else if (p == varr) nfree_arr++;
	else if (p == gvec) nfree_vec++;
	else if (p == gc) nfree_obj++;
	else PROVE(p == NULL, "frees nothing else");
}
static uint8_t fresh[256]; static size_t nmalloc, gmsz;
static void *vf_malloc(size_t n) { nmalloc++; gmsz = n; PROVE(n <= sizeof fresh, "allocation of at most 256 bytes"); return fresh; }
#define malloc vf_malloc
#define realloc vf_realloc
#define free vf_free

static const uint8_t *gmatch; static size_t gmlen, gcur;
static _Bool gwit;			/* memcmp found an equal element */
static int vf_memcmp(const void *a, const void *b, size_t n)
{
	PROVE((a == blob || a == blobk) && b == gmatch, "compares an element with the argument");
	PROVE(n <= elen(gcur) && n <= gmlen, "compares within both");
	_Bool same = n == elen(gcur) && n == gmlen ? eqm(gcur) : nondet_bool();
	if (same && elen(gcur) == gmlen) gwit = 1;
	return same ? 0 : 1;
}
static uint8_t src[1]; static size_t ncpy; static size_t gcpy;
static void *vf_memcpy(void *d, const void *s, size_t n)
{
	PROVE(d == fresh && s == src && n == gmsz, "copies the whole content type into the new allocation");
	ncpy++; gcpy = n; return d;
}
#define memcmp vf_memcmp
#define memcpy vf_memcpy
#include "fstrm/fstrm-private.h"
static fs_buf
vf_value(fs_bufvec *v, size_t i)
{
	PROVE(i < v->_n, "element index within the vector");
	fs_buf e = { .len = elen(i), .data = i == gk ? blobk : blob };
	gcur = i;
	return e;
}
static size_t nadd; static fs_buf gadded;
static void vf_add(fs_bufvec *v, fs_buf e) { nadd++; gadded = e; v->_n++; }
#define fs_bufvec_value vf_value
#define fs_bufvec_add vf_add
static size_t nmatchable(const struct fstrm_control *c);
#include "fstrm/control.c"

#define SETUP(hint_) \
	fs_bufvec v = { 0 }; \
	struct fstrm_control cc = { nondet_u32(), &v }, *c = &cc; \
	v._n = nondet_size(); v._hint = 1; v._n_alloced = nondet_size(); v._v = (fs_buf *)(void *)varr; \
	gc = c; gvec = &v; gk = nondet_size(); \
	SMALL; ASSUME(v._n <= NMAX && v._n_alloced >= 1); \
	nfree_el = nfree_k = nfree_obj = nfree_vec = nfree_arr = nmalloc = nadd = ncpy = 0; gwit = 0
#ifdef VF_BOUNDED
# define SMALL ASSUME(v._n <= 4)
#else
# define SMALL (void)0
#endif

void reset_c(struct fstrm_control *c)
__CPROVER_requires(nfree_el == 0 && nfree_k == 0)
__CPROVER_assigns(c->type, c->content_types->_n, c->content_types->_n_alloced, c->content_types->_v, c->content_types->_p, nfree_el, nfree_k, gcur)
__CPROVER_ensures(c->type == 0 && c->content_types->_n == 0)
__CPROVER_ensures(nfree_el == __CPROVER_old(c->content_types->_n) && nfree_k == (gk < __CPROVER_old(c->content_types->_n) ? 1 : 0))
;
void h_reset(void)
{
	SETUP();
	size_t n0 = v._n;
	fstrm_control_reset(c);
	COVER(n0 == 3 && gk == 1, "three types");
	COVER(n0 == 0, "none");
}
void h_destroy(void)
{
	SETUP();
	size_t n0 = v._n;
	fstrm_control_destroy(&c);
	PROVE(c == NULL, "the handle is cleared");
	PROVE(nfree_el == n0 && nfree_k == (gk < n0), "every content type freed exactly once");
	PROVE(nfree_obj == 1 && nfree_vec == 1 && nfree_arr == 1, "object, vector and array freed exactly once");
	fstrm_control_destroy(&c);
	PROVE(nfree_obj == 1, "destroying a cleared handle does nothing");
	COVER(n0 == 2, "two types");
}
void reset_full_c(struct fstrm_control *c)
__CPROVER_requires(nfree_el == 0 && nfree_k == 0)
__CPROVER_assigns(c->type, c->content_types->_n, nfree_el, nfree_k)
__CPROVER_ensures(c->type == 0 && c->content_types->_n == 0)
__CPROVER_ensures(nfree_el == __CPROVER_old(c->content_types->_n) && nfree_k == (gk < __CPROVER_old(c->content_types->_n) ? 1 : 0))
;
static void check_add(const struct fstrm_control *c, size_t n0, fstrm_control_type t0, size_t len, fstrm_res r)
{
	PROVE(c->type == t0, "adding a content type does not change the frame type");
	if (len > 256) {
		PROVE(r == fstrm_res_failure && nadd == 0 && nmalloc == 0 && c->content_types->_n == n0, "an over-long content type is refused and nothing changes");
	} else {
		PROVE(r == fstrm_res_success, "a content type of at most 256 bytes is accepted");
		PROVE(nadd == 1 && c->content_types->_n == n0 + 1, "exactly one content type is added");
		PROVE(gadded.len == len && gadded.data == fresh && nmalloc == 1 && gmsz == len && IMPL(len > 0, ncpy == 1 && gcpy == len), "the added content type is a private copy of the argument");
	}
}
void h_addf(void)
{
	SETUP();
	size_t n0 = v._n; fstrm_control_type t0 = c->type;
	size_t len = nondet_size();
	fstrm_res r = fstrm_control_add_field_content_type(c, src, len);
	check_add(c, n0, t0, len, r);
	COVER(r == fstrm_res_success && len == 256, "added");
	COVER(r == fstrm_res_failure && len == 257, "refused");
}
static size_t nmatchable(const struct fstrm_control *c)
{
	if (c->type == FSTRM_CONTROL_STOP || c->type == FSTRM_CONTROL_FINISH) return 0;
	if (c->type == FSTRM_CONTROL_START && c->content_types->_n > 1) return 1;
	return c->content_types->_n;
}
static _Bool match_post(const struct fstrm_control *c, const uint8_t *match, size_t len, fstrm_res r)
{
	const size_t n = nmatchable(c);
	if (r != fstrm_res_success && r != fstrm_res_failure) return 0;
	if (c->type == FSTRM_CONTROL_STOP || c->type == FSTRM_CONTROL_FINISH) return r == fstrm_res_failure;
	if (n == 0) return r == fstrm_res_success;	/* no restriction: everything matches */
	if (match == NULL) return r == fstrm_res_failure;
	if (r == fstrm_res_success) return gwit;
	return IMPL(gk < n, !(elen(gk) == len && eqm(gk)));
}
fstrm_res match_c(const struct fstrm_control *c, const uint8_t *match, const size_t len_match)
__CPROVER_requires((match == NULL || match == src) && gmatch == match && gmlen == len_match && !gwit)
__CPROVER_assigns(gwit, gcur)
__CPROVER_ensures(match_post(c, match, len_match, __CPROVER_return_value))
;
void h_match(void)
{
	SETUP();
	gmatch = nondet_bool() ? NULL : src; gmlen = nondet_size();
	fstrm_res r = fstrm_control_match_field_content_type(c, gmatch, gmlen);
	COVER(r == fstrm_res_success && gwit && v._n == 3 && gcur == 2, "matches the third");
	COVER(r == fstrm_res_failure && v._n == 3 && c->type == 1 && gmatch && gk == 1, "no match");
	COVER(r == fstrm_res_success && v._n == 0, "no types");
}
void h_acc(void)
{
	SETUP();
	uint32_t t = nondet_u32(); size_t n0 = v._n;
	fstrm_control_type t0 = c->type, got = 77;
	fstrm_res r = fstrm_control_get_type(c, &got);
	PROVE((r == fstrm_res_success) == (t0 >= 1 && t0 <= 5), "get_type succeeds exactly for a defined type");
	PROVE(r == fstrm_res_success ? got == t0 : (r == fstrm_res_failure && got == 77), "get_type returns the type, or leaves the result alone");
	size_t n = nondet_size();
	r = fstrm_control_get_num_field_content_type(c, &n);
	PROVE(r == fstrm_res_success && n == nmatchable(c), "number of content types, none for STOP/FINISH and at most one for START");
	size_t idx = nondet_size(), l = 7; const uint8_t *p = src;
	r = fstrm_control_get_field_content_type(c, idx, &p, &l);
	if (idx < n0) PROVE(r == fstrm_res_success && l == elen(idx) && p == (idx == gk ? blobk : blob), "get_field returns the content type");
	else PROVE(r == fstrm_res_failure && l == 7 && p == src, "get_field fails past the end");
	PROVE(c->type == t0 && v._n == n0, "the accessors change nothing");
	r = fstrm_control_set_type(c, t);
	PROVE((r == fstrm_res_success) == (t >= 1 && t <= 5) && IMPL(r != fstrm_res_success, r == fstrm_res_failure), "set_type accepts exactly the defined types");
	PROVE(c->type == (r == fstrm_res_success ? t : t0) && v._n == n0, "set_type sets the type, or changes nothing");
	COVER(r == fstrm_res_success && idx < n0 && t0 == 9, "ok");
	COVER(r == fstrm_res_failure && idx >= n0 && t0 == 3, "refused");
}
/* Round trip lemma: over the contracts of encode (wire layout) and decode (recogniser). */
uint32_t __CPROVER_uninterpreted_be(size_t);
#define be __CPROVER_uninterpreted_be
void h_roundtrip(void)
{
	size_t n = nondet_size(), base = nondet_bool() ? 12 : 4, L = nondet_size(), i = 0, pos = base;
	uint32_t ty = nondet_u32(); _Bool stuck = 0;
	ASSUME(ty >= 1 && ty <= 5 && S(0) == 0 && n <= NMAX);
	/* encode_c: type, then n fields (n <= 1 for START, 0 for STOP/FINISH), total size base + S(n) <= 512 */
	ASSUME(IMPL(ty == 2, n <= 1) && IMPL(ty == 3 || ty == 5, n == 0));
	ASSUME(S(n) <= 512 && L == base + S(n) && L <= 512 && be(base - 4) == ty);
	if (base == 12) ASSUME(be(0) == 0 && be(4) == L - 8);
	while (i < n)
	__CPROVER_assigns(i, pos, stuck)
	__CPROVER_loop_invariant(i <= n && S(i) <= S(n) && pos == base + S(i) && !stuck)
	{
		S_def(i); ASSUME(elen(i) <= 256 && S(i + 1) <= S(n));	/* size_c, lemma mono */
		ASSUME(be(pos) == 1 && be(pos + 4) == elen(i));		/* encode_c, for gk == i */
		if (!(L - pos >= 8 && be(pos) == 1 && be(pos + 4) <= L - pos - 8 && be(pos + 4) <= 256)) stuck = 1;
		PROVE(be(pos + 4) == elen(i), "the recogniser reads back field i's length");
		pos += 8 + be(pos + 4); i++;
	}
	PROVE(!stuck && pos == L, "the recogniser takes all n fields and ends at the end of the frame");
	PROVE(L <= 520 && (base == 4 || (be(0) == 0 && be(4) == L - 8 && L - 8 <= 512)), "header accepted");
	COVER(n == 2 && base == 12, "two fields");
}
void h_init(void)
{
	nmalloc = 0; struct fstrm_control *x = fstrm_control_init(); size_t n = 1; fstrm_control_type t;
	PROVE(x != NULL && x->type == 0 && x->content_types != NULL && x->content_types->_n == 0, "a frame of no type, without content types");
	PROVE(x->content_types->_n_alloced >= 1 && x->content_types->_v == (fs_buf *)fresh && x->content_types->_p == x->content_types->_v && nmalloc == 1 && gmsz == x->content_types->_n_alloced * sizeof(fs_buf), "the vector is well formed");
	PROVE(fstrm_control_get_type(x, &t) == fstrm_res_failure && fstrm_control_get_num_field_content_type(x, &n) == fstrm_res_success && n == 0, "seen from outside");
	unsigned k = nondet_uint(); const char *s = fstrm_control_type_to_str(k), *f = fstrm_control_field_type_to_str(k); size_t l = 0, m = 0; while (s[l]) l++; while (f[m]) m++;
	PROVE(l > 0 && m > 0, "every type has a name"); COVER(k == FSTRM_CONTROL_READY, "ready"); COVER(k > 99, "unknown");
}
