/*
 * fstrm_control_encoded_size() and fstrm_control_encode() against the grammar.
 */
#include "vf.h"
#include "ctl_vecmodel.h"
#include "fstrm/fstrm-private.h"

static size_t g_size; static _Bool g_size_ok;	/* what encoded_size answers */
static size_t g_mono;			/* S is monotone up to here (lemma ctl.mono) */
static _Bool g_long;			/* set if a visited element was too long */

static fs_buf
vf_value(fs_bufvec *v, size_t i)
{
	PROVE(i < v->_n, "element index within the vector");
	S_def(i);
	ASSUME(IMPL(i < g_mono, S(i + 1) <= S(g_mono)));
	ASSUME(IMPL(i < gk && gk <= g_mono, S(i + 1) <= S(gk)));
	ASSUME(IMPL(gk < i, S(gk + 1) <= S(i)));
	S_def(gk);
	ASSUME(IMPL(g_size_ok && i < g_mono, elen(i) <= 256));	/* encoded_size_c, for gk == i */
	if (elen(i) > 256) g_long = 1;
	fs_buf e = { .len = elen(i), .data = i == gk ? blobk : blob };
	return e;
}
#define fs_bufvec_value vf_value

static uint8_t out[1];			/* identity of the output buffer */
static size_t gcap;			/* its size */
static size_t gpos;			/* bytes written so far: stores must be consecutive */
static uint32_t g_w0, g_w4;		/* words stored at offsets 0 and 4 */
static uint32_t g_k0, g_k4;		/* words stored at the tracked field's offset, and 4 behind */
static const uint8_t *g_kdata; static size_t g_klen, g_kpos;
static _Bool g_kdone;
static size_t gbase;			/* offset of the first field */
static uint32_t g_wt;			/* word stored at gbase - 4: the frame type */

static _Bool
vf_store_be32(uint8_t **buf, size_t *len, const uint32_t val)
{
	PROVE(SAME(*buf, out) && OFF(*buf) == gpos && *len <= gcap - gpos && gpos <= gcap, "fs_store_be32 within the buffer");
	if (*len < 4) return 0;
	if (gpos == 0) g_w0 = val;
	if (gpos == 4) g_w4 = val;
	if (gpos + 4 == gbase) g_wt = val;
	if (gk < g_mono && gpos >= gbase && gpos == gbase + S(gk)) g_k0 = val;
	if (gk < g_mono && gpos >= gbase && gpos == gbase + S(gk) + 4) g_k4 = val;
	gpos += 4; *len -= 4; *buf += 4;
	return 1;
}
static _Bool
vf_store_bytes(uint8_t **buf, size_t *len, const uint8_t *bytes, size_t n)
{
	PROVE(SAME(*buf, out) && OFF(*buf) == gpos && *len <= gcap - gpos && gpos <= gcap, "fs_store_bytes within the buffer");
	if (*len < n) return 0;
	if (gk < g_mono && gpos >= gbase && gpos == gbase + S(gk) + 8 && bytes == blobk) { g_kdata = bytes; g_klen = n; g_kpos = gpos; g_kdone = 1; }
	gpos += n; *len -= n; *buf += n;
	return 1;
}
#define fs_store_be32 vf_store_be32
#define fs_store_bytes vf_store_bytes
#include "fstrm/control.c"

/* number of content type fields that go out, from the specification */
static size_t
nenc(const struct fstrm_control *c)
{
	if (c->type == FSTRM_CONTROL_STOP || c->type == FSTRM_CONTROL_FINISH) return 0;
	if (c->type == FSTRM_CONTROL_START && c->content_types->_n > 1) return 1;
	return c->content_types->_n;
}
static _Bool
size_post(const struct fstrm_control *c, fstrm_res r, size_t len, size_t old_len, uint32_t flags)
{
	const size_t n = nenc(c), full = ((flags & 1) ? 12 : 4) + S(n);
	if (r == fstrm_res_success)
		/* the exact size, within the limits: every field is at most 256 (tracked field), total at most 512 */
		return len == full && full <= 512 && S(n) <= 512 && IMPL(gk < n, elen(gk) <= 256 && S(gk) + 8 + elen(gk) <= S(n));
	/* refused: only because of an over-long type or an over-long frame */
	return r == fstrm_res_failure && len == old_len && (full > 512 || g_long);
}
fstrm_res encoded_size_c(const struct fstrm_control *c, size_t *len_control_frame, const uint32_t flags)
__CPROVER_requires(c->content_types->_n <= NMAX && S(0) == 0)
__CPROVER_assigns(*len_control_frame, g_long)
__CPROVER_ensures(size_post(c, __CPROVER_return_value, *len_control_frame, __CPROVER_old(*len_control_frame), flags))
;
fstrm_res vf_encoded_size(const struct fstrm_control *c, size_t *len_control_frame, const uint32_t flags)
__CPROVER_assigns(*len_control_frame, g_size, g_size_ok)
__CPROVER_ensures(g_size_ok == (__CPROVER_return_value == fstrm_res_success))
__CPROVER_ensures(IMPL(!g_size_ok, __CPROVER_return_value == fstrm_res_failure && *len_control_frame == __CPROVER_old(*len_control_frame)))
__CPROVER_ensures(IMPL(g_size_ok, *len_control_frame == g_size && g_size == ((flags & 1) ? 12 : 4) + S(nenc(c)) && S(nenc(c)) <= 512 && g_size <= 512 &&
	IMPL(gk < nenc(c), elen(gk) <= 256 && S(gk) + 8 + elen(gk) <= S(nenc(c)))))
;
static _Bool
encode_post(const struct fstrm_control *c, fstrm_res r, size_t cap, size_t *len, uint32_t flags)
{
	const size_t n = nenc(c);
	if (!g_size_ok || cap < g_size)
		return r == fstrm_res_failure && *len == cap && gpos == 0;	/* refused before a byte is written */
	if (r != fstrm_res_success || *len != g_size || gpos != g_size) return 0;
	if ((flags & 1) && (g_w0 != 0 || g_w4 != g_size - 8)) return 0;
	if (g_wt != c->type) return 0;
	if (gk < n && !(g_k0 == 1 && g_k4 == elen(gk) && g_kdone && g_kdata == blobk && g_klen == elen(gk) && g_kpos == gbase + S(gk) + 8)) return 0;
	return 1;
}
fstrm_res encode_c(const struct fstrm_control *c, void *control_frame, size_t *len_control_frame, const uint32_t flags)
__CPROVER_requires(c->content_types->_n <= NMAX && S(0) == 0 && control_frame == out && gcap == *len_control_frame && gpos == 0 && !g_kdone && gbase == ((flags & 1) ? 12 : 4))
__CPROVER_assigns(*len_control_frame, g_size, g_size_ok, g_long, gpos, g_w0, g_w4, g_wt, g_k0, g_k4, g_kdata, g_klen, g_kpos, g_kdone)
__CPROVER_ensures(encode_post(c, __CPROVER_return_value, __CPROVER_old(*len_control_frame), len_control_frame, flags))
;

void h_size(void)
{
	fs_bufvec v = { 0 };
	struct fstrm_control c = { nondet_u32(), &v };
	ASSUME(c.type <= 5);
	v._n = nondet_size(); gk = nondet_size(); g_long = 0; g_size_ok = 0; g_mono = 0;
#ifdef VF_BOUNDED
	ASSUME(v._n <= 4);
#endif
	ASSUME(v._n <= NMAX && S(0) == 0);
	ASSUME(gk < NMAX);
	size_t len = nondet_size();
	fstrm_res r = fstrm_control_encoded_size(&c, &len, nondet_u32());
	COVER(r == fstrm_res_success && nenc(&c) == 2 && gk == 1, "two types");
	COVER(r == fstrm_res_failure && !g_long, "too long in total");
	COVER(r == fstrm_res_failure && g_long, "one too long");
}
void h_encode(void)
{
	fs_bufvec v = { 0 };
	struct fstrm_control c = { nondet_u32(), &v };
	ASSUME(c.type <= 5);
	v._n = nondet_size(); gk = nondet_size();
#ifdef VF_BOUNDED
	ASSUME(v._n <= 4);
#endif
	ASSUME(v._n <= NMAX && S(0) == 0 && gk < NMAX);
	size_t len = nondet_size(); gcap = len; gpos = 0; g_kdone = 0;
	uint32_t flags = nondet_u32();
	g_mono = nenc(&c);
	gbase = (flags & 1) ? 12 : 4;
	fstrm_res r = fstrm_control_encode(&c, out, &len, flags);
	COVER(r == fstrm_res_success && nenc(&c) == 2 && gk == 1 && g_klen == 200, "two types");
	COVER(r == fstrm_res_failure, "refused");
}

/* Lemma: S is monotone while element lengths are at most 256 (what encoded_size establishes). */
void h_mono(void)
{
	size_t a = nondet_size(), n = nondet_size();
	ASSUME(n <= NMAX && a <= n && S(0) == 0 && S(a) <= a * 264);
	size_t i = a;
	while (i < n)
	__CPROVER_assigns(i)
	__CPROVER_loop_invariant(a <= i && i <= n && S(a) <= S(i) && S(i) <= i * 264)
	{ S_def(i); ASSUME(elen(i) <= 256); i++; }
	COVER(a + 2 == n, "reaches the end");
	PROVE(S(a) <= S(n), "S is monotone");
}
