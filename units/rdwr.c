/* fstrm/rdwr.c under contract: the transport object and control frame I/O. */
#include "vf.h"
#include "fstrm/fstrm-private.h"

static struct fstrm_rdwr *RW; static char OBJ[1];
static unsigned n_open, n_close, n_read, n_write, n_destroy;
static _Bool isopen;			/* what the transport itself believes */
static fstrm_res r_open, r_close, r_read, r_write, r_destroy;
static void *a_data; static size_t a_count; static const struct iovec *a_iov; static int a_cnt;

static fstrm_res m_open(void *o) { PROVE(o == OBJ, "open gets the object"); PROVE(!isopen, "never opened twice"); n_open++; if (r_open == fstrm_res_success) isopen = 1; return r_open; }
static fstrm_res m_close(void *o) { PROVE(o == OBJ, "close gets the object"); PROVE(isopen, "close only when open"); n_close++; isopen = 0; return r_close; }
static fstrm_res m_destroy(void *o) { PROVE(o == OBJ, "destroy gets the object"); PROVE(!isopen, "destroyed only once closed"); n_destroy++; return r_destroy; }

/* ---- byte stream below read_control_frame ---- */
uint8_t __CPROVER_uninterpreted_byte(size_t);
#define byte_ __CPROVER_uninterpreted_byte
#define be32(o) ((uint32_t)byte_(o) << 24 | (uint32_t)byte_((o) + 1) << 16 | (uint32_t)byte_((o) + 2) << 8 | byte_((o) + 3))
static size_t pos, gk; static unsigned pf_fail; /* which read fails (1..), 0 none */
static _Bool stream;
static fstrm_res m_read(void *o, void *d, size_t n)
{
	PROVE(o == OBJ, "read gets the object"); PROVE(isopen, "read only when open");
	n_read++;
	if (!stream) { a_data = d; a_count = n; return r_read; }
	if (n_read == pf_fail) return r_read;
	PROVE(IMPL(n, __CPROVER_w_ok(d, n)), "reads into a buffer of the requested size");
	if (n == 4) { uint8_t t[4] = { byte_(pos), byte_(pos + 1), byte_(pos + 2), byte_(pos + 3) }; *(uint32_t *)d = (uint32_t)t[0] | (uint32_t)t[1] << 8 | (uint32_t)t[2] << 16 | (uint32_t)t[3] << 24; }
	else if (gk < n) ((uint8_t *)d)[gk] = byte_(pos + gk);
	pos += n;
	return fstrm_res_success;
}
/* ---- write side ---- */
static unsigned n_size, n_enc; static fstrm_res r_size, r_enc; static size_t g_size; static const void *g_buf;
static fstrm_res m_write(void *o, const struct iovec *iov, int cnt)
{
	PROVE(o == OBJ, "write gets the object"); PROVE(isopen, "write only when open");
	n_write++; a_iov = iov; a_cnt = cnt;
	if (stream) { PROVE(cnt == 1 && iov[0].iov_base == g_buf && iov[0].iov_len == g_size, "writes exactly the encoded frame"); PROVE(n_enc == 1, "encoded first"); }
	return r_write;
}
static struct fstrm_control *C; static fstrm_control_type r_type; static unsigned n_dec, n_gettype; static fstrm_res r_dec, r_gt;
static size_t base;
fstrm_res fstrm_control_decode(struct fstrm_control *c, const void *p, size_t n, const uint32_t flags)
{
	PROVE(c == C, "decodes into the given frame"); PROVE(flags == 0, "the header was consumed");
	PROVE(n == be32(base - 4) && n <= 512, "decodes exactly the announced length");
	PROVE(IMPL(gk < n && n != 4, ((const uint8_t *)p)[gk] == byte_(base + gk)), "decodes exactly the received bytes");
	PROVE(IMPL(gk < n && n == 4, ((const uint8_t *)p)[gk] == byte_(base + gk)), "decodes exactly the received bytes (short frame)");
	n_dec++;
	return r_dec;
}
fstrm_res fstrm_control_get_type(const struct fstrm_control *c, fstrm_control_type *t) { PROVE(c == C, "type of the decoded frame"); n_gettype++; if (r_gt == fstrm_res_success) *t = r_type; return r_gt; }
fstrm_res fstrm_control_encoded_size(const struct fstrm_control *c, size_t *n, const uint32_t flags)
{ PROVE(c == C && flags == FSTRM_CONTROL_FLAG_WITH_HEADER, "size of the frame with header"); n_size++; if (r_size == fstrm_res_success) *n = g_size; return r_size; }
fstrm_res fstrm_control_encode(const struct fstrm_control *c, void *p, size_t *n, const uint32_t flags)
{ PROVE(c == C && flags == FSTRM_CONTROL_FLAG_WITH_HEADER, "frame with header"); PROVE(*n == g_size && __CPROVER_w_ok(p, g_size), "a buffer of the encoded size"); n_enc++; g_buf = p; *n = g_size; return r_enc; }
static unsigned n_init, n_cdestroy, n_st, n_add; static fstrm_control_type g_st; static const void *g_ad; static size_t g_al; static fstrm_res r_st, r_add;
struct fstrm_control *fstrm_control_init(void) { n_init++; return C; }
void fstrm_control_destroy(struct fstrm_control **c) { PROVE(*c == C, "destroys its frame"); n_cdestroy++; *c = NULL; }
fstrm_res fstrm_control_set_type(struct fstrm_control *c, fstrm_control_type t) { PROVE(c == C, "own frame"); n_st++; g_st = t; return r_st; }
fstrm_res fstrm_control_add_field_content_type(struct fstrm_control *c, const uint8_t *d, size_t n) { PROVE(c == C && n_st == 1, "own frame, type set"); n_add++; g_ad = d; g_al = n; return r_add; }

static unsigned n_free; static void *p_free;
static void vf_free(void *p) { n_free++; p_free = p; free(p); }
#define free vf_free
#include "fstrm/rdwr.c"
#undef free

static char tk_c[1];
static _Bool hasopen, hasclose, hasread, haswrite, hasdestroy;
static fstrm_res anyres(void) { fstrm_res r = nondet_int(); ASSUME(r == fstrm_res_success || r == fstrm_res_failure || r == fstrm_res_again || r == fstrm_res_invalid || r == fstrm_res_stop); return r; }
static void mk(void)
{
	RW = fstrm_rdwr_init(OBJ);
	PROVE(!RW->opened && RW->obj == OBJ && !RW->ops.open && !RW->ops.close && !RW->ops.read && !RW->ops.write && !RW->ops.destroy, "a new transport object is closed and has no methods");
	hasopen = nondet_bool(); hasclose = nondet_bool(); hasread = nondet_bool(); haswrite = nondet_bool(); hasdestroy = nondet_bool();
	if (hasopen) fstrm_rdwr_set_open(RW, m_open);
	if (hasclose) fstrm_rdwr_set_close(RW, m_close);
	if (hasread) fstrm_rdwr_set_read(RW, m_read);
	if (haswrite) fstrm_rdwr_set_write(RW, m_write);
	if (hasdestroy) fstrm_rdwr_set_destroy(RW, m_destroy);
	PROVE(RW->ops.open == (hasopen ? m_open : NULL) && RW->ops.close == (hasclose ? m_close : NULL) && RW->ops.read == (hasread ? m_read : NULL) &&
	      RW->ops.write == (haswrite ? m_write : NULL) && RW->ops.destroy == (hasdestroy ? m_destroy : NULL), "each setter sets its method only");
	r_open = anyres(); r_close = anyres(); r_read = anyres(); r_write = anyres(); r_destroy = anyres();
	RW->opened = isopen = nondet_bool();	/* any state the invariant allows */
}
#define INV() PROVE(RW->opened == isopen, "the object knows whether the transport is open")
void h_open(void)
{
	mk(); ASSUME(!isopen);
	fstrm_res r = fstrm_rdwr_open(RW);
	INV();
	if (!hasopen) PROVE(r == fstrm_res_failure && n_open == 0, "no open method: fails");
	else PROVE(n_open == 1 && r == r_open && isopen == (r == fstrm_res_success), "open exactly once; open only on success");
	PROVE(n_close + n_read + n_write + n_destroy == 0, "nothing else");
	COVER(isopen, "opened"); COVER(hasopen && !isopen, "open failed");
}
void h_close(void)
{
	mk(); ASSUME(hasclose || !isopen || 1); _Bool was = isopen;
	fstrm_res r = fstrm_rdwr_close(RW);
	if (!hasclose) PROVE(r == fstrm_res_failure && n_close == 0, "no close method: fails");
	else { INV(); PROVE(!isopen && n_close == (was ? 1 : 0) && r == (was ? r_close : fstrm_res_success), "closes exactly once when open"); }
	PROVE(n_open + n_read + n_write + n_destroy == 0, "nothing else");
	COVER(was && hasclose, "was open"); COVER(!was && hasclose, "was closed");
}
void h_read(void)
{
	mk(); ASSUME(hasclose); _Bool was = isopen; uint8_t d[16]; size_t n = nondet_size();
	fstrm_res r = fstrm_rdwr_read(RW, d, n);
	INV();
	if (!was || !hasread) PROVE(r == fstrm_res_failure && n_read == 0 && n_close == 0 && isopen == was, "no read unless open with a read method");
	else {
		PROVE(n_read == 1 && a_data == d && a_count == n && r == r_read, "passed on exactly once, unchanged");
		PROVE(n_close == (r == fstrm_res_success ? 0 : 1) && isopen == (r == fstrm_res_success), "a failed read closes the transport, once");
	}
	PROVE(n_open + n_write + n_destroy == 0, "nothing else");
	COVER(was && hasread && r == fstrm_res_success, "read"); COVER(was && hasread && r != fstrm_res_success, "failed read");
}
void h_write(void)
{
	mk(); ASSUME(hasclose); _Bool was = isopen; struct iovec v[3]; int n = nondet_int();
	fstrm_res r = fstrm_rdwr_write(RW, v, n);
	INV();
	if (!was || !haswrite) PROVE(r == fstrm_res_failure && n_write == 0 && n_close == 0 && isopen == was, "no write unless open with a write method");
	else {
		PROVE(n_write == 1 && a_iov == v && a_cnt == n && r == r_write, "passed on exactly once, unchanged");
		PROVE(n_close == (r == fstrm_res_success ? 0 : 1) && isopen == (r == fstrm_res_success), "a failed write closes the transport, once");
	}
	PROVE(n_open + n_read + n_destroy == 0, "nothing else");
	COVER(was && haswrite && r == fstrm_res_success, "write"); COVER(was && haswrite && r != fstrm_res_success, "failed write");
}
void h_destroy(void)
{
	mk(); ASSUME(hasclose || !isopen); _Bool was = isopen; struct fstrm_rdwr *p = RW;
	fstrm_res r = fstrm_rdwr_destroy(&RW);
	PROVE(RW == NULL, "the handle is cleared"); PROVE(n_free == 1 && p_free == p, "the object is freed once");
	PROVE(!isopen && n_close == (was ? 1 : 0), "closed if it was open");
	PROVE(n_destroy == (hasdestroy ? 1 : 0) && r == (hasdestroy ? r_destroy : fstrm_res_success), "destroyed exactly once");
	PROVE(fstrm_rdwr_destroy(&RW) == fstrm_res_success && n_destroy == (hasdestroy ? 1 : 0), "destroying nothing does nothing");
	COVER(was && hasdestroy, "open at destroy");
}
static void mkstream(void)
{
	RW = fstrm_rdwr_init(OBJ); fstrm_rdwr_set_close(RW, m_close); fstrm_rdwr_set_read(RW, m_read); fstrm_rdwr_set_write(RW, m_write);
	stream = 1; C = (struct fstrm_control *)(void *)tk_c; RW->opened = isopen = 1; pos = nondet_size(); ASSUME(pos < 1UL << 40);
	gk = nondet_size(); pf_fail = nondet_uint(); ASSUME(pf_fail <= 3);
	r_close = anyres(); r_read = anyres(); r_write = anyres(); r_dec = anyres(); r_gt = anyres(); r_size = anyres(); r_enc = anyres(); r_st = anyres(); r_add = anyres();
	ASSUME(r_read != fstrm_res_success);
	r_type = nondet_uint();
}
/* where a control frame read must stop */
static void rcf_post(size_t p0, _Bool esc, fstrm_res r)
{
	unsigned k = esc ? 1 : 0;		/* reads before the length word */
	size_t lp = p0 + 4 * k;
	if (esc && pf_fail == 1) { PROVE(r == r_read && n_read == 1 && n_dec == 0, "escape unreadable"); return; }
	if (esc && be32(p0) != 0) { PROVE(r == fstrm_res_failure && n_read == 1 && n_dec == 0, "no escape: refused"); return; }
	if (pf_fail == k + 1) { PROVE(r == r_read && n_read == k + 1 && n_dec == 0, "length unreadable"); return; }
	if (be32(lp) > 512) { PROVE(r == fstrm_res_failure && n_read == k + 1 && n_dec == 0, "over-long control frame refused unread"); COVER(1, "too long"); return; }
	if (pf_fail == k + 2) { PROVE(r == r_read && n_read == k + 2 && n_dec == 0, "payload unreadable"); return; }
	PROVE(n_dec == 1 && n_read == k + 2 && pos == lp + 4 + be32(lp), "consumes exactly one frame and decodes it");
	if (r_dec != fstrm_res_success) { PROVE(r == r_dec, "decoding result"); return; }
}
void h_rcf(void)
{
	mkstream(); _Bool esc = nondet_bool(), wt = nondet_bool(); fstrm_control_type t = 77; size_t p0 = pos;
	base = p0 + 4 + (esc ? 4 : 0);
	fstrm_res r = fstrm__rdwr_read_control_frame(RW, C, wt ? &t : NULL, esc);
	rcf_post(p0, esc, r);
	if (n_dec && r_dec == fstrm_res_success) {
		if (wt) PROVE(r == r_gt && IMPL(r == fstrm_res_success, t == r_type), "the type of the frame is returned");
		else PROVE(r == fstrm_res_success, "success");
		COVER(r == fstrm_res_success && esc, "frame read");
	}
	PROVE(isopen == (pf_fail == 0 || n_read < pf_fail), "the transport is closed exactly when a read failed");
	PROVE(n_write == 0 && n_destroy == 0, "nothing else");
}
void h_rc(void)
{
	mkstream(); fstrm_control_type want = nondet_uint(); size_t p0 = pos; base = p0 + 8;
	struct fstrm_control *c = nondet_bool() ? NULL : C; _Bool had = c != NULL;
	fstrm_res r = fstrm__rdwr_read_control(RW, &c, want);
	PROVE(c == C && n_init == (had ? 0 : 1), "a frame object is made when there is none");
	rcf_post(p0, 1, r == fstrm_res_failure && n_dec && r_dec == fstrm_res_success ? fstrm_res_success : r);
	PROVE(IMPL(r == fstrm_res_success, n_dec == 1 && r_dec == fstrm_res_success && r_gt == fstrm_res_success && r_type == want), "succeeds only on the wanted type");
	PROVE(IMPL(n_dec == 1 && r_dec == fstrm_res_success && r_gt == fstrm_res_success && r_type == want, r == fstrm_res_success), "succeeds on the wanted type");
	PROVE(IMPL(n_dec == 1 && r_dec == fstrm_res_success && r_gt == fstrm_res_success && r_type != want, r == fstrm_res_failure), "another type is a failure");
	COVER(r == fstrm_res_success && !had, "read"); COVER(n_dec == 1 && r_type != want, "other type");
}
void h_wcf(void)
{
	mkstream(); g_size = nondet_size(); ASSUME(g_size >= 12 && g_size <= 520);
	fstrm_res r = fstrm__rdwr_write_control_frame(RW, C);
	if (r_size != fstrm_res_success) PROVE(r == r_size && n_enc == 0 && n_write == 0, "a frame that cannot be encoded is not written");
	else if (r_enc != fstrm_res_success) PROVE(r == r_enc && n_write == 0, "a frame that cannot be encoded is not written");
	else PROVE(n_enc == 1 && n_write == 1 && r == r_write && isopen == (r == fstrm_res_success), "written exactly once, whole");
	PROVE(n_read == 0 && n_destroy == 0, "nothing else");
	COVER(n_write == 1 && r == fstrm_res_success, "written");
}
void h_wc(void)
{
	mkstream(); g_size = nondet_size(); ASSUME(g_size >= 12 && g_size <= 520);
	fstrm_control_type t = nondet_uint(); uint8_t d[4]; fs_buf ct = { .data = nondet_bool() ? d : NULL, .len = nondet_size() }; _Bool with = nondet_bool();
	fstrm_res r = fstrm__rdwr_write_control(RW, t, with ? &ct : NULL);
	PROVE(n_init == 1 && n_cdestroy == 1, "its frame object is destroyed on every path");
	PROVE(n_st == 1 && g_st == t, "the requested type");
	_Bool add = with && ct.data;
	PROVE(n_add == ((add && r_st == fstrm_res_success) ? 1 : 0), "a content type exactly when given");
	PROVE(IMPL(n_add, g_ad == ct.data && g_al == ct.len), "the given content type");
	if (r_st != fstrm_res_success) PROVE(r == r_st && n_write == 0, "refused type");
	else if (add && r_add != fstrm_res_success) PROVE(r == r_add && n_write == 0, "refused content type");
	else PROVE(IMPL(r == fstrm_res_success, n_write == 1) && n_write <= 1 && IMPL(r_size == fstrm_res_success && r_enc == fstrm_res_success, n_write == 1 && r == r_write), "written exactly once");
	COVER(r == fstrm_res_success && add, "with type"); COVER(r == fstrm_res_success && !add, "without type");
}
