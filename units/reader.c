/*
 * fstrm/reader.c under contract.
 *
 * The transport delivers a stream: be(o) is the big-endian word at offset o,
 * and the ghost gpos the offset of the next byte.  fstrm_rdwr_read() is used by
 * its contract (rdwr.c, read_bytes.c, file.c): it delivers exactly `count`
 * bytes, or fails.  Control frames, encode/decode and matching are used by
 * their contracts (control units, rdwr units).
 */
#include "vf.h"
#include "ctl_vecmodel.h"
uint32_t __CPROVER_uninterpreted_be(size_t);
#define be __CPROVER_uninterpreted_be
_Bool __CPROVER_uninterpreted_mready(size_t);	/* own type i matches the READY frame */
_Bool __CPROVER_uninterpreted_mstart(size_t);	/* own type i matches the START frame */
#define mready __CPROVER_uninterpreted_mready
#define mstart __CPROVER_uninterpreted_mstart
#include "fstrm/fstrm-private.h"
#include "libmy/ubuf.h"

/* ---- ghost state ---- */
static size_t gpos;			/* stream offset of the next byte */
static size_t gframe;			/* stream offset just behind the last complete control frame */
static uint8_t ub[1];			/* identity of the reader's buffer */
static size_t gcap;			/* its capacity */
static size_t gdata_off, gdata_len; static _Bool gdata;	/* last bytes delivered into the buffer */
static unsigned gstop, gctl;		/* STOP seen; control frames read */
static int gfail;			/* the transport or a control frame failed (1) or ended (2) */
static unsigned nopen, nclose, nwctl, nrctl;
static unsigned gseq, s_open, s_ready, s_accept, s_start, s_close, s_finish;	/* order of events */
static char tk_ready[1], tk_accept[1], tk_start[1], tk_stop[1], tk_tmp[1], tk_new[1];
static unsigned ninit;
static struct fstrm_rdwr *grdwr;
static unsigned acc_type; static size_t acc_n, acc_k, acc_last; static _Bool acc_any;	/* the ACCEPT frame under construction */
static size_t gcur; static _Bool gwit;
static unsigned fin_type; static _Bool fin_ct;
static unsigned pf_open, pf_r1, pf_w, pf_r2, pf_close, pf_fin;	/* prophecy: which steps fail */

static void *vf_realloc(void *p, size_t n) { (void)n; return p; }
#define realloc vf_realloc

static fs_buf vf_value(fs_bufvec *v, size_t i)
{
	PROVE(i < v->_n, "element index within the vector");
	fs_buf e = { .len = elen(i), .data = i == gk ? blobk : blob };
	gcur = i;
	return e;
}
static void vf_reserve(ubuf *b, size_t n) { PROVE(b->_n == 0, "the buffer is cleared before a frame is read into it"); gcap = n + (nondet_bool() ? 0 : 100); b->_v = b->_p = ub; }
static fstrm_res vf_rdwr_read(struct fstrm_rdwr *rw, void *data, size_t count)
{
	PROVE(rw == grdwr, "reads from the reader's transport");
	if (nondet_bool()) { gfail = nondet_bool() ? 1 : 2; return gfail == 1 ? fstrm_res_failure : fstrm_res_stop; }
	if (data == ub) {
		PROVE(count <= gcap, "the frame fits the buffer");
		gdata = 1; gdata_off = gpos; gdata_len = count;
	} else {
		PROVE(count == 4, "length words are four bytes");
		uint32_t v = be(gpos);
		((uint8_t *)data)[0] = v >> 24; ((uint8_t *)data)[1] = v >> 16; ((uint8_t *)data)[2] = v >> 8; ((uint8_t *)data)[3] = v;
	}
	gpos += count;
	return fstrm_res_success;
}
static fstrm_res vf_read_control_frame(struct fstrm_rdwr *rw, struct fstrm_control *c, fstrm_control_type *type, const bool esc)
{
	PROVE(rw == grdwr && c != NULL && (void *)c != tk_stop, "control frame read into a control object");
	PROVE(!esc && gpos == gframe + 4 && be(gframe) == 0, "a control frame is read exactly behind an escape sequence");
	gctl++;
	if (nondet_bool()) { gfail = nondet_bool() ? 1 : 2; return gfail == 1 ? fstrm_res_failure : fstrm_res_stop; }
	size_t l = nondet_size(); ASSUME(l <= 516);
	gpos += l; gframe = gpos;
	uint32_t t = nondet_u32(); ASSUME(t >= 1 && t <= 5);
	*type = t;
	if (t == FSTRM_CONTROL_STOP) gstop++;
	return fstrm_res_success;
}
static struct fstrm_control *vf_control_init(void) { ninit++; return (struct fstrm_control *)(void *)tk_new; }
#define fs_bufvec_value vf_value
#define ubuf_reserve vf_reserve
#define fstrm_rdwr_read vf_rdwr_read
#define fstrm__rdwr_read_control_frame vf_read_control_frame
#define fstrm_control_init vf_control_init

/* ---- handshake stubs ---- */
static fstrm_res bad(unsigned k) { return k == 2 ? fstrm_res_stop : fstrm_res_failure; }
static fstrm_res vf_rdwr_open(struct fstrm_rdwr *rw)
{
	PROVE(rw == grdwr, "opens its own transport"); nopen++; s_open = ++gseq;
	return pf_open ? bad(pf_open) : fstrm_res_success;
}
static fstrm_res vf_rdwr_close(struct fstrm_rdwr *rw)
{
	PROVE(rw == grdwr, "closes its own transport"); nclose++; s_close = ++gseq;
	return pf_close ? bad(pf_close) : fstrm_res_success;
}
static fstrm_res vf_read_control(struct fstrm_rdwr *rw, struct fstrm_control **c, fstrm_control_type wanted)
{
	PROVE(rw == grdwr, "reads from its own transport"); nrctl++;
	if (wanted == FSTRM_CONTROL_READY) {
		s_ready = ++gseq;
		if (*c == NULL) *c = (struct fstrm_control *)(void *)tk_ready;
		PROVE(*c == (struct fstrm_control *)(void *)tk_ready, "the READY frame is kept as such");
		return pf_r1 ? bad(pf_r1) : fstrm_res_success;
	}
	PROVE(wanted == FSTRM_CONTROL_START, "waits for READY or START only");
	s_start = ++gseq;
	if (*c == NULL) *c = (struct fstrm_control *)(void *)tk_start;
	PROVE(*c == (struct fstrm_control *)(void *)tk_start, "the START frame is kept as such");
	return pf_r2 ? bad(pf_r2) : fstrm_res_success;
}
static _Bool is_acc(const struct fstrm_control *c) { return (const void *)c == tk_accept || (const void *)c == tk_new; }
static void vf_control_reset(struct fstrm_control *c) { PROVE(is_acc(c), "only the ACCEPT frame is reset"); acc_type = 0; acc_n = acc_k = 0; acc_any = 0; }
static fstrm_res vf_control_set_type(struct fstrm_control *c, fstrm_control_type t) { PROVE(is_acc(c), "type of the ACCEPT frame"); acc_type = t; return fstrm_res_success; }
static fstrm_res vf_match(const struct fstrm_control *c, const uint8_t *m, const size_t l)
{
	PROVE(m == (gcur == gk ? blobk : blob) && l == elen(gcur), "matches the reader's own content types");
	if ((const void *)c == tk_ready) return mready(gcur) ? fstrm_res_success : fstrm_res_failure;
	PROVE((const void *)c == tk_start, "matches against READY or START");
	if (mstart(gcur)) gwit = 1;
	return mstart(gcur) ? fstrm_res_success : fstrm_res_failure;
}
static fstrm_res vf_addf(struct fstrm_control *c, const uint8_t *d, size_t l)
{
	PROVE(is_acc(c), "types are added to the ACCEPT frame");
	PROVE(mready(gcur), "only a type offered by the peer is accepted");
	PROVE(d == (gcur == gk ? blobk : blob) && l == elen(gcur), "the accepted type is the reader's own type");
	PROVE(!acc_any || acc_last < gcur, "each type is accepted at most once, in order");
	acc_any = 1; acc_last = gcur; acc_n++; if (gcur == gk) acc_k++;
	return fstrm_res_success;
}
static fstrm_res vf_write_control_frame(struct fstrm_rdwr *rw, const struct fstrm_control *c)
{
	PROVE(rw == grdwr && is_acc(c), "writes the ACCEPT frame"); nwctl++; s_accept = ++gseq;
	return pf_w ? bad(pf_w) : fstrm_res_success;
}
static fstrm_res vf_write_control(struct fstrm_rdwr *rw, fstrm_control_type t, const fs_buf *ct)
{
	PROVE(rw == grdwr, "writes to its own transport"); nwctl++; s_finish = ++gseq; fin_type = t; fin_ct = ct != NULL && ct->data != NULL;
	return pf_fin ? bad(pf_fin) : fstrm_res_success;
}
#define fstrm_rdwr_open vf_rdwr_open
#define fstrm_rdwr_close vf_rdwr_close
#define fstrm__rdwr_read_control vf_read_control
#define fstrm_control_reset vf_control_reset
#define fstrm_control_set_type vf_control_set_type
#define fstrm_control_match_field_content_type vf_match
#define fstrm_control_add_field_content_type vf_addf
#define fstrm__rdwr_write_control_frame vf_write_control_frame
#define fstrm__rdwr_write_control vf_write_control
static fs_bufvec V; static ubuf UB; static struct fstrm_rdwr RW;
static const struct fstrm_control *g_tmp0; static _Bool g_opened_now;
#include "fstrm/reader.c"

static struct fstrm_reader R;
#define TK(x) ((struct fstrm_control *)(void *)(x))
static fstrm_res some_write(void *o, const struct iovec *i, int n) { (void)o; (void)i; (void)n; return fstrm_res_failure; }

static void setup(void)
{
	R.state = nondet_int(); ASSUME(R.state >= fstrm_reader_state_opening && R.state <= fstrm_reader_state_failed);
	R.content_types = &V; V._n = nondet_size(); V._v = (fs_buf *)nondet_ptr();
	R.max_frame_size = nondet_size(); ASSUME(R.max_frame_size >= 512 && R.max_frame_size <= 0xfffffffe);
	R.rdwr = grdwr = &RW; RW.ops.write = nondet_bool() ? some_write : NULL;
	R.control_start = nondet_bool() ? TK(tk_start) : NULL;
	R.control_stop = nondet_bool() ? TK(tk_stop) : NULL;
	R.control_ready = nondet_bool() ? TK(tk_ready) : NULL;
	R.control_accept = nondet_bool() ? TK(tk_accept) : NULL;
	R.control_tmp = nondet_bool() ? TK(tk_tmp) : NULL;
	R.buf = &UB; UB._v = ub; UB._n = nondet_size(); UB._p = ub; gcap = 0;
	gk = nondet_size(); gpos = nondet_size(); ASSUME(gpos < ((size_t)1 << 62)); gframe = gpos; gdata = 0; gstop = gctl = 0; gfail = 0;
	nopen = nclose = nwctl = nrctl = gseq = ninit = 0; s_open = s_ready = s_accept = s_start = s_close = s_finish = 0;
	acc_type = nondet_uint(); acc_n = nondet_size(); acc_k = nondet_size(); acc_any = nondet_bool(); acc_last = nondet_size();
	if (R.control_accept == NULL) { acc_type = 0; acc_n = acc_k = 0; acc_any = 0; }
	gwit = 0; fin_type = 0; fin_ct = 0;
	pf_open = nondet_uint(); pf_r1 = nondet_uint(); pf_w = nondet_uint(); pf_r2 = nondet_uint(); pf_close = nondet_uint(); pf_fin = nondet_uint();
#ifdef VF_BOUNDED
	ASSUME(V._n <= 3);
#endif
	ASSUME(V._n <= NMAX);
}

/* ---- fstrm_reader_read ---- */
static fstrm_reader_state g_st0;
fstrm_res open_c(struct fstrm_reader *r)
__CPROVER_assigns(r->state, g_opened_now)
__CPROVER_ensures(__CPROVER_return_value == fstrm_res_success || __CPROVER_return_value == fstrm_res_failure || __CPROVER_return_value == fstrm_res_stop)
__CPROVER_ensures(IMPL(__CPROVER_return_value == fstrm_res_success, r->state == fstrm_reader_state_opened && g_opened_now))
__CPROVER_ensures(IMPL(__CPROVER_return_value != fstrm_res_success, r->state == __CPROVER_old(r->state) && !g_opened_now))
;
static _Bool read_post(const struct fstrm_reader *r, fstrm_res res, const uint8_t *data, size_t len, size_t pos0)
{
	const _Bool in = g_st0 == fstrm_reader_state_opened || (g_st0 == fstrm_reader_state_opening && g_opened_now);
	if (!in) {
		if (gpos != pos0 || gdata || gctl || data != NULL) return 0;	/* nothing is consumed */
		if (r->state != g_st0) return 0;
		if (g_st0 == fstrm_reader_state_closed) return res == fstrm_res_stop;
		if (g_st0 == fstrm_reader_state_opening) return res != fstrm_res_success;
		return res == fstrm_res_failure;
	}
	if (res == fstrm_res_success)
		/* exactly the next data frame: whole, of its own length, at its own place */
		return r->state == fstrm_reader_state_opened && !gstop && !gfail && gdata && be(gframe) != 0 && be(gframe) <= r->max_frame_size &&
		       gdata_off == gframe + 4 && gdata_len == be(gframe) && len == be(gframe) && data == ub && gpos == gframe + 4 + len;
	if (data != NULL) return 0;
	if (gstop) return res == fstrm_res_stop && gstop == 1 && r->state == fstrm_reader_state_closing && !gfail && gpos == gframe &&
		r->control_stop == (g_tmp0 ? g_tmp0 : TK(tk_new)) && r->control_tmp == NULL && !gdata;
	if (r->state != fstrm_reader_state_failed) return 0;
	if (gfail) return res == (gfail == 1 ? fstrm_res_failure : fstrm_res_stop);
	/* refused: the next frame is longer than the maximum */
	return res == fstrm_res_failure && !gdata && be(gframe) > r->max_frame_size;
}
fstrm_res read_c(struct fstrm_reader *r, const uint8_t **data, size_t *len_data)
__CPROVER_requires(r == &R && gpos == gframe && g_st0 == r->state && !g_opened_now && *data == NULL && g_tmp0 == r->control_tmp)
__CPROVER_assigns(r->state, g_opened_now, *data, *len_data, gpos, gframe, gcap, gdata, gdata_off, gdata_len, gstop, gctl, gfail, ninit,
	r->control_tmp, r->control_stop, UB._n, UB._p, UB._v)
__CPROVER_ensures(read_post(r, __CPROVER_return_value, *data, *len_data, __CPROVER_old(gpos)))
;
void h_read(void)
{
	setup();
	g_st0 = R.state; g_opened_now = 0; g_tmp0 = R.control_tmp;
	const uint8_t *data = NULL; size_t len = 0;
	fstrm_res r = fstrm_reader_read(&R, &data, &len);
	COVER(r == fstrm_res_success && gctl == 2 && len == R.max_frame_size, "data behind two control frames");
	COVER(r == fstrm_res_stop && gstop, "stop");
	COVER(r == fstrm_res_failure && R.state == fstrm_reader_state_failed && !gfail, "oversize");
	COVER(r == fstrm_res_failure && g_st0 == fstrm_reader_state_closing, "after stop");
}

/* ---- fstrm_reader_open: the handshake ---- */
static _Bool open_post(const struct fstrm_reader *r, fstrm_res res, fstrm_reader_state st0)
{
	const _Bool bi = r->rdwr->ops.write != NULL;
	const size_t n = V._n;
	if (st0 == fstrm_reader_state_opened) return res == fstrm_res_failure && r->state == st0 && gseq == 0;
	if (nopen != 1 || s_open != 1) return 0;
	if (pf_open) return res == bad(pf_open) && r->state == st0 && gseq == 1;
	/* how far the handshake must get */
	unsigned q = 1;
	if (bi) {
		if (s_ready != ++q) return 0;
		if (pf_r1) return res == bad(pf_r1) && r->state == st0 && nclose == 1 && gseq == 3;
		if (s_accept != ++q || nwctl != 1) return 0;
		/* the ACCEPT frame lists exactly the own types the peer offered */
		if (acc_type != FSTRM_CONTROL_ACCEPT) return 0;
		if (gk < n && acc_k != (mready(gk) ? 1 : 0)) return 0;
		if (r->control_accept == NULL || !is_acc(r->control_accept)) return 0;
		if (r->control_ready != TK(tk_ready)) return 0;
		if (pf_w) return res == bad(pf_w) && r->state == st0 && nclose == 1 && gseq == 4;
	} else if (nwctl != 0) return 0;
	if (s_start != ++q) return 0;
	if (pf_r2) return res == bad(pf_r2) && r->state == st0 && nclose == 1 && gseq == q + 1;
	if (r->control_start != TK(tk_start)) return 0;
	if (res == fstrm_res_success)
		return r->state == fstrm_reader_state_opened && nclose == 0 && gseq == q && IMPL(n > 0, gwit);
	return res == fstrm_res_failure && r->state == st0 && nclose == 1 && gseq == q + 1 && n > 0 && IMPL(gk < n, !mstart(gk));
}
fstrm_res reader_open_c(struct fstrm_reader *r)
__CPROVER_requires(r == &R && gseq == 0)
__CPROVER_assigns(r->state, r->control_ready, r->control_accept, r->control_start, nopen, nclose, nwctl, nrctl, gseq, ninit,
	s_open, s_ready, s_accept, s_start, s_close, acc_type, acc_n, acc_k, acc_any, acc_last, gcur, gwit)
__CPROVER_ensures(open_post(r, __CPROVER_return_value, __CPROVER_old(r->state)))
;
void h_open(void)
{
	setup();
	fstrm_res r = fstrm_reader_open(&R);
	COVER(r == fstrm_res_success && RW.ops.write && V._n == 3 && acc_n == 2, "bidirectional, two accepted");
	COVER(r == fstrm_res_success && !RW.ops.write && V._n == 0, "unidirectional");
	COVER(r == fstrm_res_failure && RW.ops.write && !pf_open && !pf_r1 && !pf_w && !pf_r2 && nopen == 1, "content type mismatch");
}
/* ---- fstrm_reader_close ---- */
void h_close(void)
{
	setup();
	fstrm_reader_state st0 = R.state;
	const _Bool bi = RW.ops.write != NULL;
	fstrm_res r = fstrm_reader_close(&R);
	if (st0 != fstrm_reader_state_opened && st0 != fstrm_reader_state_closing) {
		PROVE(r == fstrm_res_failure && gseq == 0 && R.state == st0, "closing a reader that is not open fails and does nothing");
	} else {
		PROVE(R.state == fstrm_reader_state_closed, "the reader is closed");
		PROVE(nclose == 1 && s_close == gseq, "the transport is closed exactly once, last");
		PROVE(nwctl == (bi ? 1 : 0) && gseq == (bi ? 2 : 1), "one FINISH frame on a bidirectional transport, nothing else");
		PROVE(IMPL(bi, fin_type == FSTRM_CONTROL_FINISH && !fin_ct), "the FINISH frame");
		PROVE(r == (bi && pf_fin ? bad(pf_fin) : pf_close ? bad(pf_close) : fstrm_res_success), "the first failure is reported");
	}
	COVER(bi && r == fstrm_res_success, "closed");
	COVER(st0 == fstrm_reader_state_closing && bi && pf_fin, "finish fails");
}
/* ---- accessors and options ---- */
void h_ctl(void)
{
	setup();
	ASSUME(R.state != fstrm_reader_state_opening);
	const struct fstrm_control *c = TK(tk_new); uint32_t t = nondet_u32();
	fstrm_res r = fstrm_reader_get_control(&R, t, &c);
	PROVE(gseq == 0, "no transport access");
	PROVE((r == fstrm_res_success) == (c != NULL), "get_control answers exactly if the frame was seen");
	PROVE(c == (t == 1 ? R.control_accept : t == 2 ? R.control_start : t == 3 ? R.control_stop : t == 4 ? R.control_ready : NULL), "get_control returns the frame seen");
	struct fstrm_reader_options o = { .content_types = NULL, .max_frame_size = nondet_size() };
	size_t m0 = o.max_frame_size, m = nondet_size();
	r = fstrm_reader_options_set_max_frame_size(&o, m);
	PROVE((r == fstrm_res_success) == (m >= 512 && m <= 0xfffffffeUL) && o.max_frame_size == (r == fstrm_res_success ? m : m0) && IMPL(r != fstrm_res_success, r == fstrm_res_failure),
		"the maximum frame size is accepted exactly from 512 to 2^32-2");
	COVER(r == fstrm_res_success, "set");
}
