/*
 * fstrm/writer.c under contract.  Transport, control frames and matching are
 * used by their contracts (rdwr units, control units).
 */
#include "vf.h"
#include "ctl_vecmodel.h"
_Bool __CPROVER_uninterpreted_macc(size_t);	/* own type i matches the ACCEPT frame */
#define macc __CPROVER_uninterpreted_macc
#include <sys/uio.h>
static void *vf_copy(void *d, const void *s, size_t n)
{
	PROVE(n == sizeof(struct iovec), "copies one iovec");
	*(struct iovec *)d = *(const struct iovec *)s; return d;
}
#define memcpy vf_copy
#include "fstrm/fstrm-private.h"

static struct fstrm_rdwr RW, *grdwr; static fs_bufvec V;
/* ---- data path ghosts ---- */
static const struct iovec *giov; static int gniov;	/* the caller's frames */
static int gdone;			/* frames handed to the transport so far */
static int gi;				/* tracked frame */
static _Bool gtrk;			/* tracked frame handed over */
static _Bool gwfail; static fstrm_res gwres;
static struct iovec IOV[256]; static uint32_t LENS[128];

#define valid_len(l) ((l) >= 1 && (l) <= 0xffffffffUL)
static _Bool g_allvalid;
/* hypothesis of h_writev: every frame is valid; instantiated at index i */
static _Bool inst(const struct iovec *iov, int i) { if (g_allvalid && i >= 0 && i < gniov) ASSUME(valid_len(iov[i].iov_len)); return 1; }
static unsigned ncalls;

static fstrm_res vf_rdwr_write(struct fstrm_rdwr *rw, const struct iovec *iov, int cnt)
{
	PROVE(rw == grdwr, "writes to its own transport");
	PROVE(!gwfail, "no data is written after a failed write");
	PROVE(cnt >= 2 && cnt <= 256 && (cnt & 1) == 0 && cnt / 2 <= gniov - gdone, "whole frames only, never more than given");
	int j = gi;
	ncalls++;
	if (j >= 0 && j < cnt / 2) {
		PROVE(iov[2 * j].iov_len == 4, "a four byte length word per frame");
		size_t o = (size_t)((const char *)iov[2 * j].iov_base - (const char *)LENS);
		PROVE(SAME(iov[2 * j].iov_base, LENS) && o <= sizeof LENS - 4 && o % 4 == 0, "the length word is in the length array");
		uint32_t v = LENS[o / 4];
		PROVE(v == htonl((uint32_t)giov[gi].iov_len), "the length word is the big-endian frame length");
		PROVE(iov[2 * j + 1].iov_base == giov[gi].iov_base && iov[2 * j + 1].iov_len == giov[gi].iov_len, "the frame is the caller's data");
		gtrk = 1;
	}
	if (nondet_bool()) { gwfail = 1; gwres = fstrm_res_failure; return gwres; }
	gdone += cnt / 2;
	return fstrm_res_success;
}
/* ---- handshake ghosts ---- */
static unsigned nopen, nclose, gseq, s_open, s_w1, s_accept, s_w2, s_close, s_stop, s_finish;
static unsigned pf_open, pf_w1, pf_r, pf_w2, pf_close, pf_stop, pf_fin;
static char tk_ready[1], tk_accept[1], tk_start[1], tk_finish[1], tk_new1[1], tk_new2[1];
static unsigned ninit;
static unsigned ready_type, start_type; static size_t ready_n, ready_k, start_n, start_idx;
static size_t gcur, gwit; static _Bool gw;
static fstrm_res bad(unsigned k) { return k == 2 ? fstrm_res_stop : fstrm_res_failure; }
static fs_buf vf_value(fs_bufvec *v, size_t i)
{
	PROVE(i < v->_n, "element index within the vector");
	fs_buf e = { .len = elen(i), .data = i == gk ? blobk : blob };
	gcur = i;
	return e;
}
#define TK(x) ((struct fstrm_control *)(void *)(x))
static fstrm_res vf_rdwr_open(struct fstrm_rdwr *rw) { PROVE(rw == grdwr, "opens its own transport"); nopen++; s_open = ++gseq; return pf_open ? bad(pf_open) : fstrm_res_success; }
static fstrm_res vf_rdwr_close(struct fstrm_rdwr *rw) { PROVE(rw == grdwr, "closes its own transport"); nclose++; s_close = ++gseq; return pf_close ? bad(pf_close) : fstrm_res_success; }
static struct fstrm_control *vf_control_init(void) { ninit++; return TK(ninit == 1 ? tk_new1 : tk_new2); }
static const void *kready, *kstart;	/* which object plays READY and START */
static void vf_control_reset(struct fstrm_control *c)
{
	if ((void *)c == kready) { ready_type = 0; ready_n = ready_k = 0; }
	else { PROVE((void *)c == kstart, "resets READY or START only"); start_type = 0; start_n = 0; }
}
static fstrm_res vf_control_set_type(struct fstrm_control *c, fstrm_control_type t)
{
	if (t == FSTRM_CONTROL_READY) { kready = c; if ((void *)c == tk_new1 || (void *)c == tk_new2) { ready_n = ready_k = 0; } ready_type = t; }
	else { kstart = c; if ((void *)c == tk_new1 || (void *)c == tk_new2) { start_n = 0; } start_type = t; }
	return fstrm_res_success;
}
static fstrm_res vf_addf(struct fstrm_control *c, const uint8_t *d, size_t l)
{
	if ((void *)c == kready && ready_type == FSTRM_CONTROL_READY) {
		PROVE(d == (gcur == gk ? blobk : blob) && l == elen(gcur), "READY offers the writer's own type");
		PROVE(ready_n == gcur, "READY offers the types in order, each once");
		ready_n++; if (gcur == gk) ready_k++;
	} else {
		PROVE((void *)c == kstart, "types are added to READY or START");
		PROVE(l == elen(start_idx) && d == (start_idx == gk ? blobk : blob), "START carries the negotiated type");
		start_n++;
	}
	return fstrm_res_success;
}
static fstrm_res vf_match(const struct fstrm_control *c, const uint8_t *m, const size_t l)
{
	PROVE((const void *)c == tk_accept, "matches against the ACCEPT frame");
	PROVE(m == (gcur == gk ? blobk : blob) && l == elen(gcur), "matches the writer's own content types");
	if (macc(gcur)) { PROVE(!gw, "the first match is taken"); gw = 1; gwit = gcur; start_idx = gcur; }
	return macc(gcur) ? fstrm_res_success : fstrm_res_failure;
}
static fstrm_res vf_write_control_frame(struct fstrm_rdwr *rw, const struct fstrm_control *c)
{
	PROVE(rw == grdwr, "writes to its own transport");
	if ((const void *)c == kready) { s_w1 = ++gseq; return pf_w1 ? bad(pf_w1) : fstrm_res_success; }
	PROVE((const void *)c == kstart, "writes READY or START"); s_w2 = ++gseq;
	return pf_w2 ? bad(pf_w2) : fstrm_res_success;
}
static fstrm_res vf_read_control(struct fstrm_rdwr *rw, struct fstrm_control **c, fstrm_control_type wanted)
{
	PROVE(rw == grdwr, "reads from its own transport");
	if (wanted == FSTRM_CONTROL_FINISH) {
		s_finish = ++gseq; if (*c == NULL) *c = TK(tk_finish);
		PROVE(*c == TK(tk_finish), "the FINISH frame is kept as such");
		return pf_fin ? bad(pf_fin) : fstrm_res_success;
	}
	PROVE(wanted == FSTRM_CONTROL_ACCEPT, "waits for ACCEPT or FINISH");
	s_accept = ++gseq; if (*c == NULL) *c = TK(tk_accept);
	PROVE(*c == TK(tk_accept), "the ACCEPT frame is kept as such");
	return pf_r ? bad(pf_r) : fstrm_res_success;
}
static fstrm_res vf_write_control(struct fstrm_rdwr *rw, fstrm_control_type t, const fs_buf *ct)
{
	PROVE(rw == grdwr && t == FSTRM_CONTROL_STOP && (ct == NULL || ct->data == NULL), "writes a STOP frame"); s_stop = ++gseq;
	return pf_stop ? bad(pf_stop) : fstrm_res_success;
}
#define fs_bufvec_value vf_value
#define fstrm_rdwr_write vf_rdwr_write
#define fstrm_rdwr_open vf_rdwr_open
#define fstrm_rdwr_close vf_rdwr_close
#define fstrm_control_init vf_control_init
#define fstrm_control_reset vf_control_reset
#define fstrm_control_set_type vf_control_set_type
#define fstrm_control_match_field_content_type vf_match
#define fstrm_control_add_field_content_type vf_addf
#define fstrm__rdwr_write_control_frame vf_write_control_frame
#define fstrm__rdwr_read_control vf_read_control
#define fstrm__rdwr_write_control vf_write_control
#include "fstrm/writer.c"

static struct fstrm_writer W;
static fstrm_res some_read(void *o, void *d, size_t n) { (void)o; (void)d; (void)n; return fstrm_res_failure; }
static void setup(void)
{
	W.state = nondet_int(); ASSUME(W.state >= fstrm_writer_state_opening && W.state <= fstrm_writer_state_failed);
	W.content_types = &V; V._n = nondet_size(); V._v = (fs_buf *)nondet_ptr();
	W.rdwr = grdwr = &RW; RW.ops.read = nondet_bool() ? some_read : NULL;
	W.control_ready = nondet_bool() ? TK(tk_ready) : NULL;
	W.control_accept = nondet_bool() ? TK(tk_accept) : NULL;
	W.control_start = nondet_bool() ? TK(tk_start) : NULL;
	W.control_finish = nondet_bool() ? TK(tk_finish) : NULL;
	W.iovecs = IOV; W.be32_lens = LENS;
	kready = W.control_ready; kstart = W.control_start;
	gk = nondet_size(); gi = nondet_int();
	nopen = nclose = gseq = ninit = 0; s_open = s_w1 = s_accept = s_w2 = s_close = s_stop = s_finish = 0;
	ready_type = nondet_uint(); start_type = nondet_uint(); ready_n = nondet_size(); ready_k = nondet_size(); start_n = nondet_size(); start_idx = 0;
	gw = 0; gwit = 0; gdone = 0; gtrk = 0; gwfail = 0; g_allvalid = 0; gniov = 0;
	pf_open = nondet_uint(); pf_w1 = nondet_uint(); pf_r = nondet_uint(); pf_w2 = nondet_uint(); pf_close = nondet_uint(); pf_stop = nondet_uint(); pf_fin = nondet_uint();
#ifdef VF_BOUNDED
	ASSUME(V._n <= 3);
#endif
	ASSUME(V._n <= NMAX);
}
/* ---- fstrm_writer_writev / fstrm_writer_write ---- */
static fstrm_writer_state g_st0; static _Bool g_opened_now, g_open_called;
fstrm_res open_c(struct fstrm_writer *w)
__CPROVER_assigns(w->state, g_opened_now, g_open_called)
__CPROVER_ensures(g_open_called)
__CPROVER_ensures(__CPROVER_return_value == fstrm_res_success || __CPROVER_return_value == fstrm_res_failure || __CPROVER_return_value == fstrm_res_stop)
__CPROVER_ensures(IMPL(__CPROVER_return_value == fstrm_res_success, w->state == fstrm_writer_state_opened && g_opened_now))
__CPROVER_ensures(IMPL(__CPROVER_return_value != fstrm_res_success, w->state == __CPROVER_old(w->state) && !g_opened_now))
;
static _Bool writev_post(const struct fstrm_writer *w, fstrm_res res, int n)
{
	if (n < 1) return res == fstrm_res_success && gdone == 0 && !g_open_called;
	if (!g_allvalid) return res == fstrm_res_failure && gdone == 0 && !gwfail && !g_open_called && w->state == g_st0;	/* frame gi is not representable */
	if (g_st0 == fstrm_writer_state_opening && !g_opened_now) return res != fstrm_res_success && gdone == 0 && !gwfail;
	if (g_st0 != fstrm_writer_state_opening && g_st0 != fstrm_writer_state_opened) return res == fstrm_res_failure && gdone == 0 && !gwfail && !g_open_called;
	if (gwfail) return res == gwres;
	return res == fstrm_res_success && gdone == n && IMPL(gi >= 0 && gi < n, gtrk) && w->state == fstrm_writer_state_opened;
}
/* one batch of at most 128 frames */
fstrm_res write_iov_c(struct fstrm_writer *w, const struct iovec *iov, int iovcnt)
__CPROVER_requires(w == &W && iov == giov && iovcnt == gniov && iovcnt >= 1 && iovcnt <= 128 && gdone == 0 && !gwfail && !gtrk && ncalls == 0)
__CPROVER_assigns(gdone, gtrk, gwfail, gwres, ncalls, __CPROVER_object_whole(IOV), __CPROVER_object_whole(LENS))
__CPROVER_ensures(ncalls == 1 && IMPL(gi >= 0 && gi < iovcnt, gtrk) && __CPROVER_return_value == (gwfail ? gwres : fstrm_res_success) && gdone == (gwfail ? 0 : iovcnt))
;
static struct iovec SRC[128];
void h_write_iov(void)
{
	setup();
	__CPROVER_havoc_object(SRC); __CPROVER_havoc_object(IOV); __CPROVER_havoc_object(LENS);
	gniov = nondet_int(); giov = SRC; gi = nondet_int(); ncalls = 0;
	ASSUME(gniov >= 1 && gniov <= 128 && gi >= 0 && gi < 128);
	fstrm_res r = fstrm__writer_write_iov(&W, SRC, gniov);
	COVER(r == fstrm_res_success && gniov == 128 && gi == 127, "full batch");
}
/* the same contract, as used by its callers: the batch is the next one of the caller's frames */
fstrm_res batch_c(struct fstrm_writer *w, const struct iovec *iov, int iovcnt)
__CPROVER_requires(w == &W && !gwfail && iovcnt >= 1 && iovcnt <= 128 && gdone >= 0 && iovcnt <= gniov - gdone && iov == giov + gdone)
__CPROVER_assigns(gdone, gtrk, gwfail, gwres)
__CPROVER_ensures(IMPL(!gwfail, __CPROVER_return_value == fstrm_res_success && gdone == __CPROVER_old(gdone) + iovcnt))
__CPROVER_ensures(IMPL(gwfail, __CPROVER_return_value == gwres && gwres != fstrm_res_success && gdone == __CPROVER_old(gdone)))
__CPROVER_ensures(IMPL(!gwfail, gtrk == (__CPROVER_old(gtrk) || (gi >= __CPROVER_old(gdone) && gi < gdone))))
;
fstrm_res writev_c(struct fstrm_writer *w, const struct iovec *iov, int iovcnt)
__CPROVER_requires(w == &W && iov == giov && iovcnt == gniov && gdone == 0 && !gtrk && !gwfail && g_st0 == w->state && !g_opened_now && !g_open_called)
__CPROVER_assigns(w->state, g_opened_now, g_open_called, gdone, gtrk, gwfail, gwres)
__CPROVER_ensures(writev_post(w, __CPROVER_return_value, iovcnt))
;
void h_writev(void)
{
	setup();
	int n = nondet_int();
#ifdef VF_BOUNDED
	ASSUME(n <= 3);
#endif
	g_st0 = W.state; g_opened_now = g_open_called = 0;
	struct iovec *iov = __CPROVER_allocate((size_t)(n < 1 ? 1 : n) * sizeof(struct iovec), 0);
	giov = iov; gniov = n;
	g_allvalid = nondet_bool();
	ASSUME(gi >= 0 && (n < 1 || gi < n));
	if (n >= 1) {
		if (g_allvalid) ASSUME(valid_len(iov[gi].iov_len));
		else ASSUME(!valid_len(iov[gi].iov_len));
	}
	fstrm_res r = fstrm_writer_writev(&W, iov, n);
	COVER(r == fstrm_res_success && n == 700 && gi == 300, "700 frames");
	COVER(r == fstrm_res_success && n == 1, "one frame");
	COVER(r == fstrm_res_failure && !g_allvalid, "refused");
	COVER(r == fstrm_res_failure && gwfail && gdone == 256, "third chunk fails");
}
/* ---- handshake ---- */
static _Bool open_post(const struct fstrm_writer *w, fstrm_res res, fstrm_writer_state st0)
{
	const _Bool bi = w->rdwr->ops.read != NULL;
	const size_t n = V._n;
	if (st0 == fstrm_writer_state_opened) return res == fstrm_res_success && w->state == st0 && gseq == 0;
	if (nopen != 1 || s_open != 1) return 0;
	if (pf_open) return res == bad(pf_open) && w->state == st0 && gseq == 1;
	unsigned q = 1;
	if (bi) {
		if (s_w1 != ++q || w->control_ready != kready) return 0;
		if (ready_type != FSTRM_CONTROL_READY || ready_n != n || (gk < n && ready_k != 1)) return 0;	/* READY offers all own types */
		if (pf_w1) return res == bad(pf_w1) && w->state == st0 && nclose == 1 && gseq == q + 1;
		if (s_accept != ++q) return 0;
		if (pf_r) return res == bad(pf_r) && w->state == st0 && nclose == 1 && gseq == q + 1;
		if (w->control_accept != TK(tk_accept)) return 0;
		if (n > 0 && !gw)	/* no type in common */
			return res == fstrm_res_failure && w->state == st0 && nclose == 1 && gseq == q + 1 && IMPL(gk < n, !macc(gk));
		if (gw && !(gwit < n && macc(gwit) && IMPL(gk < gwit, !macc(gk)))) return 0;	/* the first common type */
	}
	if (s_w2 != ++q) return 0;
	if (start_type != FSTRM_CONTROL_START || w->control_start != kstart || start_n != (n > 0 ? 1 : 0)) return 0;
	if (pf_w2) return res == bad(pf_w2) && w->state == st0 && nclose == 1 && gseq == q + 1;
	return res == fstrm_res_success && w->state == fstrm_writer_state_opened && nclose == 0 && gseq == q;
}
fstrm_res writer_open_c(struct fstrm_writer *w)
__CPROVER_requires(w == &W && gseq == 0)
__CPROVER_assigns(w->state, w->control_ready, w->control_accept, w->control_start, nopen, nclose, gseq, ninit, kready, kstart,
	s_open, s_w1, s_accept, s_w2, s_close, ready_type, start_type, ready_n, ready_k, start_n, start_idx, gcur, gwit, gw)
__CPROVER_ensures(open_post(w, __CPROVER_return_value, __CPROVER_old(w->state)))
;
void h_open(void)
{
	setup();
	fstrm_res r = fstrm_writer_open(&W);
	COVER(r == fstrm_res_success && RW.ops.read && V._n == 3 && gwit == 2, "third type negotiated");
	COVER(r == fstrm_res_success && !RW.ops.read && V._n == 2, "unidirectional");
	COVER(r == fstrm_res_failure && V._n == 2 && s_accept && !pf_r && !pf_w2, "mismatch");
}
/* ---- fstrm_writer_close ---- */
void h_close(void)
{
	setup();
	fstrm_writer_state st0 = W.state;
	const _Bool bi = RW.ops.read != NULL;
	fstrm_res r = fstrm_writer_close(&W);
	if (st0 != fstrm_writer_state_opened) {
		PROVE(r == fstrm_res_failure && gseq == 0 && W.state == st0, "closing a writer that is not open fails and does nothing");
	} else {
		PROVE(W.state == fstrm_writer_state_closed, "the writer is closed");
		PROVE(s_stop == 1, "STOP is written first, once");
		PROVE(nclose == 1 && s_close == gseq, "the transport is closed exactly once, last");
		if (pf_stop) PROVE(r == bad(pf_stop) && gseq == 2, "a failed STOP is reported");
		else if (bi) {
			PROVE(s_finish == 2 && gseq == 3, "waits for FINISH before closing");
			PROVE(r == (pf_fin ? bad(pf_fin) : pf_close ? bad(pf_close) : fstrm_res_success), "success only if FINISH arrived");
		} else PROVE(gseq == 2 && r == (pf_close ? bad(pf_close) : fstrm_res_success), "STOP, then close");
	}
	COVER(bi && r == fstrm_res_success, "closed");
	COVER(bi && pf_fin && !pf_stop && st0 == fstrm_writer_state_opened, "no FINISH");
}
void h_ctl(void)
{
	setup();
	ASSUME(W.state != fstrm_writer_state_opening);
	struct fstrm_control *c = TK(tk_new1); uint32_t t = nondet_u32();
	fstrm_res r = fstrm_writer_get_control(&W, t, &c);
	PROVE(gseq == 0, "no transport access");
	PROVE((r == fstrm_res_success) == (c != NULL), "get_control answers exactly if the frame was seen");
	PROVE(c == (t == 1 ? W.control_accept : t == 2 ? W.control_start : t == 5 ? W.control_finish : t == 4 ? W.control_ready : NULL), "get_control returns the frame seen");
	COVER(r == fstrm_res_success, "found");
}

/* one frame is a batch of one */
static struct fstrm_writer *w1_w; static const void *w1_d; static size_t w1_n; static int w1_c; static fstrm_res w1_r;
fstrm_res w1_writev(struct fstrm_writer *w, const struct iovec *v, int n) { PROVE(w == w1_w && n == 1 && v->iov_base == w1_d && v->iov_len == w1_n && w1_c == 0, "the frame that was given, alone"); w1_c++; return w1_r; }
void h_write1(void)
{
	setup(); w1_w = &W; w1_d = nondet_ptr(); w1_n = nondet_size(); w1_c = 0; w1_r = nondet_int();
	fstrm_res r = fstrm_writer_write(&W, w1_d, w1_n); PROVE(w1_c == 1 && r == w1_r, "written once, with the result of the batch"); COVER(r == fstrm_res_success, "written");
}
