/*
 * Who owns what: init and destroy of readers (or, with -DVF_W, writers) and of their options under contract.
 * Vector, heap, control frames and transports are constructive stubs: element i of the source vector is SRC+i with
 * length elen(i); the copy of element i is CPY+i; every release is recorded.
 */
#include "vf.h"
#define C1(c) COVER(c, "c")
#include <stdlib.h>
#include <string.h>
size_t __CPROVER_uninterpreted_elen(size_t);
#define elen __CPROVER_uninterpreted_elen
static uint8_t *SRC, *CPY; static size_t n_cp, n_add, cp_len, NV, gk, n_ft; static unsigned n_fk, n_fs, n_vinit, n_vdes, n_ubi, n_ubd, n_rd, n_close, n_cd[6], n_self, n_iov, n_len, n_mv; static _Bool moved, dying, pf_close;
static char tk[24];
#define RDWR ((struct fstrm_rdwr *)&tk[0])
#define CTK(i) ((struct fstrm_control *)&tk[1 + (i)])
static void *SELF, *IOVM, *LENM, *OWNV, *UBP; static size_t selfsz;
static void *s_malloc(size_t n) { PROVE(n_cp == n_add, "one copy at a time"); n_cp++; cp_len = n; moved = 0; return CPY + (n_cp - 1); }
static void *s_calloc(size_t a, size_t n)
{
	void *p = __CPROVER_allocate(a * n, 1);
	if (SELF == NULL) { SELF = p; selfsz = a * n; } else if (n == sizeof(uint32_t)) LENM = p; else IOVM = p;
	return p;
}
static void *s_memmove(void *d, const void *s, size_t n);
static void s_free(void *p);
#define malloc s_malloc
#define calloc s_calloc
#define memmove s_memmove
#define memcpy s_memmove
#define free s_free
#include "fstrm/fstrm-private.h"
#include "libmy/ubuf.h"
static fs_bufvec V, OV;	/* the object's vector; the vector of the options */
static ubuf UB;
static fs_bufvec *s_vinit(unsigned h) { PROVE(n_vinit == 0, "one vector"); n_vinit++; V._n = 0; OWNV = &V; return &V; }
static fs_buf s_value(fs_bufvec *v, size_t i);
static void s_vadd(fs_bufvec *v, fs_buf e)
{ PROVE(v == &V && n_vdes == 0, "adds to its own vector"); PROVE(e.data == CPY + (n_cp - 1) && n_add + 1 == n_cp && moved && e.len == cp_len && e.len == elen(n_cp - 1), "the copy just made, with its length"); n_add++; V._n++; }
static void s_vdes(fs_bufvec **v) { if (*v) { PROVE(*v == &V && n_vdes == 0, "own vector, once"); PROVE(n_ft == V._n, "after its elements"); n_vdes++; *v = NULL; } }
static ubuf *s_ubinit(unsigned h) { PROVE(n_ubi == 0, "one buffer"); n_ubi++; return &UB; }
static void s_ubdes(ubuf **u) { PROVE(*u == &UB && n_ubd == 0, "freed once"); n_ubd++; *u = NULL; }
static void s_cdes(struct fstrm_control **c)
{ if (*c == NULL) return; int k = -1; for (int i = 0; i < 6; i++) if (*c == CTK(i)) k = i; PROVE(k >= 0, "a frame of its own"); PROVE(n_self == 0 && n_cd[k] == 0, "freed once"); n_cd[k]++; *c = NULL; }
static fstrm_res s_rdes(struct fstrm_rdwr **r) { PROVE(*r == RDWR && n_rd == 0 && n_self == 0, "the transport is destroyed once"); n_rd++; *r = NULL; return fstrm_res_success; }
#define fs_bufvec_init s_vinit
#define fs_bufvec_add s_vadd
#define fs_bufvec_value s_value
#define fs_bufvec_destroy s_vdes
#define ubuf_init s_ubinit
#define ubuf_destroy s_ubdes
#define fstrm_control_destroy s_cdes
#define fstrm_rdwr_destroy s_rdes
#ifdef VF_W
#include "fstrm/writer.c"
#define X_ writer
#define opts fstrm_writer_options
#define obj fstrm_writer
#define oinit fstrm_writer_options_init
#define odestroy fstrm_writer_options_destroy
#define oadd fstrm_writer_options_add_content_type
#define xinit fstrm_writer_init
#define xdestroy fstrm_writer_destroy
#define xclose fstrm_writer_close
#define OPENING fstrm_writer_state_opening
#define LASTSTATE fstrm_writer_state_failed
#define MUSTCLOSE(s) ((s) == fstrm_writer_state_opened)
#else
#include "fstrm/reader.c"
#define opts fstrm_reader_options
#define obj fstrm_reader
#define oinit fstrm_reader_options_init
#define odestroy fstrm_reader_options_destroy
#define oadd fstrm_reader_options_add_content_type
#define xinit fstrm_reader_init
#define xdestroy fstrm_reader_destroy
#define OPENING fstrm_reader_state_opening
#define LASTSTATE fstrm_reader_state_failed
#define MUSTCLOSE(s) ((s) == fstrm_reader_state_opened || (s) == fstrm_reader_state_closing)
#endif
/* sources: the options' vector (copying), the given bytes (adding to options), the object's own vector (destroying) */
static const void *ARG; static _Bool adding, fresh;
static fs_buf s_value(fs_bufvec *v, size_t i)
{
	fs_buf e; PROVE(i < v->_n, "within the vector");
	if (dying) { PROVE(v == &V && n_vdes == 0 && n_self == 0, "own vector"); e.data = CPY + i; } else { PROVE(v == &OV, "the options' vector"); e.data = SRC + i; }
	e.len = elen(i); return e;
}
static void *s_memmove(void *d, const void *s, size_t n)
{
	if (fresh && d == SELF) { PROVE(n <= selfsz, "fits"); for (size_t i = 0; i < sizeof(struct opts); i++) if (i < n) ((char *)d)[i] = ((const char *)s)[i]; return d; }
	PROVE(n_cp == n_add + 1 && !moved && d == CPY + (n_cp - 1) && n == cp_len && n == elen(n_cp - 1), "copies the whole type into room of its size");
	PROVE(adding ? s == ARG : s == SRC + (n_cp - 1), "from its source"); moved = 1; return d;
}
static void s_free(void *p)
{
	if (p == NULL) return;
	if (CPY != NULL && SAME(p, CPY)) { PROVE(OFF(p) == n_ft && n_ft < V._n && n_vdes == 0, "every type freed once"); n_ft++; if (OFF(p) == gk) n_fk++; return; }
	if (p == IOVM) { n_iov++; return; } if (p == LENM) { n_len++; return; }
	PROVE(p == SELF && n_self == 0, "the object is freed once"); n_self++;
}
static void zero(void)
{
	SELF = IOVM = LENM = OWNV = NULL; n_cp = n_add = n_ft = 0; n_fk = n_fs = n_vinit = n_vdes = n_ubi = n_ubd = n_rd = n_close = n_self = n_iov = n_len = n_mv = 0; moved = dying = adding = fresh = 0; pf_close = nondet_bool(); for (int i = 0; i < 6; i++) n_cd[i] = 0;
	SRC = __CPROVER_allocate(1 << 21, 0); CPY = __CPROVER_allocate(1 << 21, 0); gk = nondet_size(); NV = nondet_size(); ASSUME(NV < 1 << 20);
#ifdef VF_BOUNDED
	ASSUME(NV <= 3);
#endif
	V._n = 0; OV._n = NV;
}
static fstrm_res m1(void *o, void *d, size_t n) { return fstrm_res_failure; }
static fstrm_res m2(void *o, const struct iovec *d, int n) { return fstrm_res_failure; }
void h_init(void)
{
	zero(); struct opts O; _Bool ho = nondet_bool(), hv = nondet_bool(), can = nondet_bool(); if (hv) O.content_types = &OV; else { O.content_types = NULL; NV = 0; } if (!ho) NV = 0;
	struct fstrm_rdwr W, *w = &W;
#ifdef VF_W
	W.ops.write = can ? m2 : NULL; W.ops.read = nondet_bool() ? m1 : NULL;
#else
	W.ops.read = can ? m1 : NULL; W.ops.write = nondet_bool() ? m2 : NULL; O.max_frame_size = nondet_size(); size_t mf = O.max_frame_size;
#endif
	struct obj *x = xinit(ho ? &O : NULL, &w);
	if (!can) { PROVE(x == NULL && w == &W && SELF == NULL && n_vinit == 0 && n_cp == 0, "a transport of the wrong direction is refused, nothing is taken"); return; }
	PROVE(x != NULL && x == SELF && w == NULL && x->rdwr == &W, "takes the transport over");
	PROVE(x->content_types == &V && V._n == NV && n_add == NV && n_cp == NV, "copies every content type once");
	PROVE(x->state == OPENING && x->control_start == NULL && x->control_ready == NULL && x->control_accept == NULL, "not open");
#ifdef VF_W
	PROVE(x->control_finish == NULL && x->iovecs == IOVM && x->be32_lens == LENM && IOVM && LENM, "room for a batch");
	PROVE(__CPROVER_OBJECT_SIZE(IOVM) >= 2 * 128 * sizeof(struct iovec) && __CPROVER_OBJECT_SIZE(LENM) >= 128 * sizeof(uint32_t), "of 128 frames");
#else
	PROVE(x->control_stop == NULL && x->control_tmp == NULL && x->buf == &UB && n_ubi == 1 && x->max_frame_size == (ho ? mf : 1048576), "buffer and maximum frame size");
#endif
	C1(NV > 2); C1(!ho);
}
fstrm_res s_close(struct obj *x)
{ PROVE(x == SELF && MUSTCLOSE(x->state) && n_close == 0 && n_rd == 0 && n_vdes == 0 && n_ft == 0 && n_self == 0, "closed once, before anything is freed"); for (int i = 0; i < 6; i++) PROVE(n_cd[i] == 0, "before anything is freed"); n_close++; x->state = nondet_bool() ? LASTSTATE : LASTSTATE; if (!pf_close) return fstrm_res_success; int cr = nondet_int(); ASSUME(cr == fstrm_res_failure || cr == fstrm_res_again || cr == fstrm_res_invalid || cr == fstrm_res_stop); return cr; }
void h_destroy(void)
{
	zero(); _Bool nul = nondet_bool(), has[6]; struct obj *x = NULL; dying = 1;
	if (!nul) {
		x = SELF = __CPROVER_allocate(sizeof *x, 1); x->state = nondet_int(); ASSUME((int)x->state >= OPENING && (int)x->state <= LASTSTATE); x->rdwr = RDWR; x->content_types = &V; V._n = NV;
		for (int i = 0; i < 6; i++) has[i] = nondet_bool();
		x->control_start = has[0] ? CTK(0) : NULL; x->control_ready = has[1] ? CTK(1) : NULL; x->control_accept = has[2] ? CTK(2) : NULL;
#ifdef VF_W
		x->control_finish = has[3] ? CTK(3) : NULL; x->iovecs = IOVM = __CPROVER_allocate(16, 0); x->be32_lens = LENM = __CPROVER_allocate(4, 0); has[4] = 0;
#else
		x->control_stop = has[3] ? CTK(3) : NULL; x->control_tmp = has[4] ? CTK(4) : NULL; x->buf = &UB;
#endif
	}
	int st = nul ? 0 : x->state;
	fstrm_res r = xdestroy(&x);
	PROVE(x == NULL, "the handle is cleared");
	if (nul) { PROVE(r == fstrm_res_failure && n_rd == 0 && n_self == 0 && n_ft == 0, "destroying nothing does nothing"); return; }
	PROVE(n_close == (MUSTCLOSE(st) ? 1 : 0) && (r == fstrm_res_success) == (MUSTCLOSE(st) && !pf_close), "an open stream is closed and the result passed on");
	PROVE(n_rd == 1 && n_self == 1 && n_vdes == 1 && n_ft == NV && IMPL(gk < NV, n_fk == 1), "transport, content types, vector and object are freed once");
	for (int i = 0; i < 5; i++) PROVE(n_cd[i] == has[i], "every frame is freed once");
#ifdef VF_W
	PROVE(n_iov == 1 && n_len == 1, "batch room is freed once");
#else
	PROVE(n_ubd == 1, "the buffer is freed once");
#endif
	C1(NV > 2 && MUSTCLOSE(st)); C1(!MUSTCLOSE(st) && has[0]);
}
void h_opts(void)
{
	zero(); fresh = 1; struct opts *o = oinit(); fresh = 0;
	PROVE(o != NULL && o == SELF && o->content_types == NULL, "fresh options hold no content type");
#ifndef VF_W
	PROVE(o->max_frame_size == 1048576, "the documented default");
#endif
	adding = 1; size_t l = nondet_size(); ARG = &tk[20]; _Bool had = nondet_bool();
	if (had) { o->content_types = &V; V._n = NV; n_add = n_cp = NV; n_vinit = 1; } else NV = 0;
	ASSUME(elen(NV) == l);
	fstrm_res r = oadd(o, ARG, l);
	PROVE((r == fstrm_res_success) == (l <= 256) && (r == fstrm_res_success || r == fstrm_res_failure), "types of up to 256 bytes are accepted");
	if (r == fstrm_res_success) PROVE(o->content_types == &V && V._n == NV + 1 && n_add == NV + 1 && moved, "a copy is added at the end");
	else PROVE(IMPL(had, o->content_types != NULL) && n_cp == NV && V._n == NV, "a refused type changes nothing");
	size_t n = o->content_types ? V._n : 0; _Bool v = o->content_types != NULL; dying = 1;
	odestroy(&o);
	PROVE(o == NULL && n_self == 1 && n_ft == n && n_vdes == v && IMPL(gk < n, n_fk == 1), "everything is freed once");
	odestroy(&o); PROVE(n_self == 1, "destroying nothing does nothing");
	C1(had && r == fstrm_res_success); C1(!had && r != fstrm_res_success);
}
