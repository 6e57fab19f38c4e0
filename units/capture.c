/*
 * src/fstrm_capture.c under contract.  libevent, stdio, fstrm_control_* and the C library are constructive contract
 * stubs (defined below, under their own names); functions of the file itself that are proved in another unit are
 * redirected to stubs s_* with the same contract (Unit.redirect).
 *   input   the bytes of a connection are numbered; byte p is the uninterpreted in_(p). The buffer holds bytes
 *           P .. P+L-1; draining n bytes advances P. As memory chunks, chunk k holds bytes P+S(k) .. P+S(k+1)-1.
 *   output  every write is recorded.
 */
#include "vf.h"
#define C1(c) COVER(c, "c")
#include <stdio.h>
#include <fstrm.h>
uint8_t __CPROVER_uninterpreted_in(uint64_t p); uint64_t __CPROVER_uninterpreted_S(uint64_t k);
#define in_(p) ((uint32_t)__CPROVER_uninterpreted_in((uint64_t)(p)))
#define be_(p) (in_(p) << 24 | in_((p) + 1) << 16 | in_((p) + 2) << 8 | in_((p) + 3))
#define S(k) ((k) == 0 ? (uint64_t)0 : __CPROVER_uninterpreted_S((uint64_t)(k)))
static char tk[32];
#define BEV ((struct bufferevent *)&tk[0])
#define EVI ((struct evbuffer *)&tk[1])
#define EVO ((struct evbuffer *)&tk[2])
#define LSN ((struct evconnlistener *)&tk[3])
#define BASE ((struct event_base *)&tk[4])
#define OUTF ((FILE *)&tk[5])
#define CTL ((struct fstrm_control *)&tk[6])
#define CT (&tk[7])
#define WF (&tk[8])
#define TYP (&tk[9])
#define SIG1 ((struct event *)&tk[10])
#define SIG2 ((struct event *)&tk[11])
#define OLDN (&tk[12])
#define NEWN (&tk[13])
#define UNIXP (&tk[14])
#define TCPA (&tk[15])
#define TCPP (&tk[16])
struct conn; struct capture; struct evbuffer_iovec;
static struct conn *CN; static struct capture *CX; static _Bool useV(struct evbuffer_iovec *v, uint64_t i);
static uint64_t P, L; static unsigned n_drain; static size_t total;
static char *TOK; static uint64_t NV; static unsigned n_peek; static uint64_t wrote, out_next; static _Bool pf_write; static uint64_t pf_at;
static int mode;	/* 1: data frames */
static size_t CTLEN, WFLEN;
static uint8_t *LIN; static unsigned n_pull;
/* control frames */
static int c_type; static unsigned c_n; static _Bool c_own, c_recv, c_undef; static unsigned n_dec, n_match, n_reset, n_cinit, n_cdestroy, n_set, n_add, n_enc;
static _Bool pf_dec, pf_match, pf_set, pf_enc, pf_bw, pf_pull; static int rtype; static size_t nrt;
static const void *enc_buf; static size_t ENCLEN; static int enc_type; static unsigned enc_n; static _Bool enc_own;
static unsigned n_sent; static int sent_type; static unsigned sent_n; static _Bool sent_own;
/* files */
static unsigned n_fw, n_fflush, n_fclose, n_open, n_fdopen, n_cfd, n_exit; static _Bool pf_open, pf_fdopen, pf_fclose, pf_ferror; static const void *fw_p; static size_t fw_n; static FILE *fw_f; static int fw_type; static _Bool file_open;
static const char *op_name; static _Bool may_exit; static FILE *fc_f; static unsigned seq, s_a, s_b;
/* connections */
static unsigned n_close, n_bfree, n_enable, n_disable, n_bnew, n_setcb, n_wm, n_ben, n_cls; static _Bool pf_bnew;
static unsigned n_xfree; static void *xf, *xf0;
static long now; static _Bool pf_dash;

static uint64_t nb; static _Bool must_close, full, loaded; static unsigned last_neg;
#ifdef VF_NOVA	/* goto-instrument --dfcc cannot handle variadic functions: the format arguments of the log calls are dropped */
#include <stdarg.h>
#include <event2/buffer.h>
#include <event2/bufferevent.h>
#undef va_start
#undef va_end
#define va_start(a, b)
#define va_end(a)
static const char *format;
#define conn_log(l, c, ...) vf_log(l, c)
#define conn_log_data(l, c, d, n, ...) vf_log_data(l, c, d, n)
#endif
#define main fstrm_capture_main
#include "src/fstrm_capture.c"
#undef main
char argv_program[32];
static void zero(void)
{
	n_drain = n_peek = n_pull = n_dec = n_match = n_reset = n_cinit = n_cdestroy = n_set = n_add = n_enc = n_sent = n_fw = n_fflush = n_fclose = n_open = n_fdopen = n_cfd = n_exit = 0;
	n_close = n_bfree = n_enable = n_disable = n_bnew = n_setcb = n_wm = n_ben = n_cls = n_xfree = 0; seq = s_a = s_b = 0;
	wrote = out_next = 0; mode = 0; may_exit = 0; c_undef = 0; c_recv = c_own = 0; c_n = 0; c_type = 0; xf = xf0 = NULL; enc_buf = NULL; fw_p = NULL; op_name = NULL; fc_f = NULL; file_open = 0;
	pf_write = nondet_bool(); pf_dec = nondet_bool(); pf_match = nondet_bool(); pf_set = 1; pf_enc = nondet_bool(); pf_bw = nondet_bool(); pf_pull = nondet_bool(); pf_open = nondet_bool(); pf_fdopen = nondet_bool(); pf_fclose = nondet_bool(); pf_ferror = nondet_bool(); pf_bnew = nondet_bool(); pf_dash = nondet_bool();
	rtype = nondet_int(); ASSUME(rtype >= FSTRM_CONTROL_ACCEPT && rtype <= FSTRM_CONTROL_FINISH); nrt = nondet_size(); now = nondet_long(); ASSUME(now >= 0 && now < 1L << 40);
	ENCLEN = nondet_size(); ASSUME(ENCLEN >= 12 && ENCLEN <= FSTRM_CONTROL_FRAME_LENGTH_MAX);
	CTLEN = nondet_size(); ASSUME(CTLEN < 1 << 20); WFLEN = nondet_size(); ASSUME(WFLEN < 1 << 20);
	P = nondet_u64(); ASSUME(P < 1ULL << 62); L = nondet_u64(); ASSUME(L < 1ULL << 40);
	stdout = (FILE *)&tk[20]; stderr = (FILE *)&tk[21];
}
/* a context and a connection in any state */
static void mk(void)
{
	zero();
	CX = __CPROVER_allocate(sizeof *CX, 0); CX->args = &g_program_args; CX->output_file = OUTF; CX->ev_connlistener = LSN; CX->ev_base = BASE;
	g_program_args.str_content_type = CT; g_program_args.str_write_fname = WF; g_program_args.split_seconds = nondet_int(); g_program_args.debug = nondet_int();
	ASSUME(CX->remaining_connections > -0x7fffffff && CX->remaining_connections < 0x7fffffff); CX->calendar_fn = NULL; CX->output_fname = NULL;
	ASSUME(CX->capture_highwater >= 1 && CX->capture_highwater <= 0x7fffffff);
	ASSUME(CX->output_open_timestamp >= 0 && CX->output_open_timestamp < 1L << 40);
	CN = __CPROVER_allocate(sizeof *CN, 0);
	CN->ctx = CX; CN->bev = BEV; CN->ev_input = EVI; CN->ev_output = EVO; CN->control = CTL; CN->len_buf = L; CN->bytes_skip = 0;
	ASSUME(CN->state >= CONN_STATE_READING_CONTROL_READY && CN->state <= CONN_STATE_STOPPED);
	ASSUME(CN->count_read < 1UL << 62 && CN->bytes_read < 1UL << 62 && CX->count_written < 1UL << 62 && CX->bytes_written < 1UL << 62);
}
/* ---- C library ---- */
int vfprintf(FILE *f, const char *fmt, va_list ap) { return 0; }
int fprintf(FILE *f, const char *fmt, ...) { return 0; }
int fputc(int c, FILE *f) { return c; }
int putc(int c, FILE *f) { return c; }
int fputs(const char *s, FILE *f) { return 0; }
char *strerror(int e) { return &tk[23]; }
void exit(int c) { PROVE(may_exit, "gives up only when writing failed"); PROVE(c != 0, "and says so"); n_exit++; ASSUME(0); }
size_t strlen(const char *s) { PROVE(s == CT || s == WF, "length of a known string"); return s == CT ? CTLEN : WFLEN; }
int strcmp(const char *a, const char *b) { PROVE(a == WF, "compares the output name"); return pf_dash ? 0 : 1; }
time_t time(time_t *t) { if (t) *t = now; return now; }
void tzset(void) { }
struct tm *gmtime_r(const time_t *t, struct tm *tm) { return tm; }
struct tm *localtime_r(const time_t *t, struct tm *tm) { return tm; }
void free(void *p) { if (p) { PROVE(p != xf && p != xf0, "freed once"); xf0 = xf; xf = p; n_xfree++; __CPROVER_deallocate(p); } }
#define gone(p) (xf == (void *)(p) || xf0 == (void *)(p))
void vf_print_string(const void *data, size_t len, FILE *out) { PROVE(__CPROVER_r_ok(data, len), "what is shown is there"); }
static size_t vf_fwrite(const void *p, size_t sz, size_t nm, FILE *f)
{
	if (mode == 1) {
		PROVE(SAME(p, TOK) && OFF(p) == out_next, "chunks are written in order, from their start");
		uint64_t k = out_next; PROVE(k < NV, "only what was peeked");
		PROVE(sz * nm == (S(k + 1) > total ? total : S(k + 1)) - S(k) && (nm == 1 || sz == 1), "exactly the bytes of the frame in this chunk");
		PROVE(f == OUTF, "to the output file"); PROVE(n_drain == 0, "before they are dropped");
		if (pf_write && pf_at == k) { may_exit = 1; size_t r = nondet_size(); ASSUME(r < nm); return r; }
		out_next++; wrote += sz * nm; return nm;
	}
	fw_p = p; fw_n = sz * nm; fw_f = f; n_fw++; fw_type = enc_type; s_b = ++seq;
	PROVE(file_open, "the file is open");
	PROVE(p == enc_buf && sz * nm == ENCLEN, "the encoded frame is written whole");
	if (pf_write) { size_t r = nondet_size(); ASSUME(r < nm); return r; }
	return nm;
}
size_t fwrite_unlocked(const void *p, size_t sz, size_t nm, FILE *f) { return vf_fwrite(p, sz, nm, f); }
static int vf_fflush(FILE *f) { PROVE(f == OUTF && file_open, "flushes the open file"); n_fflush++; return nondet_int(); }
int fflush_unlocked(FILE *f) { return vf_fflush(f); }
static int vf_ferror(FILE *f) { PROVE(f == fc_f || file_open, "the file is open"); return pf_ferror ? 1 : 0; }
int ferror_unlocked(FILE *f) { return vf_ferror(f); }
int ferror(FILE *f) { return vf_ferror(f); }
int fclose(FILE *f) { PROVE(file_open, "closed once"); file_open = 0; fc_f = f; n_fclose++; s_a = ++seq; return pf_fclose ? -1 : 0; }
int open(const char *n, int fl, ...) { op_name = n; PROVE((fl & (O_CREAT | O_WRONLY | O_TRUNC | O_RDWR | O_APPEND | O_EXCL)) == (O_CREAT | O_WRONLY | O_TRUNC), "creates or truncates"); n_open++; return pf_open ? -1 : 7; }
FILE *fdopen(int fd, const char *m) { PROVE(fd == 7 && m[0] == 'w', "the descriptor just opened"); n_fdopen++; if (pf_fdopen) return NULL; file_open = 1; return OUTF; }
int close(int fd) { PROVE(fd == 7, "the descriptor just opened"); n_cfd++; return 0; }
/* ---- libevent ---- */
struct evbuffer *bufferevent_get_input(struct bufferevent *b) { PROVE(b == BEV, "own bufferevent"); return EVI; }
struct evbuffer *bufferevent_get_output(struct bufferevent *b) { PROVE(b == BEV, "own bufferevent"); return EVO; }
evutil_socket_t bufferevent_getfd(struct bufferevent *b) { PROVE(b == BEV && n_bfree == 0, "own bufferevent, not freed"); return 5; }
void bufferevent_free(struct bufferevent *b) { PROVE(b == BEV, "own bufferevent"); PROVE(n_bfree == 0, "freed once"); n_bfree++; }
size_t evbuffer_get_length(const struct evbuffer *b) { PROVE(b == EVI, "the input"); return L; }
ev_ssize_t evbuffer_copyout(struct evbuffer *b, void *d, size_t n)
{
	PROVE(b == EVI && n <= 8, "the input");
	uint8_t *o = d; size_t k = n < L ? n : L;
	if (k > 0) o[0] = in_(P); if (k > 1) o[1] = in_(P + 1); if (k > 2) o[2] = in_(P + 2); if (k > 3) o[3] = in_(P + 3);
	if (k > 4) o[4] = in_(P + 4); if (k > 5) o[5] = in_(P + 5); if (k > 6) o[6] = in_(P + 6); if (k > 7) o[7] = in_(P + 7);
	return k;
}
int evbuffer_drain(struct evbuffer *b, size_t n) { PROVE(b == EVI && n <= L, "drains what is there"); P += n; L -= n; n_drain++; return 0; }
unsigned char *evbuffer_pullup(struct evbuffer *b, ev_ssize_t n) { PROVE(b == EVI, "the input"); n_pull++; if (n < 0 || (size_t)n > L || pf_pull) return NULL; LIN = __CPROVER_allocate(n, 0); return LIN; }
int evbuffer_peek(struct evbuffer *b, ev_ssize_t len, struct evbuffer_ptr *st, struct evbuffer_iovec *v, int nv)
{
	PROVE(b == EVI && st == NULL && len > 0 && (size_t)len == total && total <= L, "peeks at the frame"); n_peek++;
	if (v != NULL) {
		PROVE(nv == NV, "room for every chunk");
#ifdef VF_BOUNDED
		ASSUME(NV <= 4); for (unsigned i = 0; i < 4; i++) useV(v, i);
#endif
	}
	return NV;	/* the contents of v are given by useV() */
}
static _Bool useV(struct evbuffer_iovec *v, uint64_t i)
{
	if (i < NV) { ASSUME(v[i].iov_base == TOK + i && v[i].iov_len == S(i + 1) - S(i)); ASSUME(S(i) < S(i + 1) && S(i) < total && S(i + 1) < 1ULL << 41); ASSUME(i + 1 < NV ? S(i + 1) < total : S(i + 1) >= total); }
	return 1;
}
int bufferevent_write(struct bufferevent *b, const void *d, size_t n)
{
	PROVE(b == BEV, "own connection"); PROVE(d == enc_buf && n == ENCLEN, "the encoded frame is sent whole");
	if (pf_bw) return -1;
	n_sent++; sent_type = enc_type; sent_n = enc_n; sent_own = enc_own; return 0;
}
static int rem0;
int evconnlistener_enable(struct evconnlistener *l) { PROVE(l == LSN, "the listener"); n_enable++; return 0; }
int evconnlistener_disable(struct evconnlistener *l) { PROVE(l == LSN, "the listener"); n_disable++; return 0; }
struct event_base *evconnlistener_get_base(struct evconnlistener *l) { PROVE(l == LSN, "the listener"); return BASE; }
static struct conn *NEW;
struct bufferevent *bufferevent_socket_new(struct event_base *b, evutil_socket_t fd, int o) { PROVE(b == BASE && fd == 5 && (o & BEV_OPT_CLOSE_ON_FREE), "owns the socket"); n_bnew++; return pf_bnew ? NULL : BEV; }
void bufferevent_setcb(struct bufferevent *b, bufferevent_data_cb r, bufferevent_data_cb w, bufferevent_event_cb e, void *a)
{ PROVE(b == BEV && r == cb_read && w == cb_write && e == cb_close_conn, "its callbacks"); NEW = a; n_setcb++; }
void bufferevent_setwatermark(struct bufferevent *b, short ev, size_t lo, size_t hi) { PROVE(b == BEV && (!(ev & EV_READ) || (lo == 0 && hi == CX->capture_highwater)), "reads up to the buffer size"); PROVE(!(ev & EV_WRITE) || lo == 0, "told when all is written"); n_wm++; }
int bufferevent_enable(struct bufferevent *b, short ev) { PROVE(b == BEV && ev == (EV_READ | EV_WRITE) && n_setcb == 1, "both directions, with callbacks"); n_ben++; return 0; }
int evutil_closesocket(evutil_socket_t fd) { PROVE(fd == 5, "the refused socket"); n_cls++; return 0; }
/* ---- control frames (proved in P01-P04) ---- */
struct fstrm_control *fstrm_control_init(void) { n_cinit++; c_type = 0; c_n = 0; c_recv = 0; c_own = 0; return CTL; }
void fstrm_control_destroy(struct fstrm_control **c) { if (*c) { PROVE(*c == CTL, "own control frame"); n_cdestroy++; *c = NULL; } }
void fstrm_control_reset(struct fstrm_control *c) { PROVE(c == CTL, "own control frame"); c_type = 0; c_n = 0; c_own = 0; c_recv = 0; n_reset++; }
fstrm_res fstrm_control_get_type(const struct fstrm_control *c, fstrm_control_type *t) { PROVE(c == CTL, "own control frame"); *t = c_type; return fstrm_res_success; }
fstrm_res fstrm_control_set_type(struct fstrm_control *c, fstrm_control_type t) { PROVE(c == CTL && t >= FSTRM_CONTROL_ACCEPT && t <= FSTRM_CONTROL_FINISH, "a control frame type"); c_type = t; n_set++; return fstrm_res_success; }
fstrm_res fstrm_control_get_num_field_content_type(const struct fstrm_control *c, size_t *n) { PROVE(c == CTL, "own control frame"); *n = c_recv ? nrt : c_n; return fstrm_res_success; }
fstrm_res fstrm_control_get_field_content_type(const struct fstrm_control *c, const size_t i, const uint8_t **t, size_t *l) { PROVE(c == CTL, "own control frame"); if (i >= (c_recv ? nrt : c_n)) return fstrm_res_failure; *t = (const uint8_t *)TYP; *l = 1; return fstrm_res_success; }
fstrm_res fstrm_control_add_field_content_type(struct fstrm_control *c, const uint8_t *t, size_t l)
{ PROVE(c == CTL, "own control frame"); PROVE(!c_recv, "added to a fresh frame"); if (l > FSTRM_CONTROL_FIELD_CONTENT_TYPE_LENGTH_MAX) return fstrm_res_failure; c_own = (t == (const uint8_t *)CT && l == CTLEN); c_n++; n_add++; return fstrm_res_success; }
fstrm_res fstrm_control_match_field_content_type(const struct fstrm_control *c, const uint8_t *t, size_t l)
{ PROVE(c == CTL && c_recv && t == (const uint8_t *)CT && l == CTLEN, "the received frame is matched against the own type"); n_match++; return pf_match ? fstrm_res_success : fstrm_res_failure; }
fstrm_res fstrm_control_decode(struct fstrm_control *c, const void *b, size_t n, const uint32_t fl)
{ PROVE(c == CTL && b == LIN && n == total && (fl & FSTRM_CONTROL_FLAG_WITH_HEADER), "exactly the frame is decoded"); n_dec++; if (!pf_dec) return fstrm_res_failure; c_recv = 1; c_type = rtype; return fstrm_res_success; }
fstrm_res fstrm_control_encode(const struct fstrm_control *c, void *b, size_t *n, const uint32_t fl)
{ PROVE(c == CTL && (fl & FSTRM_CONTROL_FLAG_WITH_HEADER) && __CPROVER_w_ok(b, *n), "encoded with header into the buffer"); n_enc++; if (!pf_enc || *n < ENCLEN) return fstrm_res_failure; *n = ENCLEN; enc_buf = b; enc_type = c_type; enc_n = c_n; enc_own = c_own; return fstrm_res_success; }
const char *fstrm_control_type_to_str(fstrm_control_type t) { return &tk[24]; }
void argv_cleanup(argv_t *a) { }

/* ======== framing ======== */
static void s_close_conn(struct bufferevent *bev, short e, void *arg) { PROVE(bev == BEV && arg == CN && n_close == 0, "closes this connection, once"); n_close++;
	CN->ctx = NULL; CN->bev = NULL; CN->ev_input = NULL; CN->ev_output = NULL; CN->control = NULL; CN->state = 77; CN->len_frame_payload = nondet_u32(); CN->len_frame_total = nondet_size(); CN->bytes_skip = nondet_size(); CN->len_buf = nondet_size(); /* freed: cap.close */ }
void h_can(void)
{
	mk(); uint64_t L0 = L, P0 = P; size_t hw = CX->capture_highwater; conn_state st = CN->state; size_t cr = CN->count_read, br = CN->bytes_read;
	_Bool r = can_read_full_frame(CN);
	uint32_t pl = be_(P0), cl = be_(P0 + 4); uint64_t tot = pl ? 4 + (uint64_t)pl : 8 + (uint64_t)cl;
	_Bool known = L0 >= 4 && (pl || L0 >= 8), bad = known && !pl && (cl < 4 || cl > FSTRM_CONTROL_FRAME_LENGTH_MAX);
	PROVE(L == L0 && P == P0 && n_drain == 0, "nothing is consumed");
	PROVE((n_close == 1) == bad && n_close <= 1, "the connection is closed exactly for an impossible control frame length");
	PROVE(IMPL(bad, !r), "and not used after that");
	PROVE(r == (known && !bad && (L0 >= tot || tot > hw)), "true exactly if the frame has arrived or can never fit");
	if (!bad) {
		PROVE(IMPL(r, CN->len_frame_payload == pl && CN->len_frame_total == tot), "the length fields are read right");
		PROVE(CN->bytes_skip == (r && L0 < tot ? tot : 0), "an oversized frame is skipped whole");
		PROVE(CN->state == st && CN->count_read == cr && CN->bytes_read == br && CN->bev == BEV && CN->ev_input == EVI && CN->control == CTL && CN->ctx == CX && CN->len_buf == L0, "nothing else changes");
	}
	C1(bad); C1(r && L0 < tot); C1(r && L0 == tot && !pl); C1(r && L0 > tot && pl > 0xfffffff0u); C1(!r && L0 >= 8);
}
void h_data(void)
{
	mk(); mode = 1; total = nondet_size(); ASSUME(total >= 5 && total <= L && total <= 4 + 0xffffffffUL); CN->len_frame_total = total;
	NV = nondet_u64(); ASSUME(NV >= 1 && NV <= 1 << 20); TOK = __CPROVER_allocate(1 << 21, 0); pf_at = nondet_u64();
	uint64_t P0 = P, L0 = L; size_t cr = CN->count_read, br = CN->bytes_read, cw = CX->count_written, bw = CX->bytes_written; conn_state st = CN->state;
	process_data_frame(CN);
	PROVE(wrote == total, "every byte of the frame, length included, is written once"); PROVE(P == P0 + total && L == L0 - total && n_drain == 1, "and then dropped from the input");
	PROVE(CN->count_read == cr + 1 && CN->bytes_read == br + total && CX->count_written == cw + 1 && CX->bytes_written == bw + total, "and counted");
	PROVE(CN->state == st && CX->output_file == OUTF && CN->ctx == CX && n_close == 0, "nothing else changes");
	PROVE(IMPL(pf_write, pf_at >= NV), "a failed write is not passed over");
	C1(NV > 3); C1(NV == 1);
}
/* cb_read: ghost nb is where the next frame starts */
_Bool s_can(struct conn *c)
{
	PROVE(c == CN && n_close == 0 && CN->bytes_skip == 0 && CN->len_buf == L && P == nb && L > 0, "looks for a frame at the start of a frame");
	PROVE(CN->bev == BEV && CN->ev_input == EVI, "knows its buffers");
	uint32_t pl = be_(P), cl = be_(P + 4); uint64_t tot = pl ? 4 + (uint64_t)pl : 8 + (uint64_t)cl; _Bool known = L >= 4 && (pl || L >= 8), bad = known && !pl && (cl < 4 || cl > FSTRM_CONTROL_FRAME_LENGTH_MAX);
	full = 0;
	if (bad) { s_close_conn(CN->bev, 0, CN); return 0; }
	CN->len_frame_payload = nondet_u32(); CN->len_frame_total = nondet_size(); last_neg = 1;
	if (!known) return 0;
	CN->len_frame_payload = pl; CN->len_frame_total = tot;
	if (L < tot) { if (tot <= CX->capture_highwater) return 0; CN->bytes_skip = tot; nb = P + tot; last_neg = 0; return 1; }
	full = 1; nb = P + tot; last_neg = 0; return 1;
}
void s_data(struct conn *c) { PROVE(c == CN && n_close == 0 && full && CN->len_frame_payload > 0 && CN->state == CONN_STATE_READING_DATA && P + CN->len_frame_total == nb, "a whole data frame inside a stream is written"); P = nb; L -= CN->len_frame_total; full = 0; CN->count_read = nondet_size(); CN->bytes_read = nondet_size(); }
void s_rot(struct conn *c) { PROVE(c == CN && n_close == 0, "rotates only while it works on a client"); }
_Bool s_load(struct conn *c)
{ PROVE(c == CN && n_close == 0 && full && CN->len_frame_payload == 0 && P + CN->len_frame_total == nb, "a whole control frame is decoded"); full = 0; if (nondet_bool()) return 0; L -= CN->len_frame_total; P = nb; loaded = 1; return 1; }
_Bool s_proc(struct conn *c)
{ PROVE(c == CN && n_close == 0 && loaded, "a decoded control frame is acted on"); loaded = 0; if (nondet_bool()) { must_close = 1; return 0; } conn_state s = nondet_int(); ASSUME(s > CN->state && s <= CONN_STATE_STOPPED); CN->state = s; return 1; }
void h_cbread(void)
{
	mk(); CN->bytes_skip = nondet_size(); ASSUME(CN->bytes_skip <= 1ULL << 33); nb = P + CN->bytes_skip; full = loaded = must_close = 0; last_neg = 0; uint64_t E = P + L;
	CN->bev = nondet_bool() ? BEV : NULL; CN->ev_input = nondet_bool() ? EVI : NULL;
	cb_read(BEV, CN);
	PROVE(P + L == E && nb >= P, "bytes are consumed in order");
	PROVE(IMPL(must_close, n_close == 1), "a failed frame closes the connection");
	PROVE(!loaded && IMPL(!n_close, !full), "no frame is left half handled");
	PROVE(IMPL(!n_close, L == 0 || last_neg), "nothing that can be handled is left waiting");
	PROVE(IMPL(!n_close, P + CN->bytes_skip == nb), "only whole frames are consumed");
	C1(n_close); C1(!n_close && L > 0); C1(!n_close && L == 0 && CN->bytes_skip > 0);
}
/* ======== protocol ======== */
void h_load(void)
{
	mk(); total = nondet_size(); ASSUME(total >= 8 && total <= L); CN->len_frame_total = total; uint64_t P0 = P, L0 = L; conn_state st = CN->state;
	_Bool r = load_control_frame(CN);
	_Bool ok = total <= 8 + FSTRM_CONTROL_FRAME_LENGTH_MAX && !pf_pull && pf_dec;
	PROVE(r == ok, "succeeds exactly if the frame is short enough and decodes");
	PROVE(IMPL(r, n_dec == 1 && c_recv && P == P0 + total && L == L0 - total), "the frame is taken whole"); PROVE(IMPL(!r, P == P0 && L == L0), "or not at all");
	PROVE(CN->state == st && n_close == 0 && n_sent == 0, "nothing else changes");
	C1(r && total == 520); C1(!r && total <= 520);
}
void h_ctl(void)
{
	mk(); c_recv = 1; c_type = rtype; conn_state st = CN->state; size_t cr = CN->count_read;
	_Bool r = process_control_frame(CN);
	_Bool okR = st == CONN_STATE_READING_CONTROL_READY && rtype == FSTRM_CONTROL_READY && pf_match && CTLEN <= FSTRM_CONTROL_FIELD_CONTENT_TYPE_LENGTH_MAX && pf_enc && !pf_bw;
	_Bool okS = st == CONN_STATE_READING_CONTROL_START && rtype == FSTRM_CONTROL_START && pf_match;
	_Bool okT = st == CONN_STATE_READING_DATA && rtype == FSTRM_CONTROL_STOP && pf_enc && !pf_bw;
	PROVE(r == (okR || okS || okT), "each state accepts exactly its own control frame");
	PROVE(CN->state == (okR ? CONN_STATE_READING_CONTROL_START : okS ? CONN_STATE_READING_DATA : okT ? CONN_STATE_STOPPED : st), "and moves on only then");
	PROVE(n_sent == (okR || okT), "an answer is sent exactly when one is due");
	PROVE(IMPL(okR, sent_type == FSTRM_CONTROL_ACCEPT && sent_n == 1 && sent_own), "READY is answered by ACCEPT with the own type");
	PROVE(IMPL(okT, sent_type == FSTRM_CONTROL_FINISH && sent_n == 0), "STOP is answered by FINISH");
	PROVE(CN->count_read == cr && n_drain == 0 && n_close == 0 && CN->control == CTL && CN->ctx == CX, "nothing else changes");
	C1(okR && nrt > 5); C1(okS); C1(okT); C1(!r && st == CONN_STATE_STOPPED);
}
void h_close(void)
{
	mk(); rem0 = CX->remaining_connections; if (nondet_bool()) CN->bev = NULL; short e = nondet_int();
	cb_close_conn(BEV, e, CN);
	PROVE(n_bfree == 1, "the connection is freed once"); PROVE(n_cdestroy == 1, "with its control frame");
	PROVE(gone(CN), "and its state"); PROVE(CX->remaining_connections == rem0 + 1, "and gives back its place");
	PROVE(n_enable == (rem0 == 0) && n_disable == 0, "listening resumes exactly when a place becomes free");
	C1(rem0 == 0); C1(rem0 != 0);
}
void h_write(void)
{
	mk(); conn_state st = CN->state;
	cb_write(BEV, CN);
	PROVE(n_close == (st == CONN_STATE_STOPPED), "closed once everything is sent, exactly after the FINISH");
	C1(n_close); C1(!n_close);
}
void h_accept(void)
{
	mk(); rem0 = CX->remaining_connections; NEW = NULL;
	cb_accept_conn(LSN, 5, NULL, 0, CX);
	PROVE(n_bnew == 1, "one bufferevent");
	if (pf_bnew) { PROVE(n_cls == 1 && n_setcb == 0 && CX->remaining_connections == rem0 && n_disable == 0, "a connection that cannot be set up is dropped and takes no place"); }
	else {
		PROVE(n_cls == 0 && n_setcb == 1 && n_wm == 1 && n_ben == 1, "set up once");
		PROVE(NEW->ctx == CX && NEW->state == CONN_STATE_READING_CONTROL_READY && NEW->control == CTL && NEW->bytes_skip == 0 && NEW->count_read == 0 && NEW->bytes_read == 0 && n_cinit == 1, "waiting for READY");
		PROVE(CX->remaining_connections == rem0 - 1 && n_disable == (rem0 == 1) && n_enable == 0, "listening stops exactly when the last place is taken");
	}
	C1(pf_bnew); C1(!pf_bnew && rem0 == 1);
}
/* ======== output file ======== */
#define OUTOK (pf_enc && !pf_write)
void h_start(void)
{
	mk(); file_open = 1; size_t cw = CX->count_written, bw = CX->bytes_written; _Bool add = CTLEN <= FSTRM_CONTROL_FIELD_CONTENT_TYPE_LENGTH_MAX;
	_Bool r = open_write_start(CX);
	PROVE(IMPL(r, add && OUTOK), "success only if the whole START frame went out"); PROVE(IMPL(!r, !add || !OUTOK || n_fflush), "and failure only if not");
	PROVE(IMPL(r, n_fw == 1 && fw_f == OUTF && fw_type == FSTRM_CONTROL_START && enc_n == 1 && enc_own), "START with the own content type");
	PROVE(n_fw <= 1 && n_cinit == n_cdestroy && n_cinit == 1, "nothing is leaked");
	PROVE(CX->count_written == cw + r && CX->bytes_written == bw + (r ? ENCLEN : 0) && CX->output_file == OUTF && file_open, "counted");
	C1(r); C1(!r && n_fw);
}
void h_stop(void)
{
	mk(); file_open = 1; size_t cw = CX->count_written, bw = CX->bytes_written;
	_Bool r = close_write_stop(CX);
	PROVE(IMPL(r, OUTOK), "success only if the whole STOP frame went out"); PROVE(IMPL(!r, !OUTOK || n_fflush), "and failure only if not");
	PROVE(IMPL(r, n_fw == 1 && fw_f == OUTF && fw_type == FSTRM_CONTROL_STOP && enc_n == 0), "STOP without a content type");
	PROVE(n_fw <= 1 && n_cinit == n_cdestroy && n_cinit == 1, "nothing is leaked");
	PROVE(CX->count_written == cw + r && CX->bytes_written == bw + (r ? ENCLEN : 0) && CX->output_file == OUTF && file_open, "counted");
	C1(r); C1(!r && n_fw);
}
static unsigned n_ss, n_st, n_uf; static _Bool pf_ss, pf_st, pf_uf; static unsigned s_ss, s_st;
_Bool s_start(struct capture *c) { PROVE(c == CX && n_ss == 0 && (CX->output_file == stdout || (CX->output_file == OUTF && file_open)) && CX->count_written == 0 && CX->bytes_written == 0, "START comes first, in the newly opened file"); n_ss++; s_ss = ++seq; return pf_ss; }
_Bool s_stop(struct capture *c) { PROVE(c == CX && n_st == 0 && CX->output_file == OUTF && file_open && n_fclose == 0, "STOP comes last"); n_st++; s_st = ++seq; return pf_st; }
const char *s_fname(struct capture *c) { PROVE(c == CX, "own context"); n_uf++; if (!pf_uf) { CX->output_fname = NULL; return NULL; } CX->output_fname = NEWN; return NEWN; }
static struct tm *cal(const time_t *t, struct tm *tm);
static void files(void) { n_ss = n_st = n_uf = 0; pf_ss = nondet_bool(); pf_st = nondet_bool(); pf_uf = nondet_bool(); s_ss = s_st = 0; }
void h_openf(void)
{
	mk(); files(); CX->output_file = NULL; _Bool hc = nondet_bool(); CX->calendar_fn = hc ? cal : NULL; if (pf_dash) { file_open = 1; }
	_Bool r = open_write_file(CX);
	if (pf_dash) { PROVE(n_open == 0 && n_uf == 0, "stdout is not opened"); PROVE(r == (_Bool)pf_ss && IMPL(r, CX->output_file == stdout), "stdout is used as it is"); }
	else {
		_Bool nm = !hc || pf_uf, op = nm && !pf_open, fd = op && !pf_fdopen;
		PROVE(r == (fd && pf_ss), "succeeds exactly if every step does");
		PROVE(n_uf == hc && n_open == nm && IMPL(nm, op_name == (hc ? (const char *)NEWN : (const char *)WF)), "the file named by the option, expanded if asked");
		PROVE(n_cfd == (op && pf_fdopen) && n_fclose == (fd && !pf_ss), "a file that cannot be used is closed");
		PROVE(IMPL(r, file_open && CX->output_file == OUTF), "the output is open"); PROVE(IMPL(!r, !file_open && CX->output_file == NULL), "or it is not");
	}
	PROVE(IMPL(r, n_ss == 1), "it begins with START");
	C1(r && hc && !pf_dash); C1(!r && n_fclose); C1(!r && n_cfd); C1(r && pf_dash);
}
void h_closef(void)
{
	mk(); files(); _Bool has = nondet_bool(); CX->output_file = has ? OUTF : NULL; file_open = has;
	_Bool r = close_write_file(CX);
	PROVE(n_st == has, "it ends with STOP"); PROVE(n_fclose <= 1 && IMPL(n_fclose, s_st && s_st < s_a && fc_f == OUTF), "then it is closed, once");
	PROVE(IMPL(r && has, pf_st && n_fclose == 1 && !pf_fclose && CX->output_file == NULL), "success means that everything was written and closed");
	PROVE(IMPL(r && has, !pf_ferror), "with no write error before");
	PROVE(IMPL(has && pf_st && !pf_fclose && !pf_ferror, r), "which is reported"); PROVE(IMPL(!has, r), "nothing to close, nothing fails");
	PROVE(IMPL(n_fclose, CX->output_file == NULL), "a closed file is not used again");
	C1(r && has); C1(!r);
}
static unsigned n_cl, n_op; static _Bool pf_cl, pf_op; static unsigned n_ro;
_Bool s_closef(struct capture *c) { PROVE(c == CX && n_op == 0 && n_cl == 0, "closed first"); n_cl++; if (!pf_cl) may_exit = 1; else CX->output_file = NULL; return pf_cl; }
_Bool s_openf(struct capture *c) { PROVE(c == CX && n_cl == 1 && pf_cl && n_op == 0, "then the next is opened"); n_op++; if (!pf_op) may_exit = 1; else CX->output_file = OUTF; return pf_op; }
void s_rotate(struct capture *c) { PROVE(c == CX, "own context"); n_ro++; }
void h_rot(void)
{
	mk(); n_cl = n_op = 0; pf_cl = nondet_bool(); pf_op = nondet_bool(); _Bool so = nondet_bool(); CX->output_file = so ? stdout : OUTF;
	rotate_output(CX);
	PROVE(IMPL(so, n_cl == 0 && n_op == 0 && CX->output_file == stdout), "stdout is not rotated");
	PROVE(IMPL(!so, n_cl == 1 && n_op == 1 && pf_cl && pf_op), "the old file is closed and a new one opened, or the program ends");
	C1(so); C1(!so);
}
void h_maybe(void)
{
	mk(); n_ro = 0; int sp = g_program_args.split_seconds; long ts = CX->output_open_timestamp;
	maybe_rotate_output(CN);
	PROVE(n_ro == (sp > 0 && now >= ts + sp), "rotated exactly when the interval has passed");
	C1(n_ro); C1(!n_ro && sp > 0);
}
static struct tm *TM; static unsigned n_cal, n_sft; static _Bool pf_sft;
static struct tm *cal(const time_t *t, struct tm *tm) { PROVE(*t == now, "the current time"); TM = tm; n_cal++; return tm; }
size_t strftime(char *s, size_t m, const char *f, const struct tm *tm) { PROVE(f == WF && tm == TM && n_cal == 1 && __CPROVER_w_ok(s, m) && m >= WFLEN + 1, "the name pattern, expanded for that time"); n_sft++; return pf_sft ? 0 : 5; }
void h_fname(void)
{
	mk(); n_cal = n_sft = 0; pf_sft = nondet_bool(); CX->calendar_fn = cal; char *o = nondet_bool() ? (char *)__CPROVER_allocate(3, 0) : (char *)NULL; CX->output_fname = o;
	const char *r = update_output_fname(CX);
	PROVE((r != NULL) == !pf_sft && r == CX->output_fname && n_sft == 1, "the expanded name, or nothing");
	PROVE(CX->output_open_timestamp == now, "the rotation interval starts now"); PROVE(IMPL(o, gone(o)), "the old name is freed");
	C1(r && o); C1(!r);
}
void h_sig(void)
{
	mk(); n_ro = 0; _Bool has = nondet_bool(); CX->output_file = has ? OUTF : NULL; file_open = has;
	do_sigusr1(0, 0, CX); PROVE(n_ro == has && n_fflush == 0, "SIGUSR1 rotates the output");
	do_sighup(0, 0, CX); PROVE(n_ro == has && n_fflush == has, "SIGHUP flushes it");
	C1(has); C1(!has);
}
/* ======== the program ======== */
static unsigned n_usage, n_pa, n_ru, n_rt, n_ow, n_se, n_sg, n_di, n_cw, n_cu; static _Bool pf_pa, pf_ru, pf_rt, pf_ow, pf_se, pf_sg, pf_cw; static int r_di; static _Bool usage_due;
_Bool s_usage(const char *m) { n_usage++; PROVE(usage_due, "usage errors are real"); ASSUME(0); return 0; }
_Bool s_parse(const int argc, char **argv, struct capture *c)
{ PROVE(c == &g_program_ctx, "own context"); n_pa++; g_program_args.str_read_unix = nondet_bool() ? UNIXP : NULL; g_program_args.str_read_tcp_address = nondet_bool() ? TCPA : NULL; g_program_args.str_read_tcp_port = nondet_bool() ? TCPP : NULL;
  if (pf_pa) ASSUME((g_program_args.str_read_unix || g_program_args.str_read_tcp_address) && (!g_program_args.str_read_tcp_address || g_program_args.str_read_tcp_port)); return pf_pa; }
_Bool s_ru(struct capture *c) { PROVE(c == &g_program_ctx && pf_pa && c->args == &g_program_args, "after the arguments"); n_ru++; return pf_ru; }
_Bool s_rt(struct capture *c) { PROVE(c == &g_program_ctx && pf_pa && c->args == &g_program_args, "after the arguments"); n_rt++; return pf_rt; }
_Bool s_ow(struct capture *c) { PROVE(c == &g_program_ctx && c->args == &g_program_args && n_ru + n_rt == 1, "after the address"); n_ow++; return pf_ow; }
_Bool s_se(struct capture *c) { PROVE(c == &g_program_ctx && n_ow == 1 && pf_ow, "no connection is accepted before the output is open"); n_se++; if (pf_se) c->ev_base = BASE; return pf_se; }
_Bool s_sg(void) { PROVE(n_se == 1, "with an event loop to end"); n_sg++; return pf_sg; }
int event_base_dispatch(struct event_base *b) { PROVE(b == BASE && n_sg == 1 && pf_sg && n_cw == 0, "runs the event loop"); n_di++; return r_di; }
_Bool s_cw(struct capture *c) { PROVE(c == &g_program_ctx && n_di == 1, "finishes the output after the last connection was served"); n_cw++; return pf_cw; }
void s_cu(struct capture *c) { PROVE(c == &g_program_ctx && n_cw == 1, "cleans up last"); n_cu++; }
static void prog(void)
{
	zero(); n_usage = n_pa = n_ru = n_rt = n_ow = n_se = n_sg = n_di = n_cw = n_cu = 0; usage_due = 1; r_di = nondet_int();
	pf_pa = nondet_bool(); pf_ru = nondet_bool(); pf_rt = nondet_bool(); pf_ow = nondet_bool(); pf_se = nondet_bool(); pf_sg = nondet_bool(); pf_cw = nondet_bool();
	g_program_ctx.args = NULL; g_program_ctx.ev_base = NULL; g_program_ctx.output_fname = NULL; g_program_ctx.output_file = NULL;
}
void h_main(void)
{
	prog(); char *av[2] = { &tk[25], NULL };
	int r = fstrm_capture_main(1, av);
	_Bool ux = g_program_args.str_read_unix != NULL;
	_Bool all = pf_pa && (ux ? pf_ru : pf_rt) && pf_ow && pf_se && pf_sg && r_di == 0 && pf_cw;
	PROVE(IMPL(r == 0, all), "success means that every step succeeded, the last being the completed output"); PROVE(IMPL(all, r == 0 && n_cu == 1), "and then it is success");
	PROVE(n_cw == (n_di && r_di == 0), "the output is finished whenever the event loop ends");
	PROVE(IMPL(pf_pa, n_ru == ux && n_rt == !ux), "listens where it was told");
	C1(r == 0 && ux); C1(r == 0 && !ux); C1(r && n_cw);
}
int isatty(int fd) { PROVE(fd == 1, "standard output"); return pf_enc; }
static _Bool pf_av;
int argv_process(argv_t *a, const int n, char **v)
{
	PROVE(a == g_args, "own options"); n_pa++;
	g_program_args.help = nondet_bool() ? 1 : 0; g_program_args.localtime = nondet_bool() ? 1 : 0; g_program_args.gmtime = nondet_bool() ? 1 : 0;
	g_program_args.str_content_type = nondet_bool() ? CT : NULL; g_program_args.str_read_unix = nondet_bool() ? UNIXP : NULL; g_program_args.str_read_tcp_address = nondet_bool() ? TCPA : NULL; g_program_args.str_read_tcp_port = nondet_bool() ? TCPP : NULL; g_program_args.str_write_fname = nondet_bool() ? WF : NULL;
	g_program_args.split_seconds = nondet_int(); g_program_args.buffer_size = nondet_int(); g_program_args.count_connections = nondet_int();
	struct capture_args *A = &g_program_args;
	usage_due = !A->str_content_type || (!A->str_read_unix && !A->str_read_tcp_address) || (A->str_read_tcp_address && !A->str_read_tcp_port) || !A->str_write_fname || (pf_dash && (pf_enc || A->split_seconds != 0)) || (A->localtime && A->gmtime) || (A->split_seconds && !A->localtime && !A->gmtime);
	return pf_av ? -1 : 0;
}
void h_args(void)
{
	prog(); pf_av = nondet_bool(); n_pa = 0; char *av[2] = { &tk[25], NULL }; g_program_ctx.calendar_fn = NULL;
	_Bool r = parse_args(1, av, &g_program_ctx); struct capture_args *A = &g_program_args;
	PROVE(n_pa == 1 && r == (!pf_av && !A->help), "accepted unless parsing failed or help is asked");
	if (r) {
		PROVE(!usage_due, "and only if the options make sense together");
		PROVE(g_program_ctx.capture_highwater == (A->buffer_size > 0 ? (size_t)A->buffer_size : 262144), "the buffer size asked for, or the documented default");
		PROVE(g_program_ctx.remaining_connections == (A->count_connections > 0 ? A->count_connections : -1), "the connection limit asked for, or none");
		PROVE(g_program_ctx.calendar_fn == (A->localtime ? localtime_r : A->gmtime ? gmtime_r : NULL), "the calendar asked for");
	}
	C1(r && A->split_seconds && A->buffer_size > 5); C1(r && pf_dash); C1(!r);
}
static size_t ULEN; static _Bool pf_rm; static unsigned n_rm, n_cpy; static struct sockaddr_un *SU;
char *strncpy(char *d, const char *s, size_t n)
{ PROVE(d == SU->sun_path && s == UNIXP && n <= sizeof SU->sun_path && n >= ULEN, "the path fits"); n_cpy++; if (n > ULEN) d[ULEN] = 0; return d; }
int remove(const char *p) { PROVE(p == SU->sun_path && n_cpy == 1, "removes the old socket only"); n_rm++; if (!pf_rm) return 0; errno = nondet_int(); return -1; }
size_t s_strlen(const char *s) { PROVE(s == UNIXP || (s == SU->sun_path && n_cpy), "length of the path"); return ULEN; }
void h_unix(void)
{
	prog(); g_program_ctx.args = &g_program_args; SU = (struct sockaddr_un *)&g_program_ctx.ss; for (int i = 0; i < sizeof SU->sun_path; i++) SU->sun_path[i] = 0;
	ULEN = nondet_size(); ASSUME(ULEN < 1 << 20); n_rm = n_cpy = 0; pf_rm = nondet_bool(); g_program_args.str_read_unix = UNIXP; g_program_args.str_read_tcp_port = nondet_bool() ? TCPP : NULL; usage_due = ULEN > 107;
	_Bool r = open_read_unix(&g_program_ctx);
	PROVE(ULEN <= 107, "a path that does not fit is an error");
	PROVE(r == (!pf_rm || errno == ENOENT) && n_rm == 1, "an old socket is removed, or there was none");
	PROVE(IMPL(r, SU->sun_family == AF_UNIX && n_cpy == 1 && SU->sun_path[ULEN] == 0 && g_program_ctx.ss_len == __builtin_offsetof(struct sockaddr_un, sun_path) + ULEN), "listens at the whole path");
	C1(r && ULEN == 107); C1(!r);
}
static unsigned long PORT; static char EP[2]; static _Bool pf4, pf6;
unsigned long strtoul(const char *s, char **e, int b) { PROVE(s == TCPP && b == 0, "the port"); *e = EP; return PORT; }
int inet_pton(int af, const char *s, void *d)
{ PROVE(s == TCPA && __CPROVER_w_ok(d, af == AF_INET ? 4 : 16), "the address"); if (af == AF_INET) { PROVE(d == (void *)&((struct sockaddr_in *)&g_program_ctx.ss)->sin_addr, "into the address"); return pf4; } PROVE(af == AF_INET6 && d == (void *)&((struct sockaddr_in6 *)&g_program_ctx.ss)->sin6_addr, "into the address"); return pf6; }
void h_tcp(void)
{
	prog(); g_program_ctx.args = &g_program_args; PORT = (unsigned long)nondet_long(); EP[0] = nondet_bool() ? 0 : 'x'; EP[1] = 0; pf4 = nondet_bool(); pf6 = nondet_bool(); g_program_args.str_read_tcp_port = TCPP; g_program_args.str_read_tcp_address = TCPA;
	usage_due = EP[0] || PORT > 65535 || (!pf4 && !pf6);
	_Bool r = open_read_tcp(&g_program_ctx); struct sockaddr_in *a = (struct sockaddr_in *)&g_program_ctx.ss; struct sockaddr_in6 *b = (struct sockaddr_in6 *)&g_program_ctx.ss; uint16_t np = (uint16_t)(PORT << 8 | (PORT >> 8 & 0xff));
	PROVE(r && !usage_due, "a bad port or address is an error");
	PROVE(pf4 ? a->sin_family == AF_INET && a->sin_port == np && g_program_ctx.ss_len == sizeof *a : b->sin6_family == AF_INET6 && b->sin6_port == np && g_program_ctx.ss_len == sizeof *b, "listens at that address and port");
	C1(pf4 && PORT == 65535); C1(!pf4 && PORT == 0);
}
static _Bool pf_base, pf_lsn; static unsigned n_bf, n_sn, n_sa, n_lf, n_ef, n_ecb;
struct event_base *event_base_new(void) { return pf_base ? NULL : BASE; }
void event_base_free(struct event_base *b) { PROVE(b == BASE && n_bf == 0, "freed once"); n_bf++; }
struct evconnlistener *evconnlistener_new_bind(struct event_base *b, evconnlistener_cb cb, void *p, unsigned fl, int bl, const struct sockaddr *sa, int len)
{ PROVE(b == BASE && cb == cb_accept_conn && p == CX && (fl & LEV_OPT_CLOSE_ON_FREE) && sa == (struct sockaddr *)&CX->ss && len == CX->ss_len, "listens at the chosen address and accepts with its context"); return pf_lsn ? NULL : LSN; }
void evconnlistener_set_error_cb(struct evconnlistener *l, evconnlistener_errorcb cb) { PROVE(l == LSN && cb == cb_accept_error, "accept errors are reported"); n_ecb++; }
struct event *event_new(struct event_base *b, evutil_socket_t s, short e, event_callback_fn cb, void *p)
{ PROVE(b == BASE && (e & EV_SIGNAL) && (e & EV_PERSIST) && p == &g_program_ctx, "signals, every time"); PROVE((s == SIGHUP && cb == do_sighup) || (s == SIGUSR1 && cb == do_sigusr1), "its handler"); n_sn++; return s == SIGHUP ? SIG1 : SIG2; }
int event_add(struct event *e, const struct timeval *t) { PROVE((e == SIG1 || e == SIG2) && t == NULL, "waits for the signal"); n_sa++; return 0; }
void event_free(struct event *e) { PROVE(e == SIG1 || e == SIG2, "own event"); n_ef++; }
void evconnlistener_free(struct evconnlistener *l) { PROVE(l == LSN && n_bf == 0, "before the event base"); n_lf++; }
void h_evloop(void)
{
	prog(); CX = &g_program_ctx; pf_base = nondet_bool(); pf_lsn = nondet_bool(); n_bf = n_sn = n_sa = n_lf = n_ef = n_ecb = 0; CX->ev_sighup = CX->ev_sigusr1 = NULL; CX->ev_connlistener = NULL;
	_Bool r = setup_event_loop(CX);
	PROVE(r == (!pf_base && !pf_lsn) && n_bf == (!pf_base && pf_lsn), "succeeds exactly if it listens, else frees what it made");
	PROVE(IMPL(r, CX->ev_base == BASE && CX->ev_connlistener == LSN && CX->ev_sighup == SIG1 && CX->ev_sigusr1 == SIG2 && n_sa == 2), "both signals are handled");
	PROVE(IMPL(!r, CX->ev_base == NULL && n_sa == 0), "nothing is left behind");
	if (r) { cleanup(CX); PROVE(n_ef == 2 && n_lf == 1 && n_bf == 1, "all is freed at the end, the listening socket closed"); }
	C1(r); C1(!r && n_bf);
}
static unsigned sg_n; static _Bool pf_se1; static unsigned n_term, n_int, n_pipe, n_le;
int sigemptyset(sigset_t *s) { return pf_se1 ? -1 : 0; }
int sigaction(int s, const struct sigaction *a, struct sigaction *o)
{
	if (pf_op) { pf_op = nondet_bool(); if (pf_op) return -1; }
	if (s == SIGTERM && a->sa_handler == shutdown_handler) n_term++; else if (s == SIGINT && a->sa_handler == shutdown_handler) n_int++; else if (s == SIGPIPE && a->sa_handler == SIG_IGN) n_pipe++; else PROVE(0, "no other signal is touched");
	return 0;
}
int event_base_loopexit(struct event_base *b, const struct timeval *t) { PROVE(b == BASE && t == NULL, "ends the event loop now"); n_le++; return 0; }
void h_sigs(void)
{
	prog(); n_term = n_int = n_pipe = n_le = 0; pf_se1 = nondet_bool(); pf_op = nondet_bool(); g_program_ctx.ev_base = BASE;
	_Bool r = setup_signals();
	PROVE(IMPL(r, n_term && n_int && n_pipe), "SIGTERM and SIGINT end the program in order, a lost peer does not kill it");
	shutdown_handler(SIGTERM); PROVE(n_le == 1, "the event loop ends");
	C1(r); C1(!r);
}
