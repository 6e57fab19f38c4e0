/*
 * src/fstrm_dump.c and libmy/print_string.h under contract.  The library is used by contract (P05-P12): the reader
 * delivers N frames, frame i being DAT+i of length len_(i), then an end or a failure.
 */
#include "vf.h"
#define C1(c) COVER(c, "c")
#include <stdio.h>
#include <stdlib.h>
#include <ctype.h>
#include <fstrm.h>
size_t __CPROVER_uninterpreted_dl(uint64_t);
#define len_(i) __CPROVER_uninterpreted_dl(i)
static char tk[16];
#define FOPT ((struct fstrm_file_options *)&tk[0])
#define WOPT ((struct fstrm_writer_options *)&tk[1])
#define RD ((struct fstrm_reader *)&tk[2])
#define WR ((struct fstrm_writer *)&tk[3])
#define CST ((struct fstrm_control *)&tk[4])
#define CSP ((struct fstrm_control *)&tk[5])
#define TYP ((uint8_t *)&tk[6])
#define IN (&tk[7])
#define OUTN (&tk[8])
static uint8_t *DAT; static uint64_t N, n_read, n_print, n_wr, pf_wat, ptyp; static size_t TL, NT; static _Bool pf_ri, pf_ro, pf_cs, pf_cn, pf_cf, pf_add, pf_wi, pf_wo, pf_wr, pf_sp, pf_wc, pf_ff, pf_fe; static int endr;
static _Bool ropen, rlive, wopen, wlive, flive, olive, added, wopt_used; static const char *path; static unsigned n_wc, n_sp, n_st, n_nl, n_blank; static int wmode; static _Bool werr, wclosed;
/* characters */
#define HEX(n) ((n) < 10 ? '0' + (n) : 'a' + (n) - 10)
static int pout; /* 0: before a line, 1: in a line before the data, 2: after the data */
static uint8_t *dat; static size_t LEN; static uint64_t ck; static unsigned cj, cph;
void o_c(int c);
/* messages on stderr are dropped (goto-instrument --dfcc cannot handle variadic functions); escapes are expanded */
static void vf_say(FILE *f) { PROVE(f == stderr, "messages go to stderr"); }
static void o_hex(FILE *f, const char *fmt, unsigned c)
{ PROVE(f == stdout, "data goes to the output"); PROVE(fmt[0] == '\\' && fmt[1] == 'x' && fmt[2] == '%' && fmt[3] == '0' && fmt[4] == '2' && fmt[5] == 'x' && fmt[6] == 0 && c < 256, "a hex escape"); o_c('\\'); o_c('x'); o_c(HEX(c >> 4)); o_c(HEX(c & 15)); }
#define PR(c) ((c) >= 0x20 && (c) <= 0x7e)
#ifdef VF_PS
#undef isprint
#define isprint(c) PR(c)
#define fprintf(f, fmt, c) o_hex(f, fmt, c)
#include "libmy/print_string.h"
#undef fprintf
#endif
#define fprintf(f, ...) vf_say(f)
#define main fstrm_dump_main
#include "src/fstrm_dump.c"
#undef main
#undef fprintf
static void zero(void)
{
	stdout = (FILE *)&tk[10]; stderr = (FILE *)&tk[11]; stdin = (FILE *)&tk[12];
	n_read = n_print = n_wr = 0; n_wc = n_sp = n_st = n_nl = n_blank = 0; ropen = rlive = wopen = wlive = flive = olive = added = wopt_used = werr = wclosed = 0; path = NULL;
	N = nondet_u64(); ASSUME(N < 1 << 20); DAT = __CPROVER_allocate(1 << 20, 0); pf_wat = nondet_u64(); TL = nondet_size(); ASSUME(TL <= 256); NT = nondet_size(); ASSUME(NT <= 1);
	pf_ri = nondet_bool(); pf_ro = nondet_bool(); pf_cs = nondet_bool(); pf_cn = nondet_bool(); pf_cf = nondet_bool(); pf_add = nondet_bool(); pf_wi = nondet_bool(); pf_wo = nondet_bool(); pf_wr = nondet_bool(); pf_sp = nondet_bool(); pf_wc = nondet_bool(); pf_ff = nondet_bool(); pf_fe = nondet_bool();
	endr = nondet_int(); ASSUME(endr == fstrm_res_stop || endr == fstrm_res_failure || endr == fstrm_res_invalid || endr == fstrm_res_again);
}
/* ---- stdio ---- */
int setvbuf(FILE *f, char *b, int m, size_t n) { return 0; }
int putchar(int c) { if (c == ' ') { PROVE(pout == 0, "one line per frame"); pout = 1; } else { PROVE(c == '\n' && pout == 2, "one line per frame"); pout = 0; n_nl++; } return c; }
int fflush(FILE *f) { if (f == stdout) n_blank++; return pf_ff && f == stdout ? -1 : 0; }
int ferror(FILE *f) { return pf_fe && f == stdout; }
#ifdef VF_PS
int fputc(int c, FILE *f) { PROVE(f == stdout, "to the output"); o_c(c); return c; }
int putc(int c, FILE *f) { return fputc(c, f); }
int fputs(const char *s, FILE *f) { PROVE(f == stdout, "to the output"); if (s[0]) { o_c(s[0]); if (s[1]) { o_c(s[1]); if (s[2]) { o_c(s[2]); PROVE(s[3] == 0, "short"); } } } return 0; }
#else
int fputc(int c, FILE *f) { PROVE(f == stderr, "to stderr"); return c; }
int putc(int c, FILE *f) { return fputc(c, f); }
int fputs(const char *s, FILE *f) { PROVE(f == stderr, "to stderr"); return 0; }
#endif
void s_print(const void *d, size_t n, FILE *f)
{
	if (f == stderr) { PROVE(d == TYP && n == TL, "shows the content type"); return; }
	PROVE(f == stdout && SAME(d, DAT) && OFF(d) == n_print && n == len_(n_print) && n_print + 1 == n_read && pout == 1, "prints the frame just read, once, in order"); n_print++; pout = 2;
}
/* ---- library ---- */
struct fstrm_file_options *fstrm_file_options_init(void) { PROVE(!flive, "one"); flive = 1; path = NULL; return FOPT; }
void fstrm_file_options_destroy(struct fstrm_file_options **o) { if (*o) { PROVE(*o == FOPT && flive, "freed once"); flive = 0; *o = NULL; } }
void fstrm_file_options_set_file_path(struct fstrm_file_options *o, const char *p) { PROVE(o == FOPT && flive, "own options"); path = p; }
struct fstrm_reader *fstrm_file_reader_init(const struct fstrm_file_options *o, const struct fstrm_reader_options *ro) { PROVE(o == FOPT && flive && path == IN, "reads the input file"); if (pf_ri) return NULL; rlive = 1; return RD; }
static fstrm_res bad_(void) { int r = nondet_int(); ASSUME(r == fstrm_res_failure || r == fstrm_res_again || r == fstrm_res_invalid || r == fstrm_res_stop); return r; }	/* any failure */
fstrm_res fstrm_reader_open(struct fstrm_reader *r) { PROVE(r == RD && rlive && !ropen, "own reader"); if (pf_ro) return bad_(); ropen = 1; return fstrm_res_success; }
fstrm_res fstrm_reader_destroy(struct fstrm_reader **r) { if (*r) { PROVE(*r == RD && rlive, "freed once"); rlive = ropen = 0; *r = NULL; } return fstrm_res_success; }
fstrm_res fstrm_reader_get_control(struct fstrm_reader *r, fstrm_control_type t, const struct fstrm_control **c)
{ PROVE(r == RD && rlive && ropen, "open reader"); if (t == FSTRM_CONTROL_START) { n_st++; if (pf_cs) return bad_(); *c = CST; return fstrm_res_success; } PROVE(t == FSTRM_CONTROL_STOP, "START or STOP"); n_sp++; if (pf_sp) return bad_(); *c = CSP; return fstrm_res_success; }
fstrm_res fstrm_reader_read(struct fstrm_reader *r, const uint8_t **d, size_t *n)
{ PROVE(r == RD && rlive && ropen, "open reader"); PROVE(n_print == n_read && n_wr == (wlive ? n_read : 0), "the frame before was handled"); if (n_read >= N) return endr; *d = DAT + n_read; *n = len_(n_read); n_read++; return fstrm_res_success; }
fstrm_res fstrm_control_get_num_field_content_type(const struct fstrm_control *c, size_t *n) { PROVE(c == CST && rlive, "the START frame"); if (pf_cn) return fstrm_res_failure; *n = NT; return fstrm_res_success; }
fstrm_res fstrm_control_get_field_content_type(const struct fstrm_control *c, const size_t i, const uint8_t **t, size_t *l) { PROVE(c == CST && rlive && i < NT, "its content type"); if (pf_cf) return fstrm_res_failure; *t = TYP; *l = TL; return fstrm_res_success; }
struct fstrm_writer_options *fstrm_writer_options_init(void) { PROVE(!olive, "one"); olive = 1; return WOPT; }
void fstrm_writer_options_destroy(struct fstrm_writer_options **o) { if (*o) { PROVE(*o == WOPT && olive, "freed once"); olive = 0; *o = NULL; } }
fstrm_res fstrm_writer_options_add_content_type(struct fstrm_writer_options *o, const void *t, size_t l) { PROVE(o == WOPT && olive && t == TYP && l == TL && !added && NT, "copies the content type"); if (pf_add) return fstrm_res_failure; added = 1; return fstrm_res_success; }
struct fstrm_writer *fstrm_file_writer_init(const struct fstrm_file_options *o, const struct fstrm_writer_options *wo)
{ PROVE(o == FOPT && flive && path == OUTN && wo == WOPT && olive && added == (NT > 0), "writes the output file with the content type of the input"); if (pf_wi) return NULL; wlive = 1; return WR; }
fstrm_res fstrm_writer_open(struct fstrm_writer *w) { PROVE(w == WR && wlive && !wopen, "own writer"); if (pf_wo) return bad_(); wopen = 1; return fstrm_res_success; }
fstrm_res fstrm_writer_write(struct fstrm_writer *w, const void *d, size_t n)
{ PROVE(w == WR && wlive && wopen && !werr && SAME(d, DAT) && OFF(d) == n_wr && n == len_(n_wr) && n_wr + 1 == n_read, "writes the frame just read, once, in order"); if (pf_wr && pf_wat == n_wr) { werr = 1; return bad_(); } n_wr++; return fstrm_res_success; }
fstrm_res fstrm_writer_close(struct fstrm_writer *w) { PROVE(w == WR && wlive && !wclosed, "closed once"); n_wc++; wclosed = 1; return pf_wc ? bad_() : fstrm_res_success; }
fstrm_res fstrm_writer_destroy(struct fstrm_writer **w) { if (*w) { PROVE(*w == WR && wlive, "freed once"); wlive = 0; *w = NULL; } return fstrm_res_success; }

void h_main(void)
{
	zero(); pout = 0; int ac = nondet_bool() ? 2 : nondet_bool() ? 3 : 1; char *av[4] = { &tk[9], ac > 1 ? IN : NULL, ac > 2 ? OUTN : NULL, NULL }; _Bool two = ac == 3;
	int r = fstrm_dump_main(ac, av);
	_Bool ok = ac > 1 && !pf_ri && !pf_ro && !pf_cs && !pf_cn && (!NT || !pf_cf) && (!two || ((!NT || !pf_add) && !pf_wi && !pf_wo && (!pf_wr || pf_wat >= N) && !pf_wc)) && endr == fstrm_res_stop && !pf_sp && !pf_ff && !pf_fe;
	PROVE((r == 0) == ok, "success exactly if every step succeeded");
	PROVE(IMPL(r == 0, n_read == N && n_print == N && n_wr == (two ? N : 0) && n_sp > 0 && pout == 0), "every frame was printed and copied, up to the STOP");
	PROVE(n_print == n_read, "every frame read is printed");
	PROVE(IMPL(wopen, n_wc == 1), "the output is completed"); PROVE(!rlive && !wlive && !flive && !olive, "everything is freed");
	C1(r == 0 && two && N > 2); C1(r == 0 && !two && N == 0); C1(r && werr); C1(r && n_read);
}
/* print_string: the output is compared character by character with what byte ck must look like */
void o_c(int c)
{
	if (cph == 0) { PROVE(c == '"', "opening quote"); cph = 1; return; }
	PROVE(cph == 1, "nothing after the closing quote");
	if (ck == LEN) { PROVE(c == '"', "closing quote after the last byte"); cph = 2; return; }
	unsigned b = dat[ck], w = PR(b) ? (b == '"' ? 2 : 1) : 4;
	PROVE(c == (w == 1 ? (int)b : w == 2 ? (cj == 0 ? '\\' : '"') : cj == 0 ? '\\' : cj == 1 ? 'x' : (int)HEX(cj == 2 ? b >> 4 : b & 15)), "printable bytes as they are, a quote escaped, others in hex");
	if (++cj == w) { cj = 0; ck++; }
}
void h_ps(void)
{
	zero(); LEN = nondet_size(); ASSUME(LEN <= 1 << 20); dat = __CPROVER_allocate(LEN, 0); ck = cj = cph = 0;
	print_string(dat, LEN, stdout);
	PROVE(cph == 2 && ck == LEN && cj == 0, "a quoted string with every byte once");
	C1(LEN > 3); C1(LEN == 0);
}
