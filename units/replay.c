/*
 * src/fstrm_replay.c under contract.  The library is used by contract (P05-P12): the reader of the file delivers N
 * frames, frame i being DAT+i of length len_(i), then an end or a failure.
 */
#include "vf.h"
#define C1(c) COVER(c, "c")
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <arpa/inet.h>
#include <fstrm.h>
size_t __CPROVER_uninterpreted_rl(uint64_t);
#define len_(i) __CPROVER_uninterpreted_rl(i)
static char tk[24];
#define FOPT ((struct fstrm_file_options *)&tk[0])
#define WOPT ((struct fstrm_writer_options *)&tk[1])
#define RD ((struct fstrm_reader *)&tk[2])
#define WR ((struct fstrm_writer *)&tk[3])
#define CST ((struct fstrm_control *)&tk[4])
#define CSP ((struct fstrm_control *)&tk[5])
#define TYP (&tk[6])
#define IN (&tk[7])
#define UOPT ((struct fstrm_unix_writer_options *)&tk[8])
#define TOPT ((struct fstrm_tcp_writer_options *)&tk[9])
#define UP (&tk[14])
#define TA (&tk[15])
#define TP (&tk[16])
static uint8_t *DAT; static uint64_t N, n_read, n_wr, pf_wat; static size_t TL; static _Bool pf_ri, pf_cs, pf_match, pf_wr, pf_add, pf_wi, pf_wo, pf_wc, pf_sp, may_exit, usage_due; static int endr;
static _Bool rlive, wopen, wlive, flive, olive, ulive, tlive, added, matched; static const char *path, *sa, *sp; static unsigned n_wc, n_cs, n_exit, n_pf;
static char EP[2]; static unsigned long PORT; static _Bool pf4, pf6;
static char **FILES; static int NF; static _Bool pf_pa, pf_iw, pf_av; static unsigned n_pa, n_iw;
/* messages on stderr are dropped (goto-instrument --dfcc cannot handle variadic functions) */
static void vf_say(FILE *f) { PROVE(f == stderr, "messages go to stderr"); }
#define fprintf(f, ...) vf_say(f)
#define main fstrm_replay_main
#include "src/fstrm_replay.c"
#undef main
#undef fprintf
static void zero(void)
{
	stdout = (FILE *)&tk[10]; stderr = (FILE *)&tk[11]; stdin = (FILE *)&tk[12];
	n_read = n_wr = 0; n_wc = n_cs = n_exit = n_pf = n_pa = n_iw = 0; rlive = wopen = wlive = flive = olive = ulive = tlive = added = matched = may_exit = usage_due = 0; path = sa = sp = NULL;
	N = nondet_u64(); ASSUME(N < 1 << 20); DAT = __CPROVER_allocate(1 << 20, 0); pf_wat = nondet_u64(); TL = nondet_size(); ASSUME(TL < 1 << 20); PORT = (unsigned long)nondet_long();
	pf_ri = nondet_bool(); pf_cs = nondet_bool(); pf_match = nondet_bool(); pf_add = nondet_bool(); pf_wi = nondet_bool(); pf_wo = nondet_bool(); pf_wr = nondet_bool(); pf_sp = nondet_bool(); pf_wc = nondet_bool(); pf4 = nondet_bool(); pf6 = nondet_bool(); pf_pa = nondet_bool(); pf_iw = nondet_bool(); pf_av = nondet_bool();
	EP[0] = nondet_bool() ? 0 : 'x'; EP[1] = 0; endr = nondet_int(); ASSUME(endr == fstrm_res_stop || endr == fstrm_res_failure || endr == fstrm_res_invalid || endr == fstrm_res_again);
	g_program_ctx.content_type = (uint8_t *)TYP; g_program_ctx.len_content_type = TL; g_program_ctx.args = NULL;
	g_program_args.content_type = TYP; g_program_args.unix_address = g_program_args.tcp_address = g_program_args.tcp_port = NULL; g_program_args.help = 0; g_program_args.files.aa_entry_n = 0; g_program_args.files.aa_entries = NULL;
}
int fputc(int c, FILE *f) { PROVE(f == stderr, "messages go to stderr"); return c; }
int putc(int c, FILE *f) { return fputc(c, f); }
int fputs(const char *s, FILE *f) { PROVE(f == stderr, "messages go to stderr"); return 0; }
void exit(int c) { PROVE(may_exit, "gives up only after a failure"); PROVE(c != 0, "and says so"); n_exit++; ASSUME(0); }
void s_usage(const char *m) { PROVE(usage_due, "usage errors are real"); ASSUME(0); }
/* ---- library ---- */
struct fstrm_file_options *fstrm_file_options_init(void) { PROVE(!flive, "one"); flive = 1; path = NULL; return FOPT; }
void fstrm_file_options_destroy(struct fstrm_file_options **o) { if (*o) { PROVE(*o == FOPT && flive, "freed once"); flive = 0; *o = NULL; } }
void fstrm_file_options_set_file_path(struct fstrm_file_options *o, const char *p) { PROVE(o == FOPT && flive, "own options"); path = p; }
struct fstrm_reader *fstrm_file_reader_init(const struct fstrm_file_options *o, const struct fstrm_reader_options *ro) { PROVE(o == FOPT && flive && path == IN && !rlive, "reads the named file"); if (pf_ri) return NULL; rlive = 1; return RD; }
fstrm_res fstrm_reader_destroy(struct fstrm_reader **r) { if (*r) { PROVE(*r == RD && rlive, "freed once"); rlive = 0; *r = NULL; } return fstrm_res_success; }
static fstrm_res bad_(void) { int r = nondet_int(); ASSUME(r == fstrm_res_failure || r == fstrm_res_again || r == fstrm_res_invalid || r == fstrm_res_stop); return r; }	/* any failure */
fstrm_res fstrm_reader_get_control(struct fstrm_reader *r, fstrm_control_type t, const struct fstrm_control **c)
{ PROVE(r == RD && rlive, "own reader"); *c = NULL; if (t == FSTRM_CONTROL_START) { n_cs++; if (pf_cs) return bad_(); *c = CST; return fstrm_res_success; } PROVE(t == FSTRM_CONTROL_STOP, "START or STOP"); if (pf_sp) return bad_(); *c = CSP; return fstrm_res_success; }
fstrm_res fstrm_control_match_field_content_type(const struct fstrm_control *c, const uint8_t *t, const size_t l)
{ PROVE(c == CST && rlive && t == (uint8_t *)TYP && l == TL, "compares the content type of the file with the one asked for"); matched = 1; return pf_match ? fstrm_res_success : fstrm_res_failure; }
fstrm_res fstrm_reader_read(struct fstrm_reader *r, const uint8_t **d, size_t *n)
{ PROVE(r == RD && rlive, "own reader"); PROVE(matched && pf_match, "only files of the content type"); PROVE(n_wr == n_read, "the frame before was sent"); if (n_read >= N) return endr; *d = DAT + n_read; *n = len_(n_read); n_read++; return fstrm_res_success; }
fstrm_res fstrm_writer_write(struct fstrm_writer *w, const void *d, size_t n)
{ PROVE(w == WR && wopen && SAME(d, DAT) && OFF(d) == n_wr && n == len_(n_wr) && n_wr + 1 == n_read, "sends the frame just read, once, in order"); if (pf_wr && pf_wat == n_wr) { may_exit = 1; return bad_(); } n_wr++; return fstrm_res_success; }
struct fstrm_writer_options *fstrm_writer_options_init(void) { PROVE(!olive, "one"); olive = 1; return WOPT; }
void fstrm_writer_options_destroy(struct fstrm_writer_options **o) { if (*o) { PROVE(*o == WOPT && olive, "freed once"); olive = 0; *o = NULL; } }
fstrm_res fstrm_writer_options_add_content_type(struct fstrm_writer_options *o, const void *t, size_t l) { PROVE(o == WOPT && olive && t == TYP && l == TL && !added, "the content type asked for"); if (pf_add) return fstrm_res_failure; added = 1; return fstrm_res_success; }
struct fstrm_unix_writer_options *fstrm_unix_writer_options_init(void) { PROVE(!ulive, "one"); ulive = 1; return UOPT; }
void fstrm_unix_writer_options_destroy(struct fstrm_unix_writer_options **o) { if (*o) { PROVE(*o == UOPT && ulive, "freed once"); ulive = 0; *o = NULL; } }
void fstrm_unix_writer_options_set_socket_path(struct fstrm_unix_writer_options *o, const char *p) { PROVE(o == UOPT && ulive, "own options"); path = p; }
struct fstrm_tcp_writer_options *fstrm_tcp_writer_options_init(void) { PROVE(!tlive, "one"); tlive = 1; return TOPT; }
void fstrm_tcp_writer_options_destroy(struct fstrm_tcp_writer_options **o) { if (*o) { PROVE(*o == TOPT && tlive, "freed once"); tlive = 0; *o = NULL; } }
void fstrm_tcp_writer_options_set_socket_address(struct fstrm_tcp_writer_options *o, const char *p) { PROVE(o == TOPT && tlive, "own options"); sa = p; }
void fstrm_tcp_writer_options_set_socket_port(struct fstrm_tcp_writer_options *o, const char *p) { PROVE(o == TOPT && tlive, "own options"); sp = p; }
struct fstrm_writer *fstrm_unix_writer_init(const struct fstrm_unix_writer_options *u, const struct fstrm_writer_options *o)
{ PROVE(u == UOPT && ulive && path == UP && g_program_args.unix_address == UP && o == WOPT && olive && added && !wlive, "a writer to that socket with the content type"); if (pf_wi) return NULL; wlive = 1; return WR; }
struct fstrm_writer *fstrm_tcp_writer_init(const struct fstrm_tcp_writer_options *u, const struct fstrm_writer_options *o)
{ PROVE(u == TOPT && tlive && sa == TA && sp == TP && g_program_args.unix_address == NULL && o == WOPT && olive && added && !wlive, "a writer to that address and port with the content type"); if (pf_wi) return NULL; wlive = 1; return WR; }
fstrm_res fstrm_writer_open(struct fstrm_writer *w) { PROVE(w == WR && wlive && !wopen, "own writer"); if (pf_wo) return bad_(); wopen = 1; return fstrm_res_success; }
fstrm_res fstrm_writer_close(struct fstrm_writer *w) { PROVE(w == WR && wopen && n_wc == 0 && n_pf == NF, "closed once, after the last file"); n_wc++; return pf_wc ? bad_() : fstrm_res_success; }
fstrm_res fstrm_writer_destroy(struct fstrm_writer **w) { if (*w) { PROVE(*w == WR && wlive, "freed once"); wlive = wopen = 0; *w = NULL; } return fstrm_res_success; }
unsigned long strtoul(const char *s, char **e, int b) { PROVE(s == TP && b == 0, "the port"); *e = EP; return PORT; }
int inet_pton(int af, const char *s, void *d) { PROVE(s == TA && (af == AF_INET || af == AF_INET6), "the address"); PROVE(__CPROVER_w_ok(d, af == AF_INET ? sizeof(struct in_addr) : sizeof(struct in6_addr)), "room for the address"); return af == AF_INET ? pf4 : pf6; }
#define NOLIVE (!rlive && !flive && !olive && !ulive && !tlive)

void h_file(void)
{
	zero(); wlive = wopen = 1;
	process_file(IN, WR);
	PROVE(NOLIVE && wlive && wopen, "everything is freed, the writer stays open");
	_Bool rd = !pf_ri && !pf_cs && pf_match;
	PROVE(rd ? n_read == N && n_wr == N : n_read == 0 && n_wr == 0, "every frame of a readable file of the content type is sent");
	PROVE(!pf_wr || pf_wat >= n_wr, "a failed write ends the program");
	C1(n_wr > 3 && endr == fstrm_res_stop); C1(n_wr > 3 && endr == fstrm_res_failure); C1(!rd);
}
void h_init(void)
{
	zero(); NF = 0; g_program_args.unix_address = nondet_bool() ? UP : NULL; g_program_args.tcp_address = nondet_bool() ? TA : NULL; g_program_args.tcp_port = nondet_bool() ? TP : NULL;
	_Bool u = g_program_args.unix_address != NULL; if (!u) ASSUME(g_program_args.tcp_address && g_program_args.tcp_port);
	usage_due = !u && (EP[0] || PORT > 65535 || (!pf4 && !pf6));
	struct fstrm_writer *w = init_writer();
	PROVE(NOLIVE, "the options are freed");
	PROVE(w == (!pf_add && !pf_wi && !pf_wo ? WR : NULL) && wlive == (w != NULL) && wopen == (w != NULL), "an open writer, or nothing is left");
	PROVE(IMPL(w && !u, !usage_due), "a bad port or address is an error");
	C1(w && u); C1(w && !u); C1(!w && !pf_add && !pf_wi);
}
_Bool s_pa(int ac, char **av, struct replay *r) { PROVE(r == &g_program_ctx && n_pa == 0, "own context"); n_pa++; if (!pf_pa) usage_due = 1; g_program_args.files.aa_entry_n = NF; g_program_args.files.aa_entries = (void *)FILES; return pf_pa; }
struct fstrm_writer *s_iw(void) { PROVE(n_pa == 1 && pf_pa && n_iw == 0, "after the arguments"); n_iw++; if (pf_iw) { may_exit = 1; return NULL; } wlive = wopen = 1; return WR; }
void s_pf(const char *f, struct fstrm_writer *w) { PROVE(w == WR && wopen, "the open writer"); PROVE(n_pf < NF && f == FILES[n_pf], "every file once, in order"); n_pf++; if (nondet_bool()) { may_exit = 1; exit(1); } }
void h_main(void)
{
	zero(); NF = nondet_int(); ASSUME(NF >= 0 && NF < 1 << 16); FILES = __CPROVER_allocate(NF * sizeof(char *), 0); char *av[2] = { &tk[17], NULL };
	int r = fstrm_replay_main(1, av);
	PROVE(pf_pa && !pf_iw && n_pf == NF && n_wc == 1, "every file is processed, then the stream is completed");
	PROVE((r == 0) == !pf_wc, "success only if the stream was completed"); PROVE(!wlive, "the writer is freed");
	C1(r == 0 && NF > 2); C1(r && NF == 0);
}
int argv_process(argv_t *a, const int n, char **v)
{
	PROVE(a == g_args && n_pa == 0, "own options"); n_pa++;
	if (pf_av) return -1;
	g_program_args.help = nondet_bool(); g_program_args.unix_address = nondet_bool() ? UP : NULL; g_program_args.tcp_address = nondet_bool() ? TA : NULL; g_program_args.tcp_port = nondet_bool() ? TP : NULL;
	ASSUME(g_program_args.unix_address != NULL || g_program_args.tcp_address != NULL);	/* ARGV_ONE_OF */
	usage_due = !g_program_args.help && g_program_args.tcp_address && !g_program_args.tcp_port;
	return 0;
}
size_t s_strlen(const char *s) { PROVE(s == TYP, "length of the content type"); return TL; }
void h_args(void)
{
	zero(); char *av[2] = { &tk[17], NULL }; g_program_ctx.content_type = NULL; g_program_ctx.len_content_type = 0;
	_Bool r = parse_args(1, av, &g_program_ctx);
	PROVE(n_pa == 1 && r == (!pf_av && !g_program_args.help), "accepted unless parsing failed or help is asked");
	PROVE(IMPL(r, !usage_due && (g_program_args.unix_address || (g_program_args.tcp_address && g_program_args.tcp_port))), "and only with a destination");
	PROVE(IMPL(r, g_program_ctx.content_type == (uint8_t *)TYP && g_program_ctx.len_content_type == TL), "the content type asked for, whole");
	C1(r); C1(!r);
}
