/* libmy/argv.c under contract.  Option tables of at most NG entries plus the end mark: the loops over tables are unwound completely. */
#define __NO_CTYPE 1	/* functions rather than table look-ups */
#include "vf.h"
#include <stdio.h>
#include <ctype.h>
#define C1(c) COVER(c, "c")
#ifndef NG
#define NG 12
#endif
static char FILEOBJ[1];
static int drop(void) { return 0; }
#define fprintf(...) drop()
#ifdef H_ENV
static void s_snprintf(char *b, size_t n, const char *f, const char *a);
#define snprintf(b, n, f, ...) (s_snprintf(b, n, f, (const char *)VF_1ST(__VA_ARGS__, 0)), 0)
#define VF_1ST(x, ...) (uintptr_t)(x)
#else
#define snprintf(...) drop()
#endif
#undef exit
#define exit s_exit
static int n_exit;
static void l_exit(int c);
static void s_exit(int c) { n_exit++; l_exit(c); ASSUME(0); }
/* libc */
static void *s_malloc(size_t n); static void *s_realloc(void *p, size_t n); static void s_free(void *p);
static int AT; static long ATL; static const char *ARG;
static int s_atoi(const char *a) { PROVE(a == ARG, "the value that was given"); return AT; }
static long s_atol(const char *a) { PROVE(a == ARG, "the value that was given"); return ATL; }
static int n_scan; static void *scan_to; static int scan_dbl;
static int s_sscanf(const char *a, const char *f, void *to) { PROVE(a == ARG, "the value that was given"); n_scan++; scan_to = to; scan_dbl = f[1] == 'l'; return 1; }
#define atoi s_atoi
#define atol s_atol
#define sscanf s_sscanf
#undef malloc
#undef realloc
#undef free
#define malloc s_malloc
#define realloc s_realloc
#define free s_free
static char *s_strncpy(char *d, const char *s, size_t n); 
#undef strncpy
#define strncpy s_strncpy
static FILE *s_fopen(const char *n, const char *m); static char *s_fgets(char *b, int n, FILE *f); static int s_fclose(FILE *f);
#define fopen s_fopen
#define fgets s_fgets
#define fclose s_fclose
#undef stdin
static char STDIN_[1];
#define stdin ((FILE *)STDIN_)
static char *s_strsep(char **sp, const char *d); static char *s_getenv(const char *n);
#undef strsep
#define strsep s_strsep
#define getenv s_getenv
static int e_z, e_k; static char e_c; static _Bool e_up, e_low;
#include "libmy/argv.c"
_Static_assert(ARRAY_INCR == 10, "array step");
#define USED(e) (((e).ar_type & ARGV_FLAG_USED) != 0)
/* two entries in front: the code compares pointers before the table with its start, but must not read there (their content is arbitrary) */
static argv_t GG[NG + 3]; static unsigned N;
#define G (GG + 2)
static char NAME[1];
static void mkgrid(void)
{
	GG[0].ar_short_arg = nondet_int(); GG[1].ar_short_arg = nondet_int(); GG[0].ar_type = nondet_uint(); GG[1].ar_type = nondet_uint();
	N = nondet_uint(); ASSUME(N <= NG); n_exit = 0;
	for (unsigned i = 0; i <= NG; i++) { G[i].ar_short_arg = nondet_int(); G[i].ar_type = nondet_uint(); G[i].ar_long_arg = nondet_bool() ? NAME : NULL; G[i].ar_variable = nondet_ptr(); if (i < N) ASSUME(G[i].ar_short_arg != ARGV_LAST); }
	G[N].ar_short_arg = ARGV_LAST;
	argv_error_stream = nondet_bool() ? NULL : (FILE *)FILEOBJ; argv_interactive = nondet_bool(); argv_error_code = 1;
}
#define ISOR(i) (G[i].ar_short_arg == ARGV_OR || G[i].ar_short_arg == ARGV_XOR)
/* marks are never first, last or adjacent: what preprocess_array() checks */
static void well(void) { for (unsigned i = 0; i < NG; i++) if (i < N && ISOR(i)) ASSUME(i > 0 && i + 1 < N && !ISOR(i + 1)); }

/* queue of options waiting for a value */
static argv_t **Q0, **Q1; static int qn; static argv_t *qk, *qk_moved; static int q_k; static int n_re; static _Bool fail_re;
static int which; enum { W_NONE, W_ENQ, W_ARR, W_COPY, W_FREE, W_TOP, W_FILE };
static size_t msz; static void *mobj; static int n_mal;
static char *AE0, *AE1; static unsigned a_n, a_sz, a_k; static uint64_t a_keep; static int n_are;
#define NFREE 3
static void *fr[NFREE]; static int nfr[NFREE]; static int nfr_other;
static void *f_malloc(size_t n), *f_realloc(void *p, size_t n); static void f_freed(void *p);
static void *s_malloc(size_t n)
{
	if (which == W_FILE) return f_malloc(n);
	if (which == W_ARR) { PROVE(a_n == 0, "first value"); n_are++; AE1 = __CPROVER_allocate(n, 0); return AE1; }
	n_mal++; msz = n; mobj = __CPROVER_allocate(n, 0); return mobj;
}
static void *s_realloc(void *p, size_t n)
{
	n_re++; if (which == W_FILE) return f_realloc(p, n);
	if (which == W_ENQ)
	{
		PROVE(p == Q0, "the queue itself"); if (nondet_bool()) { fail_re = 1; return NULL; }
		PROVE(n >= (size_t)(qn + 1) * sizeof *Q0, "room for one more"); Q1 = __CPROVER_allocate(n, 0); if (q_k < qn) Q1[q_k] = qk; return Q1;
	}
	if (which == W_ARR) { PROVE(p == AE0 && a_n > 0, "the array itself"); n_are++; AE1 = __CPROVER_allocate(n, 0); PROVE(n >= (size_t)a_n * a_sz, "keeps all"); return AE1; }
	PROVE(0, "no realloc"); return NULL;
}
static void s_free(void *p) { if (which == W_FILE) { f_freed(p); return; } for (int i = 0; i < NFREE; i++) if (p == fr[i] && p) { nfr[i]++; return; } if (p) nfr_other++; }
void h_enqueue(void)
{
	mkgrid(); which = W_ENQ; n_re = 0; fail_re = 0; qn = nondet_int(); ASSUME(qn >= 0 && qn < 1 << 17); q_k = nondet_int(); ASSUME(q_k >= 0);
	Q0 = qn ? __CPROVER_allocate(qn * sizeof *Q0, 0) : NULL; if (q_k < qn) qk = Q0[q_k]; Q1 = NULL;
	argv_t **q = Q0; int head = qn, ok = nondet_bool(), ok0 = ok; argv_t *mp = nondet_bool() ? NULL : G + (nondet_uint() % NG);
	enqueue(mp, &q, &head, &ok);
	if (fail_re) { PROVE(head == qn && q == Q0 && !ok, "no memory: an error, the queue is unchanged"); C1(fail_re); return; }
	PROVE(head == qn + 1 && ok == ok0 && q[qn] == mp && IMPL(q_k < qn, q[q_k] == qk), "one more entry, the others unchanged"); C1(qn > 5);
}
void h_or(void)
{
	mkgrid(); well(); unsigned w = nondet_uint(); ASSUME(w < N); _Bool bad = 0; n_exit = 0;
	for (unsigned i = w; i + 2 < NG + 1 && i + 2 < N && ISOR(i + 1); i += 2) if (USED(G[i + 2])) bad = 1;
	for (unsigned i = w; i >= 2 && ISOR(i - 1); i -= 2) if (USED(G[i - 2])) bad = 1;
	int r = check_or(G, G + w); PROVE(r == (bad ? ERROR : NOERROR), "an error exactly if another option of the group is in use"); C1(bad); C1(!bad); C1(bad && w + 1 == N);
}
void h_xor(void)
{
	mkgrid(); well(); _Bool bad = 0; n_exit = 0;
	for (unsigned s = 1; s < NG; s++) if (s < N && G[s].ar_short_arg == ARGV_XOR && !(s >= 3 && G[s - 2].ar_short_arg == ARGV_XOR))
	{
		_Bool any = USED(G[s - 1]);
		for (unsigned i = s; i < NG; i += 2) { if (i >= N || G[i].ar_short_arg != ARGV_XOR) break; any |= USED(G[i + 1]); }
		if (!any) bad = 1;
	}
	int r = check_xor(G); PROVE(r == (bad ? ERROR : NOERROR), "an error exactly if a group has no option in use"); C1(bad); C1(!bad && N > 6 && G[5].ar_short_arg == ARGV_XOR);
}
void h_mand(void)
{
	mkgrid(); _Bool bad = 0; n_exit = 0;
	for (unsigned i = 0; i < NG; i++) if (i < N && !USED(G[i]) && (G[i].ar_short_arg == ARGV_MAND || (G[i].ar_type & ARGV_FLAG_MAND))) bad = 1;
	int r = check_mand(G); PROVE(r == (bad ? ERROR : NOERROR), "an error exactly if a mandatory option is missing");
	int h = nondet_int(), t = nondet_int(); ASSUME(h >= 0 && t >= 0 && t <= h); r = check_opt(h, t); PROVE(r == (h > t ? ERROR : NOERROR), "an error exactly if a value is missing"); C1(bad); C1(!bad && N == NG); C1(h > t);
}
static argv_array_t ARR[NG];
void h_pre(void)
{
	mkgrid(); argv_t O[NG]; _Bool bad = 0, arr = 0, maybe = 0; n_exit = 0; _Bool inter = argv_interactive = 0;
	for (unsigned i = 0; i < NG; i++) { ARR[i].aa_entry_n = nondet_int(); if (nondet_bool()) G[i].ar_variable = (void *)&ARR[i]; else { G[i].ar_variable = NULL; if (G[i].ar_type & ARGV_FLAG_ARRAY) ASSUME(0); } O[i] = G[i]; }
	for (unsigned i = 0; i < NG; i++) if (i < N)
	{
		_Bool a = (O[i].ar_type & ARGV_FLAG_ARRAY) != 0;
		if (O[i].ar_short_arg == ARGV_MAND) { if (arr || maybe) bad = 1; if (a) arr = 1; }
		if (O[i].ar_short_arg == ARGV_MAYBE) { if (arr) bad = 1; maybe = 1; if (a) arr = 1; }
		if (a && (!HAS_ARG(O[i].ar_type))) bad = 1;
		if (!O[i].ar_variable && !ISOR(i)) bad = 1;
		if (ISOR(i) && (i == 0 || i + 1 >= N || (ISOR(i - 1)))) bad = 1;
	}
	int r = preprocess_array(G, N); PROVE(r == (bad ? ERROR : NOERROR), "a table is refused exactly if it is malformed");
	unsigned k = nondet_uint(); ASSUME(k < NG);
	if (!bad && k < N) { PROVE(G[k].ar_type == (O[k].ar_type & ~ARGV_FLAG_USED) && G[k].ar_variable == O[k].ar_variable && G[k].ar_short_arg == O[k].ar_short_arg, "no option is in use yet"); PROVE(IMPL(O[k].ar_type & ARGV_FLAG_ARRAY, ARR[k].aa_entry_n == 0), "arrays are empty"); }
	C1(bad); C1(!bad && N == NG); (void)inter;
}
/* one value */
static char ABUF[26]; static char *COPY; static int n_copy; static _Bool copy_fails;
char *s_copy(const char *s) { PROVE(s == ARG, "the value that was given"); n_copy++; return COPY; }
int s_btoi(const char *s) { PROVE(s == ARG, "the value"); return AT; }
static union { char c[16]; uint64_t w[2]; } VAR, VAR0; static argv_array_t AV; static char CP[1];
static _Bool yesc(char c) { return c == 't' || c == 'T' || c == 'y' || c == 'Y' || c == '1'; }
static unsigned size_of(unsigned t)
{
	switch (t) { case ARGV_BOOL: case ARGV_BOOL_ARG: case ARGV_CHAR: return 1; case ARGV_SHORT: case ARGV_U_SHORT: return 2; case ARGV_CHAR_P: case ARGV_LONG: case ARGV_U_LONG: case ARGV_DOUBLE: case ARGV_SIZE: case ARGV_U_SIZE: return 8; default: return 4; }
}
static unsigned T; static _Bool isarr; static char *dst;
static void val_setup(void)
{
	mkgrid(); argv_interactive = 0; n_scan = n_copy = n_mal = n_re = n_are = 0; AT = nondet_int(); ATL = nondet_long(); which = W_ARR;
	for (unsigned i = 0; i < 25; i++) ABUF[i] = nondet_u8();
	ABUF[25] = 0; copy_fails = nondet_bool(); COPY = copy_fails ? NULL : CP; VAR.w[0] = nondet_u64(); VAR.w[1] = nondet_u64(); VAR0 = VAR;
	T = nondet_uint(); ASSUME(T >= 1 && T <= 22); isarr = nondet_bool(); ASSUME(IMPL(isarr, HAS_ARG(T))); ARG = HAS_ARG(T) || nondet_bool() ? ABUF : NULL;
	if (isarr) { a_n = nondet_uint(); a_sz = size_of(T); ASSUME(a_n <= 1 << 14); AV.aa_entry_n = a_n; AE0 = a_n ? __CPROVER_allocate((a_n + 9) / 10 * 10 * a_sz, 0) : NULL; AV.aa_entries = AE0; AE1 = AE0; }
}
static void val_check(int r, _Bool size_type)
{
	if (isarr)
	{
		PROVE(AV.aa_entry_n == (int)a_n + 1 && AV.aa_entries == AE1 && __CPROVER_OBJECT_SIZE(AE1) >= (size_t)(a_n + 1) * a_sz, "one more entry, with room");
		PROVE(__CPROVER_OBJECT_SIZE(AE1) >= (size_t)(a_n / 10 + 1) * 10 * a_sz, "room up to the next step"); dst = AE1 + a_n * a_sz; PROVE(IMPL(AE1 == AE0, n_are == 0), "moved only by growing"); C1(a_n > 10 && n_are); C1(a_n > 10 && !n_are);
	}
	else dst = VAR.c;
	if (T != ARGV_CHAR_P) PROVE(r == NOERROR && n_copy == 0, "accepted");
	if (T != ARGV_FLOAT && T != ARGV_DOUBLE) PROVE(!n_scan, "no scan");
	switch (T)
	{
	case ARGV_BOOL: PROVE(*dst == (ARG ? yesc(*ARG) : 1), "flag"); break;
	case ARGV_BOOL_NEG: PROVE(*dst == (ARG ? yesc(*ARG) : 0), "negative flag"); break;
	case ARGV_BOOL_ARG: PROVE(*dst == yesc(*ARG), "flag value"); break;
	case ARGV_CHAR: PROVE(*dst == *ARG, "character"); break;
	case ARGV_CHAR_P: PROVE(n_copy == 1 && *(char **)dst == COPY && r == (copy_fails ? ERROR : NOERROR), "a copy of the string"); break;
	case ARGV_SHORT: case ARGV_U_SHORT: PROVE(*(short *)dst == (short)AT, "number"); break;
	case ARGV_INT: case ARGV_U_INT: case ARGV_BIN: case ARGV_OCT: case ARGV_HEX: PROVE(*(int *)dst == AT, "number"); break;
	case ARGV_LONG: case ARGV_U_LONG: PROVE(*(long *)dst == ATL, "number"); break;
	case ARGV_FLOAT: case ARGV_DOUBLE: PROVE(n_scan == 1 && scan_to == dst && scan_dbl == (T == ARGV_DOUBLE), "scanned into the variable"); break;
	case ARGV_INCR: PROVE((ARG && *(int *)dst == AT) || (!ARG && *(int *)dst == *(int *)VAR0.c + 1), "counted or set"); break;
	case ARGV_BOOL_INT: PROVE(*(int *)dst == (ARG ? yesc(*ARG) : 1), "flag"); break;
	case ARGV_BOOL_INT_NEG: PROVE(*(int *)dst == (ARG ? yesc(*ARG) : 0), "flag"); break;
	case ARGV_BOOL_INT_ARG: PROVE(*(int *)dst == yesc(*ARG), "flag value"); break;
	default: PROVE(size_type, "known type");
	}
	if (!isarr) { unsigned sz = T == ARGV_BOOL_NEG ? 1 : size_of(T), k = nondet_uint(); ASSUME(k >= sz && k < 16); PROVE(VAR.c[k] == VAR0.c[k], "nothing but the variable is written"); }
}
void h_value(void)
{
	val_setup(); ASSUME(T != ARGV_SIZE && T != ARGV_U_SIZE); ASSUME(IMPL(T == ARGV_INCR && !ARG, *(int *)VAR0.c < INT32_MAX));
	int r = string_to_value(ARG, isarr ? (void *)&AV : (void *)&VAR, T | (isarr ? ARGV_FLAG_ARRAY : 0) | (nondet_uint() & (ARGV_FLAG_USED | ARGV_FLAG_MAND))); val_check(r, 0); C1(T == ARGV_CHAR_P && copy_fails); C1(T == ARGV_INCR && !ARG); C1(T == ARGV_DOUBLE);
}
void h_size(void)
{
	val_setup(); ASSUME(T == ARGV_SIZE || T == ARGV_U_SIZE); unsigned p = 0; while (ABUF[p] == ' ' || ABUF[p] == '-' || ABUF[p] == '+' || (ABUF[p] >= '0' && ABUF[p] <= '9')) p++;
	char c = ABUF[p]; long f = c == 'k' || c == 'K' ? 1024L : c == 'm' || c == 'M' ? 1024L * 1024 : c == 'g' || c == 'G' ? 1024L * 1024 * 1024 : 1; ASSUME(ATL < (1L << 33) && ATL > -(1L << 33));
	int r = string_to_value(ARG, isarr ? (void *)&AV : (void *)&VAR, T | (isarr ? ARGV_FLAG_ARRAY : 0)); val_check(r, 1);
	PROVE(*(long *)dst == ATL * f, "the number times its unit"); C1(f == 1024); C1(p > 20);
}
static unsigned char_in(char c) { return (c >= '0' && c <= '9') || c == '+' || c == '-' || c == '.'; }
void h_isnum(void)
{
	for (unsigned i = 0; i < 25; i++) ABUF[i] = nondet_u8();
	ABUF[25] = 0; _Bool all = ABUF[0] != 0; for (unsigned i = 0; i < 25 && ABUF[i]; i++) if (!char_in(ABUF[i])) all = 0;
	PROVE(!!is_number(ABUF) == all, "number characters only, at least one"); C1(all && ABUF[5]); C1(!all);
}
/* one option */
static const char *CLOSE; static int MTYPE, n_val, n_orc, n_enq; static _Bool r_val, r_or, r_enq; static argv_t *MP; static argv_t **QQ; static int QH;
int d_val(const char *arg, ARGV_PNT var, const unsigned int type) { PROVE(n_val == 0 && (void *)var == (void *)MP->ar_variable && ARGV_TYPE(type) == ARGV_TYPE(MTYPE) && ((type ^ MTYPE) & ARGV_FLAG_ARRAY) == 0 && arg == CLOSE, "the value goes to the variable of the option"); n_val++; return r_val ? NOERROR : ERROR; }
int d_or(const argv_t *g, const argv_t *w) { PROVE(g == G && w == MP && n_orc == 0, "the group of this option"); n_orc++; return r_or ? NOERROR : ERROR; }
void d_enq(argv_t *m, argv_t ***q, int *h, int *ok) { PROVE(m == MP && q == &QQ && h == &QH && n_enq == 0, "waits for its value"); n_enq++; if (!r_enq) *ok = 0; else (*h)++; }
void h_doarg(void)
{
	mkgrid(); ASSUME(N > 0); unsigned w = nondet_uint(); ASSUME(w < N); MP = G + w; MTYPE = MP->ar_type; n_val = n_orc = n_enq = 0; r_val = nondet_bool(); r_or = nondet_bool(); r_enq = nondet_bool();
	CLOSE = nondet_bool() ? ABUF : NULL; argv_multi_accept_b = nondet_bool(); argv_close_enable_b = 1; QH = nondet_int(); ASSUME(QH >= 0 && QH < 1000); int qh0 = QH; int ok = nondet_bool(), ok0 = ok;
	_Bool twice = !argv_multi_accept_b && (MTYPE & ARGV_FLAG_USED) && !(MTYPE & ARGV_FLAG_ARRAY) && ARGV_TYPE(MTYPE) != ARGV_INCR, wait = HAS_ARG(MTYPE) && !CLOSE;
	do_arg(G, MP, CLOSE, &QQ, &QH, &ok);
	PROVE(MP->ar_type == (MTYPE | ARGV_FLAG_USED), "in use"); PROVE(n_orc == 1, "the group was checked"); PROVE(n_enq == wait && n_val == !wait, "set now, or waits for its value");
	PROVE(QH == qh0 + (wait && r_enq), "queue"); PROVE(!!ok == (ok0 && !twice && r_or && (wait ? r_enq : r_val)), "in order exactly if every part was"); C1(ok && wait); C1(!ok && ok0 && !wait && !twice); C1(twice);
}
/* the whole command line */
static char PN[12]; static char *AV_[4]; static char *ENVV[2]; static char ENVS[1]; static int envn, acount; static _Bool has_env, p_ok, l_ok[2], m_ok, o_ok, x_ok; static int n_list, n_chk; static argv_t **QL;
int t_pre(argv_t *a, const int n) { PROVE(a == G && n == (int)N && n_list == 0, "the whole table is checked first"); return p_ok ? NOERROR : ERROR; }
char **t_env(char **s, int *n) { *n = 0; if (!has_env) { if (nondet_bool()) { *s = ENVS; fr[2] = ENVS; } return NULL; } *s = ENVS; *n = envn; fr[2] = ENVS; return ENVV; }
static int env_seen, arg_seen;
void t_list(argv_t *g, const int c, char **v, argv_t ***q, int *h, int *t, int *ok)
{
	PROVE(g == G && n_list < 2 && n_chk == 0, "lists before checks"); PROVE(*q == QL && *h >= *t && *t >= 0, "one queue for all lists");
	if (v == ENVV) { PROVE(has_env && c == envn && !env_seen && nfr[1] == 0 && nfr[2] == 0 && argv_process_env_b && (argv_env_after_b ? arg_seen : !arg_seen), "the arguments of the environment, at their place"); env_seen = 1; }
	else { PROVE(v == AV_ + 1 && c == acount - 1 && !arg_seen, "the arguments, without the program name"); arg_seen = 1; }
	if (nondet_bool()) { QL = *q = (argv_t **)__CPROVER_allocate(8, 0); fr[0] = QL; *h += 2; if (nondet_bool()) *t += 1; }
	if (!l_ok[n_list]) *ok = 0; n_list++;
}
static int QHS, QTS;
int t_mand(const argv_t *a) { PROVE(a == G && arg_seen, "checked at the end"); n_chk |= 1; return m_ok ? NOERROR : ERROR; }
int t_opt(const int h, const int t) { PROVE(arg_seen && h >= t, "checked at the end"); n_chk |= 2; return o_ok ? NOERROR : ERROR; }
int t_xor(const argv_t *a) { PROVE(a == G && arg_seen, "checked at the end"); n_chk |= 4; return x_ok ? NOERROR : ERROR; }
void t_usage(const argv_t *a, const int f) { }
static const char *PB; static int n_cpy;
static char *s_strncpy(char *d, const char *s, size_t n) { PROVE(d == argv_program && s == PB && n == 256, "the program name without its path"); n_cpy++; return d; }
void h_top(void)
{
	mkgrid(); which = W_TOP; n_mal = n_list = n_chk = n_cpy = env_seen = arg_seen = 0; QL = NULL; for (int i = 0; i < NFREE; i++) { fr[i] = NULL; nfr[i] = 0; } nfr_other = 0; fr[1] = (void *)ENVV;
	argv_interactive = nondet_bool(); p_ok = nondet_bool(); l_ok[0] = nondet_bool(); l_ok[1] = nondet_bool(); m_ok = nondet_bool(); o_ok = nondet_bool(); x_ok = nondet_bool(); has_env = nondet_bool(); argv_process_env_b = 1; argv_env_after_b = nondet_bool(); envn = nondet_int(); ASSUME(envn > 0 && envn < 1000);
	for (unsigned i = 0; i < 11; i++) PN[i] = nondet_u8();
	PN[11] = 0; PB = PN; for (unsigned i = 0; i < 11 && PN[i]; i++) if (PN[i] == '/') PB = PN + i + 1;
	AV_[0] = PN; acount = nondet_int(); ASSUME(acount >= 1 && acount < 1000);
	int r = argv_process_no_env(G, acount, AV_);
	PROVE(n_cpy == 1, "program name"); if (!p_ok) { PROVE(r == ERROR && n_list == 0, "a malformed table is refused"); return; }
	PROVE(arg_seen && env_seen == has_env && n_list == 1 + has_env && n_chk == 7, "every list and every check once");
	PROVE(r == (l_ok[0] && IMPL(has_env, l_ok[1]) && m_ok && o_ok && x_ok ? NOERROR : ERROR), "accepted exactly if every part was in order");
	PROVE(IMPL(QL, nfr[0] == 1) && IMPL(has_env, nfr[1] == 1 && nfr[2] == 1) && nfr_other == 0, "the queue and the environment copy are freed once"); C1(r == NOERROR && has_env); C1(r == ERROR && p_ok);
}
/* the copy of a string */
void h_copy(void)
{
	for (unsigned i = 0; i < 25; i++) ABUF[i] = nondet_u8();
	ABUF[25] = 0; which = W_COPY; n_mal = 0; mkgrid(); argv_interactive = 0; unsigned n = 0; while (ABUF[n]) n++;
	char *c = string_copy(ABUF); PROVE(n_mal == 1 && c == mobj && msz >= n + 1, "a new block with room"); unsigned k = nondet_uint(); ASSUME(k <= n); PROVE(c[k] == ABUF[k], "the same characters"); C1(n == 25); C1(n == 0);
}
/* arguments from a file */
static int fl_t; static int nline, n_open, n_closed, n_got, n_fcp, n_fl, n_ff; static char COPIES[16]; static const char *FN; static _Bool f_missing; static char L0[16];
static FILE *s_fopen(const char *n, const char *m) { PROVE(n == FN && n_open == 0 && m[0] == 'r', "the file that was named"); if (f_missing) return NULL; n_open++; return (FILE *)FILEOBJ; }
static int s_fclose(FILE *f) { PROVE(f == (FILE *)FILEOBJ && n_open == 1 && n_closed == 0, "closed once"); n_closed++; return 0; }
static char *s_fgets(char *b, int n, FILE *f)
{
	PROVE(f == (n_open ? (FILE *)FILEOBJ : stdin) && n_closed == 0 && n >= 3, "reads the file"); if (n_got == nline) return NULL;
	char c = L0[n_got++]; if (c == 0) { b[0] = '\n'; b[1] = 0; return b; }
	b[0] = c; if (n_got == nline && nondet_bool()) b[1] = 0; else { b[1] = '\n'; b[2] = 0; } return b;
}
static int n_lines(int k) { int n = 0; for (int i = 0; i < k && i < 14; i++) if (L0[i]) n++; return n; }
char *f_copy(const char *s) { PROVE(s[0] && s[1] == 0 && s[0] == L0[n_got - 1], "the line without its end"); return &COPIES[n_fcp++]; }
static void *fblk; static int f_free[16];
void f_list(argv_t *g, const int c, char **v, argv_t ***q, int *h, int *t, int *ok)
{
	n_fl++; PROVE(g == G && q == &QQ && h == &QH && t == &fl_t && c == n_lines(nline) && n_got == nline, "every line once"); int k = nondet_int(); if (k >= 0 && k < c) PROVE(v[k] == &COPIES[k], "in order"); fblk = v;
}
static char **b0, **b1; static int nb1;
static char *B0[10], *B1[20];
static void *f_malloc(size_t n) { PROVE(n == sizeof B0, "first block"); b0 = B0; return b0; }
static void *f_realloc(void *p, size_t n) { PROVE(p == B0 && b0 == B0 && n == sizeof B1, "grows"); for (int i = 0; i < 10; i++) B1[i] = B0[i]; b0 = B1; return B1; }
static void f_freed(void *p) { if (p == b0) { nb1++; PROVE(n_ff == n_fcp && n_fl == 1, "the lines first"); return; } PROVE(SAME(p, COPIES) && (int)OFF(p) < n_fcp && !f_free[OFF(p)] && n_fl == 1, "every line once, after its use"); f_free[OFF(p)] = 1; n_ff++; }
void h_file(void)
{
	mkgrid(); argv_interactive = 0; which = W_FILE; n_open = n_closed = n_got = n_fcp = n_fl = n_ff = nb1 = 0; for (int i = 0; i < 16; i++) f_free[i] = 0; nline = nondet_int(); ASSUME(nline >= 0 && nline <= 11); f_missing = nondet_bool();
	for (int i = 0; i < 14; i++) { L0[i] = nondet_u8(); ASSUME(L0[i] != '\n'); }
	ABUF[0] = nondet_u8(); ABUF[1] = nondet_u8(); ABUF[2] = 0; FN = ABUF; _Bool dash = ABUF[0] == '-' && !ABUF[1]; int ok = 1;
	file_args(ABUF, G, &QQ, &QH, &fl_t, &ok);
	if (f_missing && !dash) { PROVE(!ok && n_fl == 0, "a missing file is an error"); C1(1); return; }
	PROVE(ok && n_fl == 1 && n_ff == n_fcp && nb1 == 1 && n_open == !dash && n_closed == n_open, "processed once, everything released"); C1(n_fcp == 11); C1(dash);
}
/* release */
void h_cleanup(void)
{
	mkgrid(); which = W_FREE; enabled_b = 1; unsigned k = nondet_uint(), j = nondet_uint(); ASSUME(k < N); for (int i = 0; i < NFREE; i++) { fr[i] = NULL; nfr[i] = 0; } nfr_other = 0;
	static argv_array_t AR[NG]; static char *PV[NG]; static char BLK[NG][4];
	for (unsigned i = 0; i < NG; i++)
	{
		PV[i] = &BLK[i][0]; AR[i].aa_entry_n = nondet_uint() % 3; static char *EN[NG][3]; for (unsigned q = 0; q < 3; q++) EN[i][q] = &BLK[i][1 + q]; AR[i].aa_entries = (void *)EN[i];
		G[i].ar_variable = (G[i].ar_type & ARGV_FLAG_ARRAY) ? (void *)&AR[i] : (void *)&PV[i];
		if (i == k) { fr[0] = PV[i]; fr[1] = EN[i]; ASSUME(j < 3); fr[2] = EN[i][j]; }
	}
	unsigned t = G[k].ar_type, n = AR[k].aa_entry_n; _Bool a = (t & ARGV_FLAG_ARRAY) != 0, cp = ARGV_TYPE(t) == ARGV_CHAR_P;
	argv_cleanup(nondet_bool() ? G : G);
	PROVE(nfr[0] == (!a && cp && (t & ARGV_FLAG_USED)), "a string that was given is freed once"); PROVE(nfr[1] == (a && n > 0) && nfr[2] == (a && cp && j < n), "the values of an array and the array are freed once");
	if (a) PROVE(AR[k].aa_entry_n == 0 && AR[k].aa_entries == NULL, "the array is empty"); C1(a && cp && n == 2); C1(nfr[0] == 1);
}

/* one list of arguments: what is done with each of them, against the documented rules (written independently of the code, on a copy of the strings) */
#define LG 3
#ifndef LA
#define LA 1
#endif
#ifndef LFREE
#define LFREE 0
#endif
#ifndef LL
#define LL 4
#endif
enum { E_ARG = 1, E_VAL, E_NULLQ, E_FILE, E_USAGE, E_DISP, E_EXIT };
static struct { int what; int idx; const char *p; } EV[8]; static int n_ev, n_done; static _Bool l_run;
static char LN[LG][3], S0[LA][LL + 1], S1[LA][LL + 1]; static char *LV[LA]; static argv_t *LQ[16]; static argv_t **LQP; static int lq_h, lq_t; static uint32_t lval_m; static _Bool lok;
#define lval_ok(k) ((lval_m >> (k)) & 1)
static void ev(int w, int i, const char *p) { ASSUME(n_ev < 8); EV[n_ev].what = w; EV[n_ev].idx = i; EV[n_ev].p = p; n_ev++; }
static void act(int w, int i, const char *p)
{
	PROVE(n_done < n_ev && EV[n_done].what == w, "the next thing the arguments ask for"); PROVE(EV[n_done].idx == i, "for the option named"); PROVE(EV[n_done].p == p, "with the text that belongs to it"); n_done++;
}
static void l_exit(int c) { if (l_run) { act(E_EXIT, 0, NULL); PROVE(c == 0, "help was asked for"); C1(1); } }
static int idx_of(argv_t *g) { for (int i = 0; i < LG; i++) if (g == G + i) return i; PROVE(0, "an entry of the table"); return -1; }
void l_arg(argv_t *g, argv_t *m, const char *close, argv_t ***q, int *h, int *ok)
{
	PROVE(g == G && q == &LQP && h == &lq_h, "the table and the queue"); act(E_ARG, idx_of(m), close); m->ar_type |= ARGV_FLAG_USED;
	if (HAS_ARG(m->ar_type) && !close) { LQ[*h] = m; (*h)++; }
}
int l_val(const char *arg, ARGV_PNT var, const unsigned int type)
{
	int i = 0; while (i < LG - 1 && G[i].ar_variable != var) i++;
	PROVE(G[i].ar_variable == var && ARGV_TYPE(type) == ARGV_TYPE(G[i].ar_type) && ((type ^ G[i].ar_type) & ARGV_FLAG_ARRAY) == 0, "the variable with its type"); int k = n_done; act(E_VAL, i, arg); return lval_ok(k) ? NOERROR : ERROR;
}
void l_enq(argv_t *m, argv_t ***q, int *h, int *ok) { PROVE(m == NULL && q == &LQP && h == &lq_h, "the file argument waits for its value"); act(E_NULLQ, 0, NULL); LQ[*h] = NULL; (*h)++; }
void l_file(const char *path, argv_t *g, argv_t ***q, int *h, int *t, int *ok) { PROVE(g == G && q == &LQP && h == &lq_h && t == &lq_t, "the table and the queue"); act(E_FILE, 0, path); }
void l_usage(const argv_t *g, const int w) { act(E_USAGE, w, NULL); }
void l_disp(const argv_t *g) { act(E_DISP, 0, NULL); }
static _Bool pfx(const char *lit, const char *s, int n) { for (int i = 0; i < LL; i++) { if (i >= n) return 1; if (lit[i] != s[i] || !lit[i]) return 0; } return 1; }
static void oracle(int na)
{
	_Bool last = 0, used[LG]; argv_t *q[16]; int h = lq_h, t = lq_t;
	for (int i = 0; i < LG; i++) used[i] = USED(G[i]);
	for (int i = 0; i < 3; i++) q[i] = LQ[i];
	for (int a = 0; a < LA; a++) if (a < na)
	{
		const char *s = S0[a]; int n = 0; while (n < LL && s[n]) n++;
		if (n == 2 && s[0] == '-' && s[1] == '-') { if (!last) { last = 1; continue; } if (argv_last_toggle_b) { last = 0; continue; } }
		int e = n; const char *close = NULL;
		if (!last && n > 1 && s[0] == '-' && argv_close_enable_b) { for (e = 0; e < n; e++) if (s[e] == '=') break; if (e < n) close = S1[a] + e + 1; }
		if (!last && n >= 2 && s[0] == '-' && s[1] == '-')
		{
			int m = e - 2, cnt = 0, first = -1; const char *w = s + 2;
			if (m <= 0) { lok = 0; continue; }
			for (int i = 0; i < LG; i++) if (i < (int)N && G[i].ar_long_arg && pfx(LN[i], w, m)) { if (!cnt) first = i; cnt++; }
			if (cnt > 1) { lok = 0; continue; }
			if (cnt == 1) { ev(E_ARG, first, close); used[first] = 1; if (HAS_ARG(G[first].ar_type) && !close) q[h++] = G + first; continue; }
			if (pfx("argv-", w, m)) { if (close) ev(E_FILE, 0, close); else { ev(E_NULLQ, 0, NULL); q[h++] = NULL; } continue; }
			if (pfx("usage", w, m) || pfx("help", w, m)) { if (argv_interactive) { ev(E_USAGE, argv_usage_type, NULL); ev(E_EXIT, 0, NULL); return; } continue; }
			if (pfx("versi", w, m)) { if (argv_interactive) { ev(E_EXIT, 0, NULL); return; } continue; }
			lok = 0; continue;
		}
		if (!last && n >= 2 && s[0] == '-')
		{
			int m = e - 1; const char *w = s + 1; _Bool num = e > 0; if (m <= 0) { lok = 0; continue; }
			for (int i = 0; i < LL; i++) if (i < e && !char_in(s[i])) num = 0;
			for (int c = 0; c < LL; c++) if (c < m)
			{
				int k = -1; for (int i = LG - 1; i >= 0; i--) if (i < (int)N && G[i].ar_short_arg == w[c]) k = i;
				if (k >= 0) { ev(E_ARG, k, close); used[k] = 1; if (HAS_ARG(G[k].ar_type) && !close) q[h++] = G + k; continue; }
				if (w[c] == '?') { if (argv_interactive) { ev(E_USAGE, argv_usage_type, NULL); ev(E_EXIT, 0, NULL); return; } continue; }
				if (c == 0 && num && h > t && q[t])
				{
					int ty = ARGV_TYPE(q[t]->ar_type); if (ty == ARGV_SHORT || ty == ARGV_INT || ty == ARGV_LONG || ty == ARGV_FLOAT || ty == ARGV_DOUBLE) { ASSUME(n_ev < 24 && lval_ok(n_ev)); ev(E_VAL, (int)(q[t] - G), S1[a]); t++; break; }
				}
				lok = 0;
			}
			continue;
		}
		if (N > 0 && h > t) { argv_t *w = q[t++]; if (!w) ev(E_FILE, 0, S1[a]); else { ASSUME(n_ev < 8); if (!lval_ok(n_ev)) lok = 0; ev(E_VAL, (int)(w - G), S1[a]); } continue; }
		int k = -1; for (int p = 0; p < 2 && k < 0; p++) for (int i = LG - 1; i >= 0; i--) if (i < (int)N && G[i].ar_short_arg == (p ? ARGV_MAYBE : ARGV_MAND) && (!used[i] || (G[i].ar_type & ARGV_FLAG_ARRAY))) k = i;
		if (k >= 0) { ASSUME(n_ev < 8); if (!lval_ok(n_ev)) lok = 0; ev(E_VAL, k, S1[a]); used[k] = 1; continue; }
		lok = 0;
	}
}
static char LVAR[LG];
void h_list(void)
{
	mkgrid(); n_ev = n_done = 0; lok = 1; l_run = 1; argv_close_enable_b = nondet_bool(); argv_last_toggle_b = nondet_bool(); int ut = argv_usage_type = nondet_int(); ASSUME(ut >= 1 && ut <= 5); argv_help_string = argv_version_string = NULL;
	ASSUME(N <= LG); for (int i = 0; i < LG; i++) { for (int k = 0; k < 2; k++) LN[i][k] = nondet_u8(); LN[i][2] = 0; G[i].ar_long_arg = nondet_bool() ? LN[i] : NULL; G[i].ar_variable = &LVAR[i]; ASSUME(ARGV_TYPE(G[i].ar_type) <= 22 && ARGV_TYPE(G[i].ar_type) >= 1); }
	const int na = LA;
	static const char FIX[] = "--\0\0\0\0";	/* behind it, everything is a value */
	for (int a = 0; a < LA; a++) { for (int k = 0; k < LL; k++) { char c = nondet_u8(); ASSUME(c >= 0); if (a + 1 < LA && !LFREE) c = FIX[k]; S0[a][k] = S1[a][k] = c; } S0[a][LL] = S1[a][LL] = 0; LV[a] = S1[a]; }
	lval_m = nondet_uint();
	lq_h = nondet_int(); lq_t = nondet_int(); ASSUME(lq_t >= 0 && lq_t <= lq_h && lq_h <= 2); LQP = LQ;
	for (int k = 0; k < 2; k++) { unsigned w = nondet_uint(); ASSUME(w <= N); LQ[k] = w < N ? G + w : NULL; }
	oracle(na); int ok = 1; do_list(G, na, LV, &LQP, &lq_h, &lq_t, &ok);
	PROVE(n_done == n_ev, "everything the arguments ask for was done"); PROVE(!!ok == lok, "refused exactly if one of them makes no sense"); C1(n_ev > 2); C1(!lok); C1(n_ev == 1 && EV[0].what == E_FILE);
}

/* numbers in other bases, against the value read digit by digit */
void h_radix(void)
{
	static char B[8]; for (int i = 0; i < 7; i++) B[i] = nondet_u8(); B[7] = 0; int w = nondet_int(); ASSUME(w >= 0 && w <= 2); int base = w == 0 ? 2 : w == 1 ? 8 : 16;
	int i = 0; while (i < 7 && (B[i] == ' ' || (B[i] >= 9 && B[i] <= 13))) i++;
	if (w == 2 && B[i] == '0' && (B[i + 1] == 'x' || B[i + 1] == 'X')) i += 2;
	int v = 0; for (; i < 7; i++) { int d = B[i] >= '0' && B[i] <= '9' ? B[i] - '0' : B[i] >= 'a' && B[i] <= 'f' ? B[i] - 'a' + 10 : B[i] >= 'A' && B[i] <= 'F' ? B[i] - 'A' + 10 : 99; if (d >= base) break; v = v * base + d; }
	int r = w == 0 ? btoi(B) : w == 1 ? otoi(B) : htoi(B); PROVE(r == v, "the value of the digits"); C1(w == 2 && v == 0xabcdef0); C1(w == 0 && v == 127); C1(w == 1 && v > 100000);
}
/* words of the environment variable */
#define VL 8
static char VS[VL + 1], VC[VL + 1], VO[VL + 1]; static int n_vcp; static _Bool v_fail; static const char *V_SRC;
#ifndef H_ENV
static char *s_strsep(char **sp, const char *d)
{
	char *b = *sp; if (!b) return NULL; PROVE(d[0] == ' ' && d[1] == '\t' && d[2] == 0, "separators");
	char *e = b; while (*e && *e != ' ' && *e != '\t') e++;
	if (*e) { *e = 0; *sp = e + 1; } else *sp = NULL; return b;
}
#endif
char *v_copy(const char *s) { PROVE(s == V_SRC && n_vcp == 0, "copies the text"); if (v_fail) return NULL; n_vcp++; for (int i = 0; i <= VL; i++) VC[i] = s[i]; which = W_COPY; fr[0] = VC; nfr[0] = 0; return VC; }
static _Bool vsep(char c) { return c == ' ' || c == '\t'; }
void h_vec(void)
{
	mkgrid(); argv_interactive = 0; v_fail = nondet_bool(); n_vcp = n_mal = nfr_other = 0; for (int i = 0; i < NFREE; i++) { fr[i] = NULL; nfr[i] = 0; } which = W_COPY;
	for (int i = 0; i < VL; i++) VS[i] = VO[i] = nondet_u8(); VS[VL] = VO[VL] = 0; V_SRC = VS;
	int n = 0, num = 77, at[VL], en[VL]; for (int i = 0; i < VL && VO[i]; i++) if (!vsep(VO[i]) && (i == 0 || vsep(VO[i - 1]))) { int e = i; while (e < VL && VO[e] && !vsep(VO[e])) e++; at[n] = i; en[n] = e; n++; }
	char **v = vectorize(VS, " \t", &num); if (v_fail) { PROVE(v == NULL, "no memory"); return; }
	PROVE(num == n && (v == NULL) == (n == 0), "as many words as there are"); PROVE(nfr[0] == 1, "the copy is released");
	if (n) { PROVE(v == mobj && msz >= n * sizeof *v, "room for them"); int k = nondet_int(); ASSUME(k >= 0 && k < n); PROVE(v[k] == VS + at[k], "the words in order"); PROVE(VS[en[k]] == 0, "each ends where it ends"); int c = nondet_int(); ASSUME(c >= at[k] && c < en[k]); PROVE(VS[c] == VO[c], "with the same characters"); C1(n == 3); C1(k == 1 && en[1] == VL); }
}
/* the environment variable of the program */
static const char *e_ret; static int n_ge;
#ifdef H_ENV
#ifndef EM
#define EM 1024
#endif
#include <string.h>
static int e_num; static char *e_cpy, *e_var; static _Bool e_prog, e_nomem; static char **e_vec;
static void s_snprintf(char *b, size_t n, const char *f, const char *a)
{
	PROVE(a == argv_program && strcmp(f, "ARGV_%s") == 0 && n >= 1, "named after the program"); PROVE(n_ge == 0 && e_z == -1, "once");
	e_z = nondet_int(); ASSUME(e_z >= 0 && e_z < EM && (size_t)e_z < n);	/* cut off if too long */
	for (int i = 0; i < EM; i++) if ((size_t)i < n) { char c = nondet_u8(); if (i == e_z) c = 0; if (i < e_z) ASSUME(c != 0); b[i] = c; if (i == e_k) { e_c = c; e_low = c >= 'a' && c <= 'z'; e_up = i < e_z; } }
}
static char *s_getenv(const char *n)
{
	n_ge++; if (!e_prog) { PROVE(strcmp(n, "GLOBAL_ARGV") == 0, "the variable of all programs"); return (char *)e_ret; }
	PROVE(e_z >= 0 && n[e_z] == 0, "the name of the variable"); if (e_up) PROVE(n[e_k] == (e_low ? (char)(e_c - 'a' + 'A') : e_c), "in upper case"); return e_var;
}
char *e_copy(const char *s) { PROVE(e_prog ? s == e_var && e_var : s == e_ret && e_ret, "copies the value"); return e_nomem ? NULL : e_cpy; }
char **e_vect(const char *s, const char *d, int *np) { PROVE(s == e_cpy && d[0] == ' ' && d[1] == '\t' && !d[2], "the words of the value"); *np = e_num; return e_vec; }
static char EV0[1], EV1[1];
void h_env(void)
{
	mkgrid(); e_prog = 1; n_ge = 0; e_z = -1; e_k = nondet_int(); ASSUME(e_k >= 0 && e_k < EM); e_up = e_low = 0; e_var = nondet_bool() ? EV0 : NULL; e_cpy = EV1; e_nomem = nondet_bool(); e_num = nondet_int(); e_vec = nondet_bool() ? nondet_ptr() : NULL;
	char *own = NULL; int num = 77; char **v = preprocess_env_args(&own, &num);
	PROVE(n_ge == 1, "asks the environment");
	if (!e_var || e_nomem) { PROVE(v == NULL && num == 0 && own == NULL, "no arguments"); C1(!e_var); }
	else { PROVE(v == e_vec && num == e_num && own == e_cpy, "the words of the variable, and the copy they are in"); C1(e_up && e_low && e_k > 20); }
}
/* settings of all programs */
#define TM 16
static char TK[2][TM + 1]; static int tk_i, tk_n;
static char *s_strsep(char **sp, const char *d)
{
	PROVE(strcmp(d, " \t,:") == 0, "separators"); PROVE(tk_i <= tk_n && (tk_i ? *sp == TK[tk_i - 1] : *sp == e_cpy), "one after the other"); if (tk_i == tk_n) return NULL;
	*sp = TK[tk_i]; return TK[tk_i++];
}
static int oneof(const char *t, const char *l, const char *a, const char *b, const char *c, const char *d) { const char *w[4] = { a, b, c, d }; int n = strlen(l); for (int k = 0; k < 4; k++) if (w[k] && strncmp(t, l, n) == 0 && strcmp(t + n, w[k]) == 0) return k; return -1; }
static int ofr(const char *t, const char *l) { return oneof(t, l, "disable", "off", "no", "0") >= 0 ? 0 : oneof(t, l, "enable", "on", "yes", "1") >= 0 ? 1 : -1; }
void h_global(void)
{
	mkgrid(); e_prog = 0; n_ge = 0; tk_i = 0; tk_n = nondet_int(); ASSUME(tk_n >= 0 && tk_n <= 2); e_ret = nondet_bool() ? EV0 : NULL; e_cpy = EV1; e_nomem = 0; which = W_NONE; fr[0] = EV1; fr[1] = fr[2] = NULL; nfr[0] = nfr_other = 0;
	int v[7] = { argv_close_enable_b, argv_last_toggle_b, argv_process_env_b, argv_env_after_b, argv_error_type, argv_multi_accept_b, argv_usage_type };
	for (int i = 0; i < 2; i++)
	{
		for (int k = 0; k < TM; k++) { char c = nondet_u8(); TK[i][k] = c; } TK[i][TM] = 0; if (i >= tk_n || !e_ret) continue; const char *t = TK[i]; int r;
		if ((r = ofr(t, "close=")) >= 0) v[0] = r; if ((r = ofr(t, "lasttog=")) >= 0) v[1] = r;
		if ((r = oneof(t, "env=", "none", "before", "after", NULL)) >= 0) { v[2] = r != 0; v[3] = r == 2; }
		if ((r = oneof(t, "error=", "none", "see", NULL, NULL)) >= 0) v[4] = r ? ARGV_USAGE_SEE : ARGV_USAGE_NONE;
		for (int u = 0; u < 2; u++) { int *to = u ? &v[6] : &v[4]; if ((r = oneof(t, u ? "usage=" : "error=", "short", "shortrem", "long", "all")) >= 0) *to = r == 0 ? ARGV_USAGE_SHORT : r == 1 ? ARGV_USAGE_SHORT_REM : r == 2 ? ARGV_USAGE_LONG : ARGV_USAGE_ALL; }
		if ((r = oneof(t, "multi=", "reject", "accept", NULL, NULL)) >= 0) v[5] = r;
	}
	int r = process_env(); PROVE(r == NOERROR, "no failure"); PROVE(nfr_other == 0 && nfr[0] == (e_ret ? 1 : 0), "the copy is released once");
	PROVE(v[0] == argv_close_enable_b && v[1] == argv_last_toggle_b && v[2] == argv_process_env_b && v[3] == argv_env_after_b && v[4] == argv_error_type && v[5] == argv_multi_accept_b && v[6] == argv_usage_type, "exactly the settings that are given");
	C1(v[1] && tk_n == 2); C1(v[4] == ARGV_USAGE_SHORT_REM); C1(!e_ret);
	n_ge = 0; process_env(); PROVE(n_ge == 0, "once per program");
}
#else
static char *s_getenv(const char *n) { n_ge++; return (char *)e_ret; }
#endif

static int p_n, p_r1, p_r2, p_ac; static char **p_av;
int p_env(void) { PROVE(p_n == 0, "first"); p_n = 1; return p_r1; }
int p_no_env(argv_t *a, const int n, char **v) { PROVE(p_n == 1 && a == G && n == p_ac && v == p_av, "the same command line, after the settings"); p_n = 2; return p_r2; }
void h_proc(void)
{
	mkgrid(); p_n = 0; p_r1 = nondet_bool() ? NOERROR : ERROR; p_r2 = nondet_bool() ? NOERROR : ERROR; p_ac = nondet_int(); p_av = nondet_ptr(); enabled_b = nondet_bool();
	int r = argv_process(G, p_ac, p_av); PROVE((r == NOERROR) == (p_r1 == NOERROR && p_r2 == NOERROR), "accepted exactly if the command line is"); C1(r == NOERROR); C1(r != NOERROR && p_n == 2);
}
