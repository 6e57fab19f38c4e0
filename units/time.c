/* fstrm/time.c under contract: which clocks work is arbitrary (uninterpreted, one answer per clock and purpose). */
#include "vf.h"
#define C1(c) COVER(c, "c")
#include <time.h>
#include <pthread.h>
_Bool __CPROVER_uninterpreted_cg(int), __CPROVER_uninterpreted_cc(int);
#define cg __CPROVER_uninterpreted_cg
#define cc __CPROVER_uninterpreted_cc
static int n_ai, n_ad, n_dup; static char DUP[1];
static int s_get(clockid_t c, struct timespec *t) { if (!cg(c)) return -1; t->tv_sec = nondet_long(); return 0; }
static int s_ai(pthread_condattr_t *a) { PROVE(n_ai == n_ad, "one at a time"); n_ai++; return 0; }
static int s_ad(pthread_condattr_t *a) { n_ad++; PROVE(n_ai == n_ad, "released once"); return 0; }
static int s_set(pthread_condattr_t *a, clockid_t c) { PROVE(n_ai == n_ad + 1, "initialised"); return cc(c) ? 0 : 22; }
static char *s_dup(const char *s) { PROVE(s != NULL, "a message"); n_dup++; return DUP; }
#define clock_gettime s_get
#define pthread_condattr_init s_ai
#define pthread_condattr_destroy s_ad
#define pthread_condattr_setclock s_set
#undef strdup
#define strdup s_dup
#include "fstrm/time.c"
#define MONO(c) ((c) == CLOCK_MONOTONIC || (c) == CLOCK_MONOTONIC_RAW || (c) == CLOCK_MONOTONIC_COARSE)
#define ANYG (cg(CLOCK_MONOTONIC) || cg(CLOCK_MONOTONIC_RAW) || cg(CLOCK_MONOTONIC_COARSE))
#define W(c) (cg(c) && cc(c))
#define ANYC (W(CLOCK_MONOTONIC) || W(CLOCK_MONOTONIC_RAW) || W(CLOCK_MONOTONIC_COARSE))
void h_time(void)
{
	n_ai = n_ad = n_dup = 0; clockid_t g = -77, c = -77; char *e = NULL; _Bool hg = nondet_bool(), hc = nondet_bool(), he = nondet_bool();
	if (nondet_bool()) { _Bool r = fstrm__get_best_monotonic_clock_gettime(&g); PROVE(r == ANYG, "a clock is found exactly if one works"); if (r) PROVE(MONO(g) && cg(g), "a monotonic clock that works"); C1(r); C1(!r); return; }
	if (nondet_bool()) { _Bool r = fstrm__get_best_monotonic_clock_pthread(&c); PROVE(r == ANYC && n_ai == n_ad, "a clock is found exactly if one works"); if (r) PROVE(MONO(c) && cg(c) && cc(c), "a monotonic clock that works for waiting"); C1(r && c == CLOCK_MONOTONIC); C1(!r); return; }
	_Bool r = fstrm__get_best_monotonic_clocks(hg ? &g : NULL, hc ? &c : NULL, he ? &e : NULL);
	PROVE(r == ((!hg || ANYG) && (!hc || ANYC)) && n_ai == n_ad, "both, or failure");
	if (r) { PROVE(n_dup == 0 && e == NULL, "no message"); if (hg) PROVE(MONO(g) && cg(g), "reads"); if (hc) PROVE(MONO(c) && cg(c) && cc(c), "waits"); }
	else PROVE(he ? (n_dup == 1 && e == DUP) : n_dup == 0, "one message, if wanted");
	C1(r && hg && hc); C1(!r && he);
}
