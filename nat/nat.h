/*
 * Search drivers: look for a failing input against the real code of /repo,
 * compiled with gcc and AddressSanitizer/UBSan.  Usage: driver MODE SEED SECONDS
 */
#ifndef NAT_H
#define NAT_H
#define _GNU_SOURCE 1
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <stdbool.h>
#include <string.h>
#include <stdarg.h>
#include <signal.h>
#include <unistd.h>
#include <errno.h>
#include <time.h>

static uint64_t nat_s[2];
static inline uint64_t rnd(void)
{
	uint64_t a = nat_s[0], b = nat_s[1];
	nat_s[0] = b; a ^= a << 23; nat_s[1] = a ^ b ^ (a >> 17) ^ (b >> 26);
	return nat_s[1] + b;
}
static inline uint64_t rnd_n(uint64_t n) { return n ? rnd() % n : 0; }
static inline bool rnd_1in(unsigned n) { return rnd() % n == 0; }

/* description of the case being run: printed when a check fails or the code crashes */
static char nat_desc[1 << 16]; static size_t nat_dl;
static volatile unsigned long nat_cases, nat_seen; static volatile int nat_stuck;
static const char *nat_driver;
static void nat_case(void) { nat_dl = 0; nat_desc[0] = 0; nat_cases++; }
__attribute__((format(printf, 1, 2)))
static void nat_note(const char *f, ...)
{
	va_list ap; va_start(ap, f);
	int n = vsnprintf(nat_desc + nat_dl, sizeof nat_desc - nat_dl, f, ap);
	va_end(ap);
	if (n > 0) { nat_dl += n; if (nat_dl >= sizeof nat_desc) nat_dl = sizeof nat_desc - 1; }
}
static void nat_hex(const char *name, const void *p, size_t n)
{
	nat_note("%s[%zu]=", name, n);
	for (size_t i = 0; i < n && i < 1500; i++) nat_note("%02x", ((const uint8_t *)p)[i]);
	nat_note("\n");
}
static void nat_die(const char *what)
{
	ssize_t r;
	static const char a[] = "FAILING INPUT: ";
	r = write(1, a, sizeof a - 1); r = write(1, what, strlen(what)); r = write(1, "\n", 1);
	r = write(1, nat_desc, strlen(nat_desc)); r = write(1, "\n", 1); (void)r;
	_exit(77);
}
#define CHECK(c, ...) do { if (!(c)) { char m_[512]; snprintf(m_, sizeof m_, __VA_ARGS__); nat_die(m_); } } while (0)
static unsigned nat_stuck_limit = 40;	/* seconds without a finished case */
static void nat_alarm(int s)
{
	(void)s;
	if (nat_cases != nat_seen) { nat_seen = nat_cases; nat_stuck = 0; }
	else if (++nat_stuck >= (int)nat_stuck_limit) nat_die("the call does not return (no progress)");
	alarm(1);
}
static void nat_crash(int s) { (void)s; nat_die("the code crashes (signal)"); }
void __asan_on_error(void);
void __asan_on_error(void) { ssize_t r = write(1, "FAILING INPUT: memory error (see sanitizer report)\n", 51); r = write(1, nat_desc, strlen(nat_desc)); (void)r; }
static struct timespec nat_t0; static double nat_budget;
static double nat_elapsed(void)
{
	struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
	return (t.tv_sec - nat_t0.tv_sec) + (t.tv_nsec - nat_t0.tv_nsec) / 1e9;
}
/* at least `min` cases, at most the time budget */
static bool nat_more(unsigned long min) { return nat_elapsed() < nat_budget || (nat_cases < min && nat_elapsed() < 3 * nat_budget); }
static void nat_init(int argc, char **argv)
{
	nat_driver = argv[0];
	uint64_t seed = argc > 2 ? strtoull(argv[2], 0, 10) : 1;
	nat_budget = argc > 3 ? atof(argv[3]) : 5;
	nat_s[0] = seed * 0x9E3779B97F4A7C15ull + 1; nat_s[1] = 0xD1B54A32D192ED03ull ^ seed;
	for (int i = 0; i < 20; i++) rnd();
	clock_gettime(CLOCK_MONOTONIC, &nat_t0);
	signal(SIGPIPE, SIG_DFL);
	signal(SIGALRM, nat_alarm); signal(SIGABRT, nat_crash);
	alarm(1);
}
static int nat_done(void) { alarm(0); printf("CASES %lu\n", nat_cases); fflush(stdout); return 0; }

static int nat_cmp(const void *a, const void *b, size_t n) { return n ? memcmp(a, b, n) : 0; }
/* live heap blocks of the code under test (link with the --wrap flags in NAT_WRAP) */
static long nat_live;
static size_t nat_last_malloc;
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
char *__real_strdup(const char *);
void *__wrap_malloc(size_t n);
void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); if (p) __atomic_add_fetch(&nat_live, 1, __ATOMIC_SEQ_CST); nat_last_malloc = n; return p; }
void *__wrap_calloc(size_t a, size_t b);
void *__wrap_calloc(size_t a, size_t b) { void *p = __real_calloc(a, b); if (p) __atomic_add_fetch(&nat_live, 1, __ATOMIC_SEQ_CST); return p; }
void *__wrap_realloc(void *q, size_t n);
void *__wrap_realloc(void *q, size_t n) { void *p = __real_realloc(q, n); if (p && !q) __atomic_add_fetch(&nat_live, 1, __ATOMIC_SEQ_CST); return p; }
char *__wrap_strdup(const char *s);
char *__wrap_strdup(const char *s) { char *p = __real_strdup(s); if (p) __atomic_add_fetch(&nat_live, 1, __ATOMIC_SEQ_CST); return p; }
void __wrap_free(void *p);
void __wrap_free(void *p) { if (p) __atomic_sub_fetch(&nat_live, 1, __ATOMIC_SEQ_CST); __real_free(p); }
#endif
