/* the I/O thread with real producer threads, a scripted transport and a simulated clock */
#include "nat.h"
#include "mock.h"
#include <pthread.h>
#include <sched.h>
#include <fstrm/iothr.h>
static volatile unsigned cbad; /* clocks that do not work */
static volatile long ftime; static long ftimens; static unsigned ft_opt; static volatile unsigned waits; static bool in_case; static pthread_mutex_t tl = PTHREAD_MUTEX_INITIALIZER;
int __real_clock_gettime(clockid_t, struct timespec *); int __wrap_clock_gettime(clockid_t c, struct timespec *ts);
int __wrap_clock_gettime(clockid_t c, struct timespec *ts) { if (!in_case) return __real_clock_gettime(c, ts); if (cbad >> c & 1) { errno = EINVAL; return -1; } ts->tv_sec = ftime; ts->tv_nsec = ftimens; return 0; }
int __real_pthread_cond_timedwait(pthread_cond_t *, pthread_mutex_t *, const struct timespec *);
int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts);
static volatile bool advance_ok = true; static volatile unsigned timeouts;
int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts)
{
	struct timespec r;
	CHECK(ts->tv_sec >= ftime && ts->tv_sec <= ftime + (long)ft_opt, "sleeps until %ld at time %ld with a flush timeout of %u", (long)ts->tv_sec, ftime, ft_opt);
	if (pthread_mutex_trylock(m) == 0) nat_die("waits without holding the lock");
	__real_clock_gettime(CLOCK_MONOTONIC, &r); r.tv_nsec += 300000; if (r.tv_nsec >= 1000000000) { r.tv_nsec -= 1000000000; r.tv_sec++; }
	int x = __real_pthread_cond_timedwait(c, m, &r);
	waits++;
	if (x == ETIMEDOUT) { timeouts++; if (advance_ok) ftime = ts->tv_sec; }
	return x;
}
struct pay { uint8_t *p; size_t n; unsigned prod, num; volatile int state; int frees; int seen; void *tok; bool noff; };	/* state 1: accepted, 2: refused */
#define MAXP 6000
static struct pay P[MAXP]; static unsigned np;
static struct mock M; static unsigned hint, oqs, reopen_iv; static long last_try; static volatile unsigned tries; static volatile unsigned writes_after_fail;
static volatile unsigned long outseen; static bool order_bad; static unsigned openfails; static volatile bool dead; static unsigned unex;
static size_t ses[4001]; static unsigned nses;
static fstrm_res i_open(void *o)
{
	if (tries) CHECK(ftime - last_try >= (long)reopen_iv, "reopened after %ld s, the interval is %u s", ftime - last_try, reopen_iv);
	last_try = ftime; tries++;
	if (openfails) { openfails--; M.failed = true; return fstrm_res_failure; }
	fstrm_res r = mk_open(o); if (r == fstrm_res_success && nses < 4000) ses[nses++] = M.outlen;
	return r;
}
static fstrm_res i_write(void *o, const struct iovec *iov, int cnt)
{
	if (cnt >= 2) {	/* data */
		size_t tot = 0; for (int i = 0; i < cnt; i++) tot += iov[i].iov_len;
		CHECK((unsigned)cnt / 2 <= oqs, "%d frames in a write, the output queue has %u", cnt / 2, oqs);
		CHECK(cnt == 2 || tot < hint, "%zu bytes held back, the buffer hint is %u", tot, hint);
	}
	fstrm_res r = mk_write(o, iov, cnt); outseen = M.outlen;
	return r;
}
static void cb(void *d, void *t)
{
	struct pay *p = t;
	CHECK(p >= P && p < P + np, "callback with a foreign pointer");
	CHECK(p->p == d, "callback with other data");
	CHECK(__atomic_add_fetch(&p->frees, 1, __ATOMIC_SEQ_CST) == 1, "payload %u of producer %u is freed twice", p->num, p->prod);
	CHECK(p->state != 2, "a refused payload is freed");
	memset(d, 0xDD, p->n); __real_free(d);
}
static struct fstrm_iothr *io;
struct prodarg { unsigned id, from, to; struct fstrm_iothr_queue *q; unsigned pace; bool retry; uint64_t s; };
static void *prod(void *a)
{
	struct prodarg *g = a;
	for (unsigned i = g->from; i < g->to; i++) {
		struct pay *p = &P[i];
		for (;;) {
			p->state = 1;	/* from here on the library may free it */
			fstrm_res r = fstrm_iothr_submit(io, g->q, p->p, p->n, p->noff ? NULL : cb, p->noff ? NULL : p);
			if (r == fstrm_res_success) break;
			CHECK(r == fstrm_res_again, "submit returns %d", r);
			if (!p->noff) CHECK(p->frees == 0, "a refused payload is freed");
			p->state = 2;
			if (!g->retry) break;
			sched_yield();
		}
		if (g->pace == 1 && i % 16 == 0) sched_yield();
		if (g->pace == 2 && i % 32 == 0) { struct timespec z = { 0, 200000 }; nanosleep(&z, 0); }
	}
	return NULL;
}
static void *handout(void *a) { struct fstrm_iothr_queue **r = a; for (int i = 0; i < 8; i++) r[i] = fstrm_iothr_get_input_queue(io); return NULL; }
static void one(void)
{
	nat_case(); np = 0; nses = 0; memset(&M, 0, sizeof M); tries = 0; last_try = 0; timeouts = waits = 0; outseen = 0; advance_ok = true; openfails = 0;
	long live0 = nat_live;
	unsigned nq = 1 + rnd_n(4), mpsc = rnd_1in(2), np_thr = mpsc && rnd_1in(2) ? nq * 2 : nq; unsigned iqs = 1u << (1 + rnd_n(8));
	hint = rnd_1in(2) ? 1024 : 1024 + rnd_n(8000); oqs = rnd_1in(3) ? 2 : 2 + rnd_n(rnd_1in(2) ? 1000 : 30); reopen_iv = 1 + rnd_n(4); ft_opt = 1 + rnd_n(3);
	ftime = rnd_1in(3) ? rnd_n(6) : 100000 + rnd_n(100000); ftimens = rnd_n(1000000000);
	bool bidir = rnd_1in(3); struct bb peer = { 0 };
	if (bidir) { bb_ctl(&peer, T_ACCEPT, NULL, 0); bb_ctl(&peer, T_FINISH, NULL, 0); M.in = peer.p; M.inlen = peer.n; }
	if (rnd_1in(3)) { if (rnd_1in(2)) openfails = 1 + rnd_n(2); else { M.failat = 2 + rnd_n(40); M.partial = rnd_1in(2); } }
	unsigned planned_fail = openfails || M.failat;
	struct fstrm_iothr_options *o = fstrm_iothr_options_init();
	CHECK(fstrm_iothr_options_set_buffer_hint(o, hint) == 0 && fstrm_iothr_options_set_output_queue_size(o, oqs) == 0 && fstrm_iothr_options_set_input_queue_size(o, iqs) == 0 && fstrm_iothr_options_set_num_input_queues(o, nq) == 0 &&
	      fstrm_iothr_options_set_reopen_interval(o, reopen_iv) == 0 && fstrm_iothr_options_set_flush_timeout(o, ft_opt) == 0 && fstrm_iothr_options_set_queue_model(o, mpsc ? FSTRM_IOTHR_QUEUE_MODEL_MPSC : FSTRM_IOTHR_QUEUE_MODEL_SPSC) == 0 &&
	      fstrm_iothr_options_set_queue_notify_threshold(o, 1 + rnd_n(iqs)) == 0, "options in range are refused");
	struct fstrm_rdwr *rw = fstrm_rdwr_init(&M); fstrm_rdwr_set_open(rw, i_open); fstrm_rdwr_set_close(rw, mk_close); fstrm_rdwr_set_destroy(rw, mk_destroy); if (bidir) fstrm_rdwr_set_read(rw, mk_read); fstrm_rdwr_set_write(rw, i_write);
	struct fstrm_writer *w = fstrm_writer_init(NULL, &rw);
	unsigned per = 1 + rnd_n(rnd_1in(4) ? 900 : 60); bool small = rnd_1in(2), huge = per <= 60 && rnd_1in(2);
	static struct prodarg pa[8]; unsigned pace = rnd_n(3); bool retry = rnd_1in(2);
	for (unsigned t = 0; t < np_thr; t++) {
		pa[t].id = t; pa[t].from = np; pa[t].pace = pace; pa[t].retry = retry;
		for (unsigned k = 0; k < per && np < MAXP; k++) {
			struct pay *p = &P[np]; memset(p, 0, sizeof *p); p->n = small ? 12 + rnd_n(8) : 12 + rnd_n(rnd_1in(10) ? (huge ? rnd_1in(2) ? 150000 : 40000 : 3000) : 200); p->prod = t; p->num = k; p->noff = rnd_1in(20);
			p->p = __real_malloc(p->n); for (size_t i = 0; i < p->n; i++) p->p[i] = i * 7 + np; put32(p->p, 0x50415900 + t); put32(p->p + 4, k); put32(p->p + 8, np); np++;
		}
		pa[t].to = np;
	}
	nat_note("%u queues %s of %u, %u producers x %u payloads, hint %u, output queue %u, reopen %u, flush %u, %s, clock %ld, open failures %u, failing operation %u\n", nq, mpsc ? "mpsc" : "spsc", iqs, np_thr, per, hint, oqs, reopen_iv, ft_opt, bidir ? "two-way" : "one-way", ftime, openfails, M.failat);
	in_case = true;
	cbad = rnd_1in(5) ? rnd_n(256) & (1 << CLOCK_MONOTONIC | 1 << CLOCK_MONOTONIC_RAW | 1 << CLOCK_MONOTONIC_COARSE) : 0;
	if (cbad) nat_note("clocks that do not work: %x\n", cbad);
	if (cbad >> CLOCK_MONOTONIC & 1)	/* nothing else can be waited on */
	{ long l0 = nat_live; struct fstrm_writer *w0 = w; CHECK(!fstrm_iothr_init(o, &w) && w == w0 && nat_live == l0, "init without a clock to wait on succeeds, takes the writer or leaves something behind"); cbad = 0; }
	io = fstrm_iothr_init(o, &w); CHECK(io && !w, "init fails");
	fstrm_iothr_options_destroy(&o);
	struct fstrm_iothr_queue *q[4]; 
	{
		static struct fstrm_iothr_queue *r[3][8]; pthread_t h[3]; unsigned got = 0; struct fstrm_iothr_queue *all[32];
		int nt = rnd_1in(4) ? 3 : 1;
		if (nt == 1) handout(r[0]); else { for (int i = 0; i < 3; i++) pthread_create(&h[i], 0, handout, r[i]); for (int i = 0; i < 3; i++) pthread_join(h[i], 0); }
		for (int i = 0; i < nt; i++) for (int k = 0; k < 8; k++) if (r[i][k]) { for (unsigned z = 0; z < got; z++) CHECK(all[z] != r[i][k], "an input queue is handed out twice"); all[got++] = r[i][k]; }
		CHECK(got == nq, "%u input queues handed out, there are %u", got, nq);
		for (unsigned k = 0; k < nq; k++) { q[k] = fstrm_iothr_get_input_queue_idx(io, k); bool f = false; for (unsigned z = 0; z < got; z++) f |= all[z] == q[k]; CHECK(f, "queue %u is not one of them", k); for (unsigned z = 0; z < k; z++) CHECK(q[z] != q[k], "queue twice by index"); }
		CHECK(!fstrm_iothr_get_input_queue_idx(io, nq) && !fstrm_iothr_get_input_queue_idx(io, (size_t)-1), "a queue that does not exist");
		uint8_t x; CHECK(fstrm_iothr_submit(io, q[0], NULL, 5, cb, 0) == fstrm_res_invalid && fstrm_iothr_submit(io, q[0], &x, 0, cb, 0) == fstrm_res_invalid && fstrm_iothr_submit(io, q[0], &x, 0xffffffffUL, cb, 0) == fstrm_res_invalid && fstrm_iothr_submit(io, q[0], &x, 0x100000001UL, cb, 0) == fstrm_res_invalid, "an impossible payload is accepted");
	}
	/* the first opening happens by itself; payloads before it are discarded by design */
	for (int k = 0; !tries; k++) { CHECK(k < 250000, "the writer is never opened"); usleep(100); }
	if (!planned_fail) for (int k = 0; !M.opened || M.outlen < (bidir ? 24 : 12); k++) { CHECK(k < 250000, "the writer does not become open"); usleep(100); }
	if (!planned_fail || rnd_1in(2)) for (unsigned w0 = waits, k = 0; waits == w0; k++) { CHECK(k < 400000, "the thread does not come to rest"); usleep(50); }
	pthread_t th[8];
	for (unsigned t = 0; t < np_thr; t++) { pa[t].q = q[t % nq]; pthread_create(&th[t], 0, prod, &pa[t]); }
	for (unsigned t = 0; t < np_thr; t++) pthread_join(th[t], 0);
	unsigned acc = 0; for (unsigned i = 0; i < np; i++) acc += P[i].state == 1;
	if (rnd_1in(3)) {	/* without a further push everything is written and freed within the flush timeout */
		unsigned t0 = timeouts; for (int k = 0; timeouts < t0 + 3; k++) { CHECK(k < 400000, "the thread never times out"); usleep(50); }
		for (unsigned i = 0; i < np; i++) if (P[i].state == 1 && !P[i].noff) CHECK(P[i].frees == 1, "payload %u of producer %u is still held after the flush timeout", P[i].num, P[i].prod);
	}
	if (openfails || (planned_fail && rnd_1in(2))) { unsigned of = openfails, t0 = tries; if (of) for (int k = 0; tries == t0; k++) { CHECK(k < 400000, "a closed writer is never reopened"); usleep(50); } }
	fstrm_iothr_destroy(&io); CHECK(!io, "the handle survives");
	in_case = false;
	for (unsigned i = 0; i < np; i++) {
		if (P[i].state == 1 && !P[i].noff) CHECK(P[i].frees == 1, "payload %u of producer %u is freed %d times", P[i].num, P[i].prod, P[i].frees);
		if (P[i].state == 2) CHECK(P[i].frees == 0, "a refused payload is freed");
	}
	/* what was written: sessions of START data* STOP */
	size_t pos = 0; unsigned nx[8] = { 0 }, got = 0; bool insession = false, stopped = false;
	bool clean = !M.failed;
	ses[nses] = M.outlen; CHECK(nses || M.outlen == 0, "bytes written without an opening");
	for (unsigned k = 0; k < nses; k++) { size_t end = ses[k + 1]; bool broken = false; pos = ses[k]; insession = false;
	while (pos + 4 <= end) {
		uint32_t L = get32(M.out + pos);
		if (L == 0) {
			if (pos + 12 > end) break;
			uint32_t cl = get32(M.out + pos + 4), ty = get32(M.out + pos + 8);
			if (cl > 512 || pos + 8 + cl > end) break;
			if (ty == T_START) { insession = true; stopped = false; } else if (ty == T_STOP) { CHECK(insession, "STOP without START"); insession = false; stopped = true; }
			pos += 8 + cl; continue;
		}
		if (pos + 4 + L > end) break;
		uint8_t *d = M.out + pos + 4;
		if (L < 12 || get32(d + 8) >= np || P[get32(d + 8)].n != L) { CHECK(0, "an unknown frame is written"); break; }
		struct pay *p = &P[get32(d + 8)]; unsigned t = p->prod;
		CHECK(insession, "a frame outside a session");
		for (size_t i = 12; i < L; i++) if (d[i] != (uint8_t)(i * 7 + (p - P))) { CHECK(0, "payload %u of producer %u is damaged", p->num, t); }
		CHECK(p->state == 1, "a refused payload is written"); CHECK(!p->seen, "payload %u of producer %u is written twice", p->num, t); p->seen = 1;
		CHECK(p->num >= nx[t], "payload %u of producer %u after %u", p->num, t, nx[t]); nx[t] = p->num + 1; got++;
		pos += 4 + L;
	}
	}
	if (clean) { CHECK(got == acc, "%u of %u accepted payloads are written", got, acc); CHECK(stopped && pos == M.outlen && tries == 1, "the stream does not end in STOP"); }
	CHECK(!M.bad && !M.opened && M.ndestroy == 1 && M.nopen == M.nclose, "the transport is not closed once per open");
	for (unsigned i = 0; i < np; i++) if (P[i].state == 2 || P[i].noff) __real_free(P[i].p);
	CHECK(nat_live == live0, "%ld blocks leaked", nat_live - live0);
	__real_free(M.out); __real_free(peer.p);
}
static void opts(void)
{
	nat_case();
	struct fstrm_iothr_options *o = fstrm_iothr_options_init(); unsigned v = rnd_1in(2) ? rnd_n(70000) : rnd_1in(2) ? 1u << rnd_n(32) : rnd_n(20); if (rnd_1in(3)) v += rnd_n(3) - 1;
	nat_note("option value %u\n", v);
#define T(name, ok) CHECK((fstrm_iothr_options_set_##name(o, v) == fstrm_res_success) == (ok), #name " %u: wrong answer", v)
	T(buffer_hint, v >= 1024 && v <= 65536); T(flush_timeout, v >= 1 && v <= 600); T(input_queue_size, v >= 2 && v <= 16384 && !(v & (v - 1))); T(num_input_queues, v >= 1); T(output_queue_size, v >= 2 && v <= 1024);
	T(queue_model, v == 0 || v == 1); T(queue_notify_threshold, v >= 1); T(reopen_interval, v >= 1 && v <= 600);
	fstrm_iothr_options_destroy(&o); CHECK(!o, "handle");
}
/* many threads ask for their queues at once */
#define HT 6
#define HQ 96
static struct fstrm_iothr_queue *hg[HT][HQ + 1]; static int hn[HT]; static volatile int hready;
static void *hthr(void *a)
{
	long i = (long)a; hn[i] = 0; __atomic_add_fetch(&hready, 1, __ATOMIC_SEQ_CST); while (__atomic_load_n(&hready, __ATOMIC_SEQ_CST) < HT);
	struct fstrm_iothr_queue *q; while (hn[i] <= HQ && (q = fstrm_iothr_get_input_queue(io))) hg[i][hn[i]++] = q; return NULL;
}
static void hand(void)
{
	nat_case(); memset(&M, 0, sizeof M); unsigned nq = 2 + rnd_n(HQ - 1); hready = 0;
	nat_note("%u threads, %u queues\n", HT, nq);
	struct fstrm_iothr_options *o = fstrm_iothr_options_init(); CHECK(fstrm_iothr_options_set_num_input_queues(o, nq) == 0, "option"); fstrm_iothr_options_set_input_queue_size(o, 2);
	struct fstrm_rdwr *rw = fstrm_rdwr_init(&M); fstrm_rdwr_set_open(rw, mk_open); fstrm_rdwr_set_close(rw, mk_close); fstrm_rdwr_set_destroy(rw, mk_destroy); fstrm_rdwr_set_write(rw, mk_write);
	struct fstrm_writer *w = fstrm_writer_init(NULL, &rw); in_case = true; ftime = 1000; ft_opt = 1; advance_ok = false;
	io = fstrm_iothr_init(o, &w); CHECK(io, "init"); fstrm_iothr_options_destroy(&o);
	pthread_t t[HT]; unsigned n = 0, i, k; static char hit[HQ]; memset(hit, 0, sizeof hit); struct fstrm_iothr_queue *q0 = fstrm_iothr_get_input_queue_idx(io, 0), *q1 = fstrm_iothr_get_input_queue_idx(io, 1);
	for (i = 0; i < HT; i++) pthread_create(&t[i], 0, hthr, (void *)(long)i);
	for (i = 0; i < HT; i++) pthread_join(t[i], 0);
	for (i = 0; i < HT; i++) for (k = 0; k < hn[i]; k++) { unsigned z; for (z = 0; z < nq && fstrm_iothr_get_input_queue_idx(io, z) != hg[i][k]; z++); CHECK(z < nq, "a queue that is none of its own"); CHECK(!hit[z]++, "input queue %u is handed out twice", z); n++; }
	CHECK(n == nq, "%u of %u queues are handed out", n, nq);
	fstrm_iothr_destroy(&io); in_case = false; __real_free(M.out);
}
int main(int argc, char **argv) { nat_init(argc, argv); bool op = argc > 1 && !strcmp(argv[1], "opts"), ha = argc > 1 && !strcmp(argv[1], "hand"); while (nat_more(op ? 10000 : ha ? 1000 : 150)) { if (op) opts(); else if (ha) hand(); else one(); } return nat_done(); }
