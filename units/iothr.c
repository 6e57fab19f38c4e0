/*
 * fstrm/iothr.c under contract.  The writer, the queues, the clocks and
 * pthreads are used by their contracts.  Payload pointers are opaque to the
 * code (it never looks at them), so payload number i can be given the
 * addresses DAT+i (data) and TOK+i (free_data) without loss of generality.
 */
#include "vf.h"
#define C1(c) COVER(c, "c")
#include "fstrm/fstrm-private.h"
struct vf_q { int x; };
static char *DAT, *TOK;				/* opaque */
#define MAXI 0x200000ULL
_Bool __CPROVER_uninterpreted_hasff(size_t); uint32_t __CPROVER_uninterpreted_plen(size_t);
#define hasff __CPROVER_uninterpreted_hasff
#define plen __CPROVER_uninterpreted_plen
/* ---- freeing ---- */
static size_t gk; static unsigned nfree_gk; static uint64_t nfrees; static _Bool must_written; /* a write has to come before the frees */
static unsigned n_writev, n_close, n_open, n_wdestroy; static fstrm_res r_writev, r_open; static const void *wv_iov; static int wv_cnt;
static _Bool dmode, pend; static uint64_t rid;
static void vf_ff(void *d, void *t)
{
	PROVE(SAME(t, TOK) && SAME(d, DAT) && OFF(t) == OFF(d), "the callback gets the data and free_data submitted together");
	size_t i = OFF(t);
	if (dmode) { PROVE(pend && i == rid, "each payload still queued is freed once"); pend = 0; return; }
	PROVE(hasff(i), "only payloads with a callback");
	PROVE(IMPL(must_written, n_writev == 1), "freed only after the write is done");
	if (i == gk) nfree_gk++;
	nfrees++;
}
static char tk_writer[1]; static unsigned seq, s_writev, s_close;
fstrm_res fstrm_writer_writev(struct fstrm_writer *w, const struct iovec *iov, int cnt)
{ PROVE((void *)w == tk_writer, "own writer"); PROVE(nfrees == 0, "nothing is freed before the write"); n_writev++; s_writev = ++seq; wv_iov = iov; wv_cnt = cnt; return r_writev; }
fstrm_res fstrm_writer_close(struct fstrm_writer *w) { PROVE((void *)w == tk_writer, "own writer"); n_close++; s_close = ++seq; return nondet_bool() ? fstrm_res_success : fstrm_res_failure; }
fstrm_res fstrm_writer_open(struct fstrm_writer *w) { PROVE((void *)w == tk_writer, "own writer"); n_open++; return r_open; }
static unsigned s_wdestroy;
fstrm_res fstrm_writer_destroy(struct fstrm_writer **w) { PROVE(*w == (void *)tk_writer, "own writer"); n_wdestroy++; s_wdestroy = ++seq; *w = NULL; return fstrm_res_success; }
/* ---- clocks ---- */
static time_t now; static clockid_t ck_asked; static unsigned n_clock; static long now_ns;
static int vf_clock_gettime(clockid_t c, struct timespec *ts) { n_clock++; ck_asked = c; ts->tv_sec = now; ts->tv_nsec = now_ns; return 0; }
#define clock_gettime vf_clock_gettime
static _Bool clocks_ok;
bool fstrm__get_best_monotonic_clocks(clockid_t *a, clockid_t *b, char **e) { if (!clocks_ok) return false; if (a) *a = 6; if (b) *b = 4; return true; }
/* ---- threads ---- */
static pthread_mutex_t *lk; static unsigned n_lock, n_unlock, n_signal, s_signal, n_join, s_join, n_create, n_cvi, n_cvd, n_mi, n_md; static void *mtx[2]; static void *(*thr_f)(void *); static void *thr_a; static clockid_t cv_clock;
static void *cv_sig;
static void interleave(void);
static _Bool handout; static unsigned idx_lock, idx_unlock; static void others(void);
static int vf_lock(pthread_mutex_t *m) { PROVE(!lk, "no lock held"); lk = m; n_lock++; interleave(); others(); return 0; }
static int vf_unlock(pthread_mutex_t *m) { PROVE(lk == m, "unlocks what it locked"); others(); lk = NULL; n_unlock++; return 0; }
static _Bool sd_at_signal; static volatile bool *sdp;
static int vf_signal(pthread_cond_t *c) { cv_sig = c; sd_at_signal = sdp ? *sdp : 0; n_signal++; s_signal = ++seq; return 0; }
static int vf_join(pthread_t t, void **r) { n_join++; s_join = ++seq; return 0; }
static int vf_create(pthread_t *t, const void *a, void *(*f)(void *), void *x) { n_create++; thr_f = f; thr_a = x; *t = 5; return 0; }
static int vf_cai(pthread_condattr_t *a) { return 0; }
static int vf_cas(pthread_condattr_t *a, clockid_t c) { cv_clock = c; return 0; }
static int vf_cad(pthread_condattr_t *a) { return 0; }
static int vf_ci(pthread_cond_t *c, const void *a) { n_cvi++; return 0; }
static int vf_cd(pthread_cond_t *c) { n_cvd++; return 0; }
static int vf_mi(pthread_mutex_t *m, const void *a) { n_mi++; return 0; }
static int vf_md(pthread_mutex_t *m) { n_md++; return 0; }
static int vf_mask(int how, const sigset_t *s, sigset_t *o) { return 0; }
static int vf_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts);
#define pthread_mutex_lock vf_lock
#define pthread_mutex_unlock vf_unlock
#define pthread_cond_signal vf_signal
#define pthread_cond_broadcast vf_signal
#define pthread_join vf_join
#define pthread_create vf_create
#define pthread_condattr_init vf_cai
#define pthread_condattr_setclock vf_cas
#define pthread_condattr_destroy vf_cad
#define pthread_cond_init vf_ci
#define pthread_cond_destroy vf_cd
#define pthread_mutex_init vf_mi
#define pthread_mutex_destroy vf_md
#define pthread_sigmask vf_mask
#define pthread_cond_timedwait vf_timedwait
#define sigemptyset(s) 0
#define sigaddset(s, n) 0
/* ---- heap ---- */
static unsigned n_free, s_free; static void *fr[6];
static void vf_free(void *p) { if (n_free < 6) fr[n_free] = p; n_free++; s_free = ++seq; }
#define free vf_free
static unsigned n_calloc; static size_t csz[6]; static void *cptr[6];
static void *vf_calloc(size_t a, size_t b) { void *p = __CPROVER_allocate(a * b, 1); if (n_calloc < 6) { csz[n_calloc] = a * b; cptr[n_calloc] = p; } n_calloc++; return p; }
#define my_calloc vf_calloc
/* ---- queues ---- */
static struct my_queue *q_init(unsigned n, unsigned s); static void q_destroy(struct my_queue **q); static bool q_insert(struct my_queue *q, void *e, unsigned *sp); static bool q_remove(struct my_queue *q, void *e, unsigned *c);
static const char *q_type(void) { return "q"; }
const struct my_queue_ops my_queue_mb_ops = { q_init, q_destroy, q_type, q_insert, q_remove };
const struct my_queue_ops my_queue_mutex_ops = { q_init, q_destroy, q_type, q_insert, q_remove };
static void *ent_ptr; static unsigned A0_size;
static unsigned CAP, IDX, NQ; static _Bool opened0; static char *QTOK;
static int timed; static unsigned pq_last; static _Bool must_flush, op_n, cl_n;
static int st;	/* 1: emptied after shutdown began, 2: and then flushed, 3: and then closed; 0: none of it, or more was done since */
static unsigned n_rem, n_proc; static _Bool pend; static unsigned nok;
static _Bool dmode, q_empty; static uint64_t rid; static size_t cur_q, pf_q, n_qinit; static unsigned n_qd_gk; struct fstrm_iothr_queue;
static _Bool useE(size_t i), useQ(size_t i), useI(struct fstrm_iothr_queue *q, size_t i), invI(struct fstrm_iothr_queue *q, size_t i), invD(struct fstrm_iothr_queue *q, size_t i);
#include "fstrm/iothr.c"
#undef free
typedef struct fstrm__iothr_queue_entry qent;
static struct fstrm_iothr *A; static qent *ENT; static struct iovec *IOVS; static struct fstrm_iothr_queue *QS;
static void zero(void)
{
	dmode = 0; pend = 0;
	nfree_gk = 0; nfrees = 0; must_written = 0; n_writev = n_close = n_open = n_wdestroy = 0; wv_iov = NULL; wv_cnt = 0; seq = s_writev = s_close = s_wdestroy = 0; n_clock = 0; lk = NULL; handout = 0;
	n_lock = n_unlock = n_signal = s_signal = n_join = s_join = n_create = n_cvi = n_cvd = n_mi = n_md = 0; n_free = s_free = n_calloc = 0; cv_sig = NULL; thr_f = NULL; thr_a = NULL;
}
static fstrm_res anyres(void) { fstrm_res r = nondet_int(); ASSUME(r == fstrm_res_success || r == fstrm_res_failure || r == fstrm_res_again || r == fstrm_res_invalid || r == fstrm_res_stop); return r; }
static void mk(void)
{
	zero();
	A = __CPROVER_allocate(sizeof *A, 0);
	CAP = nondet_uint(); ASSUME(CAP >= 2 && CAP <= 1024);
#ifdef VF_BOUNDED
	ASSUME(CAP <= 3);
#endif
	ENT = __CPROVER_allocate(CAP * sizeof(qent), 0); IOVS = __CPROVER_allocate(CAP * sizeof(struct iovec), 0);
	DAT = __CPROVER_allocate(MAXI, 0); TOK = __CPROVER_allocate(MAXI, 0);
	A->opt.output_queue_size = CAP; A->outq_entries = ENT; A->outq_iov = IOVS; A->writer = (void *)tk_writer;
	A->opt.buffer_hint = nondet_uint(); ASSUME(A->opt.buffer_hint >= 1024 && A->opt.buffer_hint <= 65536);
	A->outq_idx = nondet_uint(); ASSUME(A->outq_idx <= CAP);
	A->outq_nbytes = nondet_uint();
	A->opened = nondet_bool(); A->queue_ops = &my_queue_mb_ops; A->shutting_down = 0;
	A->opt.num_input_queues = NQ = nondet_uint(); ASSUME(NQ >= 1 && NQ <= 1 << 20);
#ifdef VF_BOUNDED
	ASSUME(NQ <= 3);
#endif
	r_writev = anyres(); r_open = anyres();
#ifdef VF_BOUNDED
	useE(0); useE(1); useE(2);
#endif
}
static void interleave(void) {}
static bool q_insert(struct my_queue *q, void *e, unsigned *sp);
/* waiting payloads: slot i of the output queue holds payload i (a name, see above) */
static _Bool useE(size_t i) { if (i < CAP) { ASSUME(ENT[i].data == DAT + i && ENT[i].free_data == TOK + i && ENT[i].len_data == plen(i)); ASSUME(ENT[i].free_func == (hasff(i) ? vf_ff : NULL)); } return 1; }
static int vf_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts)
{
	PROVE(c == &A->cv && m == &A->cv_lock && lk == m, "waits on its condition variable, holding the lock");
	PROVE(ck_asked == A->clkid_pthread, "by the clock of the condition variable");
	PROVE(ts->tv_sec == now + (time_t)A->opt.flush_timeout && ts->tv_nsec == now_ns, "no longer than the flush timeout");
	PROVE(pq_last == 0, "and only when the queues were empty");
	if (nondet_bool()) A->shutting_down = 1;
	timed = nondet_int(); ASSUME(timed == 0 || timed == ETIMEDOUT || timed == EINTR);
	if (timed == ETIMEDOUT) must_flush = 1;
	return timed;
}
/* ======== submit ======== */
static unsigned n_ins; static void *ins_q; static qent ins_e; static _Bool ins_r; static unsigned ins_sp;
static bool q_insert(struct my_queue *q, void *e, unsigned *sp) { n_ins++; ins_q = q; ins_e = *(qent *)e; *sp = ins_sp; return ins_r; }
void h_submit(void)
{
	mk(); struct fstrm_iothr_queue Q; Q.q = (void *)tk_writer; size_t L = nondet_size(); void *d = nondet_ptr(), *fd = nondet_ptr(); void (*ff)(void *, void *) = nondet_bool() ? vf_ff : NULL;
	A->shutting_down = nondet_bool(); A->opt.queue_notify_threshold = nondet_uint(); n_ins = 0; ins_r = nondet_bool(); ins_sp = nondet_uint();
	_Bool sd = A->shutting_down; unsigned thr = A->opt.queue_notify_threshold;
	fstrm_res r = fstrm_iothr_submit(A, &Q, d, L, ff, fd);
	_Bool bad = L < 1 || L >= 0xffffffffUL || d == NULL;
	PROVE(IMPL(sd, r == fstrm_res_failure && !n_ins), "refused during shutdown");
	PROVE(IMPL(!sd && bad, r == fstrm_res_invalid && !n_ins), "an impossible payload is refused");
	PROVE(IMPL(!sd && !bad, n_ins == 1 && ins_q == tk_writer && r == (ins_r ? fstrm_res_success : fstrm_res_again)), "anything else is offered to the given queue once, and accepted exactly if it fits");
	PROVE(IMPL(n_ins, ins_e.data == d && ins_e.len_data == L && ins_e.free_func == ff && ins_e.free_data == fd), "the entry is the payload, whole");
	PROVE(nfrees == 0, "submit never frees");
	PROVE(IMPL(r == fstrm_res_success && ins_sp == thr, n_signal == 1 && cv_sig == &A->cv), "the I/O thread is woken at the threshold");
	C1(r == fstrm_res_success && n_signal); C1(r == fstrm_res_again); C1(r == fstrm_res_invalid); C1(r == fstrm_res_failure);
}
/* ======== flush ======== */
void h_flush(void)
{
	mk(); gk = nondet_size(); IDX = A->outq_idx; ASSUME(gk < IDX || IDX == 0); opened0 = A->opened; must_written = opened0 && IDX > 0;
	useE(gk);
	fstrm__iothr_flush_output(A);
	PROVE(n_writev == (opened0 && IDX > 0), "one write of what waits, none while closed");
	PROVE(IMPL(n_writev, wv_iov == IOVS && wv_cnt == (int)IDX), "everything that waits");
	PROVE(n_close == (n_writev && r_writev != fstrm_res_success), "closed exactly if the write fails");
	PROVE(IMPL(n_close, s_close > s_writev), "afterwards");
	PROVE((A->opened != 0) == (opened0 && !n_close), "and known to be closed");
	PROVE(IMPL(IDX, nfree_gk == (hasff(gk) ? 1 : 0)), "every payload is freed exactly once");
	PROVE(A->outq_idx == 0 && A->outq_nbytes == 0, "nothing waits any more");
	PROVE(A->outq_entries == ENT && A->outq_iov == IOVS && A->opt.output_queue_size == CAP, "nothing else changes");
	C1(n_writev && !n_close && nfree_gk); C1(n_close && nfree_gk); C1(!opened0 && nfree_gk && IDX == CAP);
}
/* ======== entry ======== */
void h_entry(void)
{
	mk(); IDX = A->outq_idx; opened0 = A->opened; unsigned nb = A->outq_nbytes; uint64_t hint = A->opt.buffer_hint; qent E;
	size_t e = MAXI - 1;	/* its name; the waiting ones are 0..IDX-1 */
	E.data = DAT + e; E.free_data = TOK + e; E.len_data = plen(e); E.free_func = hasff(e) ? vf_ff : NULL; ASSUME(plen(e) >= 1);
	gk = nondet_size(); ASSUME(gk < IDX || gk == e); if (gk < IDX) { useE(gk); ASSUME(IOVS[gk].iov_base == DAT + gk && IOVS[gk].iov_len == plen(gk)); }
	_Bool full = opened0 && IDX > 0 && (IDX >= CAP || (uint64_t)nb + 4 + plen(e) >= hint);
	must_written = full;
	fstrm__iothr_process_queue_entry(A, &E);
	PROVE(IMPL(!opened0, nfree_gk == (gk == e && hasff(e) ? 1 : 0) && A->outq_idx == IDX && A->outq_nbytes == nb && !n_writev), "while closed the payload is discarded: freed once, never kept");
	if (opened0) {
		PROVE(n_writev == full, "what waits is written when the queue is full or the buffer hint is reached, and only then");
		unsigned at = full ? 0 : IDX;
		PROVE(at < CAP && A->outq_idx == at + 1, "the payload is added behind the others");
		PROVE(ENT[at].data == E.data && ENT[at].free_data == E.free_data && ENT[at].len_data == E.len_data && ENT[at].free_func == E.free_func, "whole");
		PROVE(IOVS[at].iov_base == E.data && IOVS[at].iov_len == E.len_data, "with exactly its bytes to write");
		PROVE(A->outq_nbytes == (unsigned)((full ? 0 : nb) + 4 + E.len_data), "and counted with its length word");
		PROVE(IMPL(gk == e, nfree_gk == 0), "it is not freed yet");
		PROVE(IMPL(gk < IDX && full, nfree_gk == (hasff(gk) ? 1 : 0)), "what was flushed is freed once");
		PROVE(IMPL(gk < IDX && !full, nfree_gk == 0 && ENT[gk].data == DAT + gk && ENT[gk].free_data == TOK + gk && ENT[gk].free_func == (hasff(gk) ? vf_ff : NULL) && IOVS[gk].iov_base == DAT + gk && IOVS[gk].iov_len == plen(gk)), "what waited before is untouched");
	}
	C1(full && !n_close); C1(full && n_close); C1(opened0 && !full && IDX > 3); C1(!opened0 && nfree_gk);
}
/* ======== process_queues ======== */
_Bool __CPROVER_uninterpreted_nonempty(unsigned);
static _Bool dmode; static uint64_t rid; static size_t cur_q; static unsigned n_qdes, n_qd_gk; static _Bool q_empty, in_init; static size_t pf_q, n_qinit;
static struct my_queue *q_init(unsigned n, unsigned s)
{
	PROVE(n == A0_size && s == sizeof(qent), "queues of the configured size, for entries");
	size_t i = n_qinit++;
	return i == pf_q ? NULL : (struct my_queue *)(QTOK + i);
}
static void q_destroy(struct my_queue **q)
{
	PROVE(SAME(*q, QTOK), "a queue of this object");
	if (OFF(*q) == gk) n_qd_gk++;
	if (dmode) { PROVE(OFF(*q) == cur_q && q_empty && !pend, "destroyed when empty, and all it held was freed"); cur_q++; q_empty = 0; }
	*q = NULL;
}
static bool q_remove(struct my_queue *q, void *e, unsigned *c)
{
	if (dmode) {
		PROVE(!pend, "the previous payload was freed first");
		PROVE(SAME(q, QTOK) && OFF(q) == cur_q, "the queues in turn");
		if (nondet_bool()) { q_empty = 1; return false; }
		rid = nondet_size(); ASSUME(rid < MAXI); PROVE(!q_empty, "until it is empty"); 
		qent *p = e; p->data = DAT + rid; p->free_data = TOK + rid; p->len_data = plen(rid); p->free_func = hasff(rid) ? vf_ff : NULL; pend = hasff(rid);
		return true;
	}
	PROVE(!pend, "the previous payload was taken care of first");
	PROVE(SAME(q, QTOK) && OFF(q) == n_rem, "each input queue is asked once, in turn");
	if (!__CPROVER_uninterpreted_nonempty(n_rem)) { n_rem++; return false; }
	qent *p = e; p->data = DAT + n_rem; p->free_data = TOK + n_rem; p->len_data = plen(n_rem); p->free_func = hasff(n_rem) ? vf_ff : NULL;
	ent_ptr = e; pend = 1; n_rem++; nok++;
	return true;
}
static _Bool useQ(size_t i) { if (i < NQ) ASSUME(QS[i].q == (void *)(QTOK + i)); return 1; }
static _Bool entry_ok(qent *e) { return pend && e->data == DAT + (n_rem - 1) && e->free_data == TOK + (n_rem - 1) && e->len_data == plen(n_rem - 1) && e->free_func == (hasff(n_rem - 1) ? vf_ff : NULL); }
/* the contract of fstrm__iothr_process_queue_entry as its caller sees it (established by unit io.entry) */
void entry_c(struct fstrm_iothr *a, qent *e)
__CPROVER_requires(a == A && entry_ok(e))
__CPROVER_assigns(pend, n_proc)
__CPROVER_ensures(!pend && n_proc == __CPROVER_old(n_proc) + 1)
;
void h_queues(void)
{
	mk(); QS = A->queues = __CPROVER_allocate(NQ * sizeof *QS, 0); QTOK = __CPROVER_allocate(MAXI, 0); n_rem = n_proc = nok = 0; pend = 0;
#ifdef VF_BOUNDED
	useQ(0); useQ(1); useQ(2);
#endif
	unsigned t = fstrm__iothr_process_queues(A);
	PROVE(n_rem == NQ, "every input queue is served");
	PROVE(!pend && n_proc == nok, "every payload removed is taken care of, once");
	PROVE(t == nok, "the count says whether there was any");
	C1(NQ > 3 && nok > 2 && nok < NQ);
}
/* ======== open ======== */
void h_open(void)
{
	mk(); opened0 = A->opened; now = nondet_long(); ASSUME(now >= 0 && now < 1L << 40); now_ns = nondet_long();
	A->clkid_gettime = 6; A->clkid_pthread = 4;
	A->opt.reopen_interval = nondet_uint(); ASSUME(A->opt.reopen_interval >= 1 && A->opt.reopen_interval <= 600); A->last_open_attempt = nondet_long(); ASSUME(A->last_open_attempt >= -600 && A->last_open_attempt <= now);
	long since = now - A->last_open_attempt, last0 = A->last_open_attempt; _Bool due = !opened0 && since >= (long)A->opt.reopen_interval;
	fstrm__iothr_maybe_open(A);
	PROVE(n_open == due, "opened exactly if closed and the interval since the last attempt is over");
	PROVE((A->opened != 0) == (opened0 || (due && r_open == fstrm_res_success)), "and known to be open exactly if that succeeded");
	PROVE(A->last_open_attempt == (due ? now : last0), "the attempt is remembered, successful or not");
	PROVE(IMPL(n_clock, ck_asked == 6), "by the monotonic clock");
	PROVE(!n_close && !n_writev && nfrees == 0, "nothing else happens");
	C1(due && r_open != fstrm_res_success); C1(due && A->opened); C1(!due && !opened0);
}
void h_close(void)
{
	mk(); opened0 = A->opened;
	fstrm__iothr_close(A);
	PROVE(n_close == opened0 && !A->opened, "closed once if open, and then known to be closed");
	PROVE(!n_writev && nfrees == 0 && !n_open, "nothing else happens");
	C1(opened0); C1(!opened0);
}
/* ======== the thread ======== */
unsigned queues_c(struct fstrm_iothr *a)
__CPROVER_requires(a == A && !lk && !must_flush && !cl_n)
__CPROVER_assigns(pq_last, st, a->shutting_down)
__CPROVER_ensures(pq_last == __CPROVER_return_value && st == (__CPROVER_old(a->shutting_down) && pq_last == 0 ? 1 : 0))
__CPROVER_ensures(IMPL(__CPROVER_old(a->shutting_down), a->shutting_down) && a->shutting_down <= 1)
;
void flush_c(struct fstrm_iothr *a)
__CPROVER_requires(a == A && !lk && !cl_n)
__CPROVER_assigns(st, must_flush)
__CPROVER_ensures(!must_flush && st == (__CPROVER_old(st) == 1 ? 2 : 0))
;
void close_c(struct fstrm_iothr *a)
__CPROVER_requires(a == A && !lk && !cl_n)
__CPROVER_assigns(st, cl_n)
__CPROVER_ensures(cl_n == 1 && st == (__CPROVER_old(st) == 2 ? 3 : 0))
;
void maybe_open_c(struct fstrm_iothr *a)
__CPROVER_requires(a == A && !lk && !must_flush && !cl_n)
__CPROVER_assigns(op_n, st)
__CPROVER_ensures(op_n == 1 && st == 0)
;
void h_thr(void)
{
	mk(); A->opt.flush_timeout = nondet_uint(); ASSUME(A->opt.flush_timeout >= 1 && A->opt.flush_timeout <= 600); A->shutting_down = nondet_bool(); A->clkid_pthread = 4; A->clkid_gettime = 6;
	now = nondet_long(); ASSUME(now >= 0 && now < 1L << 40); now_ns = nondet_long(); pq_last = 0; cl_n = op_n = must_flush = 0; st = 0;
	(void)fstrm__iothr_thr(A);
	PROVE(A->shutting_down, "the thread ends only at shutdown");
	PROVE(op_n, "it tried to open the writer");
	PROVE(cl_n && st == 3, "after shutdown began the queues were emptied, then what waited was written, then the writer was closed, and nothing more was done");
	PROVE(!lk && !must_flush, "no lock is left held");
	C1(n_lock); C1(!n_lock);
}
/* ======== queues handed out ======== */
/* while the lock is not held, other threads may take queues */
static void others(void)
{
	if (!handout) return;
	if (n_unlock < n_lock && idx_lock == 0xffffffffu) { unsigned i = nondet_uint(); ASSUME(i >= A->get_queue_idx && i <= NQ); A->get_queue_idx = idx_lock = i; }
	else { idx_unlock = A->get_queue_idx; }
}
void h_getq(void)
{
	mk(); handout = 1; idx_lock = idx_unlock = 0xffffffffu; QS = A->queues = __CPROVER_allocate(NQ * sizeof *QS, 0);
	A->get_queue_idx = nondet_uint(); ASSUME(A->get_queue_idx <= NQ); size_t x = nondet_size();
	struct fstrm_iothr_queue *q = fstrm_iothr_get_input_queue(A);
	unsigned i0 = idx_lock;
	PROVE(q == (i0 < NQ ? &QS[i0] : NULL), "each queue is handed out once, then none");
	PROVE(idx_unlock == (i0 < NQ ? i0 + 1 : NQ) && A->get_queue_idx == idx_unlock, "the next one is next");
	PROVE(n_lock == 1 && n_unlock == 1 && !lk, "under the lock");
	q = fstrm_iothr_get_input_queue_idx(A, x);
	PROVE(q == (x < NQ ? &QS[x] : NULL), "by index: that queue, or none");
	C1(i0 < NQ && x < NQ); C1(i0 == NQ && x >= NQ);
}

/* ======== init, destroy ======== */
static _Bool invI(struct fstrm_iothr_queue *q, size_t i) { return IMPL(gk < NQ, q[gk].q == (gk < i && gk != pf_q ? (void *)(QTOK + gk) : NULL)); }
static _Bool invD(struct fstrm_iothr_queue *q, size_t i) { return IMPL(gk < NQ, (gk >= i ? q[gk].q == (gk < pf_q ? (void *)(QTOK + gk) : NULL) && n_qd_gk == 0 : n_qd_gk == (gk < pf_q ? 1 : 0))); }
/* the same at the current index */
static _Bool useI(struct fstrm_iothr_queue *q, size_t i) { if (i < NQ) ASSUME(q[i].q == (i < pf_q ? (void *)(QTOK + i) : NULL)); return 1; }
static void anyopt(struct fstrm_iothr_options *o)
{	/* what the setters let pass: unit io.opts */
	ASSUME(o->buffer_hint >= 1024 && o->buffer_hint <= 65536 && o->flush_timeout >= 1 && o->flush_timeout <= 600);
	ASSUME(o->input_queue_size >= 2 && o->input_queue_size <= 16384 && (o->input_queue_size & (o->input_queue_size - 1)) == 0);
	ASSUME(o->num_input_queues >= 1 && o->num_input_queues <= 1 << 20 && o->output_queue_size >= 2 && o->output_queue_size <= IOV_MAX);
	ASSUME(o->queue_model == FSTRM_IOTHR_QUEUE_MODEL_SPSC || o->queue_model == FSTRM_IOTHR_QUEUE_MODEL_MPSC);
	ASSUME(o->queue_notify_threshold >= 1 && o->reopen_interval >= 1 && o->reopen_interval <= 600);
#ifdef VF_BOUNDED
	ASSUME(o->num_input_queues <= 3);
#endif
}
void h_init(void)
{
	zero(); struct fstrm_iothr_options o, o0; anyopt(&o); _Bool has = nondet_bool(); if (!has) o = default_fstrm_iothr_options;
	o0 = o; NQ = o.num_input_queues; A0_size = o.input_queue_size; gk = nondet_size(); QTOK = __CPROVER_allocate(MAXI, 0); n_qinit = 0; n_qd_gk = 0; dmode = 0; pf_q = nondet_size(); clocks_ok = nondet_bool();
	now = nondet_long(); ASSUME(now >= 0 && now < 1L << 40);
	struct fstrm_writer *w = (void *)tk_writer;
	A = fstrm_iothr_init(has ? &o : NULL, &w);
	_Bool ok = clocks_ok && pf_q >= NQ;
	PROVE((A != NULL) == ok, "made exactly if clocks and queues are available");
	if (!ok) {
		PROVE(w == (void *)tk_writer && n_wdestroy == 0, "on failure the caller keeps the writer");
		PROVE(!n_create && !n_join, "and no thread runs");
		PROVE(IMPL(clocks_ok && gk < NQ, n_qd_gk == (gk < pf_q ? 1 : 0)), "queues made so far are destroyed once");
		PROVE(n_free == n_calloc && (clocks_ok ? n_free == 2 && fr[0] == cptr[1] && fr[1] == cptr[0] : n_free == 1 && fr[0] == cptr[0]), "and nothing is leaked");
	} else {
		PROVE(w == NULL && A->writer == (void *)tk_writer, "the writer changes hands");
		PROVE(n_create == 1 && thr_f == fstrm__iothr_thr && thr_a == A, "one thread runs");
		PROVE(A->opt.buffer_hint == o.buffer_hint && A->opt.flush_timeout == o.flush_timeout && A->opt.input_queue_size == o.input_queue_size && A->opt.num_input_queues == NQ && A->opt.output_queue_size == o.output_queue_size && A->opt.queue_model == o.queue_model && A->opt.queue_notify_threshold == o.queue_notify_threshold && A->opt.reopen_interval == o.reopen_interval, "with the configured options, or the defaults");
		PROVE(A->queue_ops == (o.queue_model == FSTRM_IOTHR_QUEUE_MODEL_SPSC ? &my_queue_mb_ops : &my_queue_mutex_ops), "with the configured kind of queue");
		PROVE(n_qinit == NQ && IMPL(gk < NQ, A->queues[gk].q == (void *)(QTOK + gk)) && n_qd_gk == 0, "one queue per producer");
		PROVE(A->outq_idx == 0 && A->outq_nbytes == 0 && A->get_queue_idx == 0 && !A->opened && !A->shutting_down, "closed, empty, no queue handed out");
		PROVE(now - A->last_open_attempt >= (time_t)A->opt.reopen_interval, "the first attempt to open does not wait");
		PROVE(n_calloc == 4 && A == cptr[0] && A->queues == cptr[1] && csz[1] == NQ * sizeof(struct fstrm_iothr_queue) && A->outq_iov == cptr[2] && csz[2] == o.output_queue_size * sizeof(struct iovec) && A->outq_entries == cptr[3] && csz[3] == o.output_queue_size * sizeof(qent), "with room for the output queue");
		PROVE(cv_clock == A->clkid_pthread && A->clkid_pthread == 4 && A->clkid_gettime == 6 && n_cvi == 1 && n_mi == 2 && n_free == 0, "condition variable on its clock, two locks");
	}
	C1(ok && has); C1(ok && !has); C1(!ok && clocks_ok && pf_q > 1); C1(!clocks_ok);
}
void h_destroy(void)
{
	mk(); dmode = 1; pend = 0; q_empty = 0; cur_q = 0; QTOK = __CPROVER_allocate(MAXI, 0); QS = A->queues = __CPROVER_allocate(NQ * sizeof *QS, 0); pf_q = NQ; n_qd_gk = 0; gk = nondet_size(); ASSUME(gk < NQ);
#ifdef VF_BOUNDED
	useQ(0); useQ(1); useQ(2);
#endif
	sdp = &A->shutting_down; struct fstrm_iothr *a = A; void *cv = &A->cv;
	fstrm_iothr_destroy(&a);
	PROVE(a == NULL, "the handle is cleared");
	PROVE(n_signal == 1 && cv_sig == cv && sd_at_signal && n_join == 1 && s_join > s_signal, "the thread is told, then waited for");
	PROVE(n_wdestroy == 1 && s_wdestroy > s_join, "then the writer is destroyed, once");
	PROVE(cur_q == NQ && n_qd_gk == 1, "every queue is emptied and destroyed once");
	PROVE(n_cvd == 1 && n_md == 2, "condition variable and locks too");
	PROVE(n_free == 4 && fr[0] == QS && fr[1] == IOVS && fr[2] == ENT && fr[3] == A || n_free == 4 && fr[0] == QS && fr[1] == ENT && fr[2] == IOVS && fr[3] == A, "and everything is freed once");
	fstrm_iothr_destroy(&a); PROVE(n_free == 4 && n_join == 1, "destroying nothing does nothing");
	C1(NQ > 2);
}
/* ======== options ======== */
void h_opts(void)
{
	zero();
	struct fstrm_iothr_options *o = fstrm_iothr_options_init();
	PROVE(o->buffer_hint == 8192 && o->flush_timeout == 1 && o->input_queue_size == 512 && o->num_input_queues == 1 && o->output_queue_size == 64 && o->queue_model == FSTRM_IOTHR_QUEUE_MODEL_SPSC && o->queue_notify_threshold == 32 && o->reopen_interval == 5, "the documented defaults");
	struct fstrm_iothr_options any, b; *o = any; b = *o;
	unsigned v = nondet_uint(), k = nondet_uint(); ASSUME(k < 8); _Bool good; fstrm_res r;
	switch (k) {
	case 0: good = v >= 1024 && v <= 65536; r = fstrm_iothr_options_set_buffer_hint(o, v); if (good) b.buffer_hint = v; break;
	case 1: good = v >= 1 && v <= 600; r = fstrm_iothr_options_set_flush_timeout(o, v); if (good) b.flush_timeout = v; break;
	case 2: good = v >= 2 && v <= 16384 && (v & (v - 1)) == 0; r = fstrm_iothr_options_set_input_queue_size(o, v); if (good) b.input_queue_size = v; break;
	case 3: good = v >= 1; r = fstrm_iothr_options_set_num_input_queues(o, v); if (good) b.num_input_queues = v; break;
	case 4: good = v >= 2 && v <= IOV_MAX; r = fstrm_iothr_options_set_output_queue_size(o, v); if (good) b.output_queue_size = v; break;
	case 5: good = v == FSTRM_IOTHR_QUEUE_MODEL_SPSC || v == FSTRM_IOTHR_QUEUE_MODEL_MPSC; r = fstrm_iothr_options_set_queue_model(o, v); if (good) b.queue_model = v; break;
	case 6: good = v >= 1; r = fstrm_iothr_options_set_queue_notify_threshold(o, v); if (good) b.queue_notify_threshold = v; break;
	default: good = v >= 1 && v <= 600; r = fstrm_iothr_options_set_reopen_interval(o, v); if (good) b.reopen_interval = v; break;
	}
	PROVE(r == (good ? fstrm_res_success : fstrm_res_failure), "accepted exactly in the documented range");
	PROVE(o->buffer_hint == b.buffer_hint && o->flush_timeout == b.flush_timeout && o->input_queue_size == b.input_queue_size && o->num_input_queues == b.num_input_queues && o->output_queue_size == b.output_queue_size && o->queue_model == b.queue_model && o->queue_notify_threshold == b.queue_notify_threshold && o->reopen_interval == b.reopen_interval, "the option is set, nothing else; a refused value changes nothing");
	n_free = 0; void *p = o; fstrm_iothr_options_destroy(&o); PROVE(o == NULL && n_free == 1 && fr[0] == p, "freed once"); fstrm_iothr_options_destroy(&o); PROVE(n_free == 1, "destroying nothing does nothing");
	C1(good && k == 2); C1(!good && k == 2); C1(good && k == 7); C1(!good && k == 4);
}

void h_free(void)
{
	n_free = 0; void *p = nondet_ptr(), *q = nondet_ptr(); fstrm_free_wrapper(p, q); PROVE(n_free == 1 && fr[0] == p, "releases the payload, once"); COVER(p != q, "c");
}
