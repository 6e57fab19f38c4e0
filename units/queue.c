/*
 * libmy/my_queue_mb.c (or my_queue_mutex.c with -DMUTEX) under contract, by rely/guarantee.
 * Ghost state: H items were ever inserted, T ever removed (64 bit, never wrap); item i lives in slot i mod n.
 *   invariant  head == H mod n, tail == T mod n, 0 <= H-T <= n-1
 * lock-free queue:
 *   rely       while the producer runs, the consumer may advance T up to H; while the consumer runs,
 *              the producer may advance H as long as H-T <= n-1.  Nothing else changes.
 *   guarantee  the producer writes only a slot no item occupies, completely, before it publishes it
 *              (with a barrier in between) and changes nothing but head; the consumer copies only an
 *              occupied slot, completely, before it releases it (with a barrier in between) and
 *              changes nothing but tail.
 * mutex queue: everything happens between lock and unlock, the invariant holds at both.
 */
#include "vf.h"
#include <assert.h>
#include <pthread.h>
#include <sys/types.h>
#include "libmy/my_alloc.h"
#include "libmy/my_queue.h"
#ifndef SZ
#define SZ 32
#endif
#define C1(c) COVER(c, "c")
static unsigned n; static uint64_t H, T; static uint8_t *D; static char ITEM[SZ];
static void vf_memcpy(void *d, const void *s, size_t k);
static void vf_barrier(void);
static int vf_lock(pthread_mutex_t *m); static int vf_unlock(pthread_mutex_t *m);
static int vf_minit(pthread_mutex_t *m, const void *a); static int vf_mdestroy(pthread_mutex_t *m);
static void vf_free(void *p); static void *vf_calloc(size_t a, size_t b);
#define memcpy vf_memcpy
#define memmove vf_memcpy
#define free vf_free
#define my_calloc vf_calloc
#ifdef MUTEX
#define pthread_mutex_lock vf_lock
#define pthread_mutex_unlock vf_unlock
#define pthread_mutex_init vf_minit
#define pthread_mutex_destroy vf_mdestroy
#include "libmy/my_queue_mutex.c"
#define Q(x) my_queue_mutex_##x
#define VFLOCK lock
#else
#include "libmy/my_memory_barrier.h"
#undef smp_mb
#undef smp_wmb
#undef smp_rmb
#define smp_mb() vf_barrier()
#define smp_wmb() vf_barrier()
#define smp_rmb() vf_barrier()
#include "libmy/my_queue_mb.c"
#define Q(x) my_queue_mb_##x
#define VFLOCK data
#endif
#undef memcpy
#undef memmove
#undef free
#undef my_calloc
static struct my_queue *QP;
static _Bool producer;
static uint64_t H0, T0;				/* at the start of the operation */
static unsigned n_copy, n_bar_after; static _Bool late;
static int held; static unsigned n_lock, n_unlock;
/* the other side may run */
static void env(void)
{
#ifndef MUTEX
	if (producer) { uint64_t t = nondet_u64(); ASSUME(t >= T && t <= H0); T = t; QP->tail = T & (n - 1); }
	else { uint64_t h = nondet_u64(); ASSUME(h >= H && h - T0 <= n - 1); H = h; QP->head = H & (n - 1); }
#endif
}
#define OWN_UNCHANGED (producer ? QP->head == (unsigned)(H0 & (n - 1)) : QP->tail == (unsigned)(T0 & (n - 1)))
#define OTHER_UNCHANGED (producer ? QP->tail == (unsigned)(T & (n - 1)) : QP->head == (unsigned)(H & (n - 1)))
static void vf_memcpy(void *d, const void *s, size_t k)
{
	PROVE(k == SZ, "a whole item is copied");
	PROVE(n_copy == 0, "one item is copied");
#ifdef MUTEX
	PROVE(OWN_UNCHANGED, "the slot is copied before it is published or released");
#else
	/* a released slot is not reused before the next one is released too: capacity is n - 1 */
	PROVE(OWN_UNCHANGED || (!producer && QP->tail == (unsigned)((T0 + 1) & (n - 1))), "the slot is copied before it is published, or reused");
#endif
	 PROVE(OTHER_UNCHANGED, "the other side's index is left alone");
#ifdef MUTEX
	PROVE(held == 1, "under the lock");
#endif
	if (producer) {
		PROVE(s == ITEM && SAME(d, D) && OFF(d) == (size_t)(H0 & (n - 1)) * SZ, "the item goes to the next slot");
		PROVE(H0 - T < n - 1 && H0 >= T, "which is free");
	} else {
		PROVE(d == ITEM && SAME(s, D) && OFF(s) == (size_t)(T0 & (n - 1)) * SZ, "the item comes from the oldest slot");
		PROVE(T0 < H, "which is occupied");
	}
	env(); n_copy++; late = 1; if (producer) n_bar_after = 0;
}
static void vf_barrier(void) { PROVE(OTHER_UNCHANGED, "the other side's index is left alone"); if (producer ? late && OWN_UNCHANGED : 1) n_bar_after++; env(); }
static int vf_lock(pthread_mutex_t *m)
{
	PROVE(held == 0, "not locked twice"); PROVE(m == &((struct my_queue *)QP)->VFLOCK, "own lock"); held = 1; n_lock++;
	/* other threads ran before */
	uint64_t h = nondet_u64(), t = nondet_u64(); ASSUME(h < 1ULL << 62 && h >= H && t >= T && t <= h && h - t <= n - 1); H = H0 = h; T = T0 = t; QP->head = H & (n - 1); QP->tail = T & (n - 1);
	return 0;
}
static unsigned moved;
static int vf_unlock(pthread_mutex_t *m)
{
	PROVE(held == 1, "locked"); held = 0; n_unlock++;
	moved = producer ? QP->head != (unsigned)(H0 & (n - 1)) : QP->tail != (unsigned)(T0 & (n - 1));
	H = H0 + (producer && moved); T = T0 + (!producer && moved);
	PROVE(QP->head == (unsigned)(H & (n - 1)) && QP->tail == (unsigned)(T & (n - 1)) && T <= H && H - T <= n - 1 && moved == n_copy, "the invariant holds when the lock is given up");
	return 0;
}
static unsigned n_free; static void *fr[3]; static unsigned n_calloc; static size_t ca[2], cb[2]; static void *cp[2]; static unsigned n_mi, n_md;
static void vf_free(void *p) { if (n_free < 3) fr[n_free] = p; n_free++; }
static void *vf_calloc(size_t a, size_t b) { ca[n_calloc] = a; cb[n_calloc] = b; void *p = n_calloc == 0 ? __CPROVER_allocate(sizeof(struct my_queue), 1) : __CPROVER_allocate(1, 1); cp[n_calloc] = p; n_calloc++; return p; }
static int vf_minit(pthread_mutex_t *m, const void *a) { PROVE(m == &((struct my_queue *)cp[0])->VFLOCK, "own lock"); n_mi++; return 0; }
static int vf_mdestroy(pthread_mutex_t *m) { n_md++; return 0; }
static void mk(void)
{
	n = nondet_uint(); ASSUME(n >= 2 && (n & (n - 1)) == 0 && (uint64_t)n * SZ <= 0xffffffffULL);
	H = nondet_u64(); T = nondet_u64(); ASSUME(T <= H && H - T <= n - 1 && H < 1ULL << 62);
	QP = __CPROVER_allocate(sizeof *QP, 0); D = __CPROVER_allocate((size_t)n * SZ, 0);
	QP->data = D; QP->num_elems = n; QP->sizeof_elem = SZ; QP->head = H & (n - 1); QP->tail = T & (n - 1);
	H0 = H; T0 = T; n_copy = n_bar_after = n_lock = n_unlock = 0; late = 0; held = 0; n_free = 0;
}
#define FRAME() PROVE(QP->data == D && QP->num_elems == n && QP->sizeof_elem == SZ && OTHER_UNCHANGED && n_free == 0, "nothing else changes")
void h_insert(void)
{
	producer = 1; mk(); unsigned sp = 77; _Bool want = nondet_bool(); uint64_t Tb = T;
	_Bool r = Q(insert)(QP, ITEM, want ? &sp : NULL);
#ifdef MUTEX
	PROVE(n_lock == 1 && n_unlock == 1 && held == 0, "locks once and unlocks"); Tb = T;
	PROVE(r == (H0 - T0 < n - 1), "refused exactly if the queue is full");
#endif
	FRAME();
	PROVE(r == (n_copy == 1), "an item is stored exactly if the result says so");
	if (r) PROVE(QP->head == (unsigned)((H0 + 1) & (n - 1)), "the item is published");
	else { PROVE(OWN_UNCHANGED, "a full queue is unchanged"); PROVE(H0 - Tb == n - 1, "refused only if the queue was full"); }
#ifndef MUTEX
	PROVE(IMPL(r, n_bar_after >= 1), "a barrier separates the copy from the publication");
	/* T0: removed when the operation began; T: when it ended */
	PROVE(IMPL(want, r ? sp <= n - 2 - (H0 - T) && sp >= n - 2 - (H0 - T0) : sp == 0), "the space reported was right at some time during the call");
#else
	PROVE(IMPL(want, sp == n - 1 - (H - T)), "the space reported is exact");
#endif
	PROVE(IMPL(!want, sp == 77), "no report asked, none given");
	C1(r && H0 > T0); C1(!r); C1(r && (H0 & (n - 1)) == n - 1 && sp == 3);
}
void h_remove(void)
{
	producer = 0; mk(); unsigned ct = 77; _Bool want = nondet_bool(); uint64_t Hb = H;
	_Bool r = Q(remove)(QP, ITEM, want ? &ct : NULL);
#ifdef MUTEX
	PROVE(n_lock == 1 && n_unlock == 1 && held == 0, "locks once and unlocks"); Hb = H;
	PROVE(r == (H0 > T0), "refused exactly if the queue is empty");
#endif
	FRAME();
	PROVE(r == (n_copy == 1), "an item is taken exactly if the result says so");
	if (r) PROVE(QP->tail == (unsigned)((T0 + 1) & (n - 1)), "the slot is released");
	else { PROVE(OWN_UNCHANGED, "an empty queue is unchanged"); PROVE(Hb == T0, "refused only if the queue was empty"); }
#ifndef MUTEX
	PROVE(IMPL(r, n_bar_after >= 1), "a barrier keeps the copy from slipping past later releases");
	PROVE(IMPL(want, r ? ct <= H - T0 - 1 && ct >= H0 - T0 - 1 : ct == 0), "the count reported was right at some time during the call");
#else
	PROVE(IMPL(want, ct == H - T), "the count reported is exact");
#endif
	PROVE(IMPL(!want, ct == 77), "no report asked, none given");
	C1(r && H0 > T0 + 1); C1(!r); C1(r && (T0 & (n - 1)) == n - 1 && ct == 3);
}
void h_init(void)
{
	unsigned a = nondet_uint(), b = nondet_uint(); n_calloc = n_free = n_mi = n_md = 0;
	struct my_queue *q = Q(init)(a, b);
	_Bool okn = a >= 2 && (a & (a - 1)) == 0;
	PROVE((q != NULL) == okn, "made exactly for a power of two of at least 2");
	if (!okn) PROVE(n_calloc == 0 && n_free == 0, "nothing is left behind");
	else {
		PROVE(n_calloc == 2 && q == cp[0] && ca[0] * cb[0] == sizeof *q && q->data == cp[1] && (ca[1] == a && cb[1] == b || ca[1] == b && cb[1] == a), "with room for every slot");
		PROVE(q->num_elems == a && q->sizeof_elem == b && q->head == 0 && q->tail == 0, "and empty");
#ifdef MUTEX
		PROVE(n_mi == 1, "with a lock");
#endif
		Q(destroy)(&q);
		PROVE(q == NULL && n_free == 2 && (fr[0] == cp[1] && fr[1] == cp[0]), "destroy frees data and queue, each once");
#ifdef MUTEX
		PROVE(n_md == 1, "and the lock");
#endif
	}
	q = NULL; n_free = 0; Q(destroy)(&q); PROVE(n_free == 0, "destroying nothing does nothing");
	C1(okn); C1(!okn && a > 2);
}
/* slots of items that are in the queue together are different, and a free slot holds none of them */
void h_slots(void)
{
	mk();
	uint64_t i = nondet_u64(), j = nondet_u64(); ASSUME(i >= T && i < H && j >= T && j < H && i != j);
	PROVE((i & (n - 1)) != (j & (n - 1)), "two items never share a slot");
	if (H - T < n - 1) PROVE((i & (n - 1)) != (H & (n - 1)), "the next slot is not in use");
	PROVE((uint64_t)(i & (n - 1)) * SZ + SZ <= (uint64_t)n * SZ, "every slot lies inside the data");
	C1(H - T == n - 1 && n > 4);
}
