/* both queues: against a model, and with real threads */
#include "nat.h"
#include <pthread.h>
#include <sched.h>
#include "libmy/my_queue.h"
extern const struct my_queue_ops my_queue_mb_ops, my_queue_mutex_ops;
static const struct my_queue_ops *ops; static bool mutex;
static void item_fill(uint8_t *p, unsigned sz, uint64_t id) { uint64_t x = id * 0x9E3779B97F4A7C15ull + 12345; for (unsigned i = 0; i < sz; i++) { if (i % 8 == 0) { x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ull; x += i; } p[i] = x >> (8 * (i % 8)); } }
static void seq(void)
{
	nat_case();
	unsigned n = 1u << (1 + rnd_n(7)), sz = rnd_1in(3) ? 32 : rnd_1in(2) ? 8 : 1 + rnd_n(100);
	unsigned bad = rnd_1in(8) ? rnd_n(70000) : (unsigned)rnd(); long live0 = nat_live;
	if (bad < 2 || (bad & (bad - 1))) CHECK(ops->init(bad, 4) == NULL, "a queue of %u slots is made", bad);
	struct my_queue *q = ops->init(n, sz); CHECK(q, "a queue of %u slots is refused", n);
	uint64_t h = 0, t = 0; uint8_t a[128], b[128], c[128]; unsigned v;
	int bias = rnd_n(3);
	nat_note("%u slots of %u bytes, bias %d\n", n, sz, bias);
	for (int k = rnd_n(700); k > 0; k--) {
		bool ins = bias == 0 ? rnd_1in(2) : bias == 1 ? rnd_n(4) : rnd_1in(4); unsigned *pv = rnd_n(4) ? &v : NULL; v = 4711;
		if (rnd_1in(100)) bias = rnd_n(3);
		if (ins) {
			item_fill(a, sz, h);
			bool r = ops->insert(q, a, pv);
			CHECK(r == (h - t < n - 1), "insert into a queue of %u slots with %llu items: %d", n, (unsigned long long)(h - t), r);
			if (r) h++;
			if (pv) CHECK(v == n - 1 - (h - t), "space %u with %llu of %u in use", v, (unsigned long long)(h - t), n);
			item_fill(c, sz, r ? h - 1 : h); CHECK(!memcmp(a, c, sz), "the caller's item is changed");
		} else {
			memset(b, 0xEE, sizeof b);
			bool r = ops->remove(q, b, pv);
			CHECK(r == (h > t), "remove from a queue with %llu items: %d", (unsigned long long)(h - t), r);
			if (r) { item_fill(c, sz, t); CHECK(!memcmp(b, c, sz), "item %llu differs", (unsigned long long)t); CHECK(b[sz] == 0xEE, "more than the item is written"); t++; }
			if (pv) CHECK(v == h - t, "count %u with %llu in use", v, (unsigned long long)(h - t));
		}
	}
	ops->destroy(&q); CHECK(q == NULL, "the handle survives"); ops->destroy(&q);
	CHECK(nat_live == live0, "%ld blocks leaked", nat_live - live0);
}
/* fill and empty big queues */
static void big(void)
{
	nat_case(); unsigned n = 1u << (8 + rnd_n(10)), sz = 32, i, r, v; long live0 = nat_live; uint8_t a[32], b[32]; uint64_t h = 0, t = 0;
	nat_note("%u slots of %u bytes, filled and emptied\n", n, sz);
	struct my_queue *q = ops->init(n, sz); CHECK(q, "a queue of %u slots is refused", n);
	for (r = 0; r < 3; r++) {
		unsigned m = r == 0 ? rnd_n(n) : n;
		for (i = 0; i < m; i++) { item_fill(a, sz, h); bool k = ops->insert(q, a, &v); CHECK(k == (h - t < n - 1), "insert into a queue of %u slots with %llu items: %d", n, (unsigned long long)(h - t), k); h += k; CHECK(v == n - 1 - (h - t), "space %u with %llu of %u in use", v, (unsigned long long)(h - t), n); }
		for (i = r == 0 ? rnd_n(m + 1) : 0; i <= m; i++) { bool k = ops->remove(q, b, &v); CHECK(k == (h > t), "remove from a queue of %u slots with %llu items: %d", n, (unsigned long long)(h - t), k); if (k) { item_fill(a, sz, t); CHECK(!memcmp(a, b, sz), "item %llu differs in a queue of %u slots", (unsigned long long)t, n); t++; } CHECK(v == h - t, "count %u with %llu in use", v, (unsigned long long)(h - t)); }
	}
	ops->destroy(&q); CHECK(nat_live == live0, "%ld blocks leaked", nat_live - live0);
}
static struct my_queue *Q; static unsigned SZ, N, NP; static volatile bool stop; static uint64_t LIM; static unsigned mode_p, mode_c; static unsigned long full, empty;
struct rec { uint64_t id; uint8_t body[56]; };
static void nap(unsigned m, uint64_t i) { if (m == 1 && i % 64 == 0) sched_yield(); if (m == 2 && i % 256 == 0) { struct timespec z = { 0, 1000 }; nanosleep(&z, 0); } if (m == 3) for (volatile int k = 0; k < 30; k++); }
static void *prod(void *arg)
{
	uint64_t who = (uintptr_t)arg, i = 0; uint8_t it[128];
	while (i < LIM) {
		uint64_t id = who << 48 | i; memcpy(it, &id, 8); item_fill(it + 8, SZ - 8, id);
		unsigned sp = 0;
		if (ops->insert(Q, it, &sp)) { i++; if (sp > N - 2) nat_die("more space than slots reported"); } else __atomic_add_fetch(&full, 1, __ATOMIC_RELAXED);
		nap(mode_p, i);
	}
	return NULL;
}
static void threads(void)
{
	nat_case();
	NP = mutex ? 1 + rnd_n(3) : 1; N = 1u << (1 + rnd_n(5)); SZ = rnd_1in(2) ? 32 : 16 + rnd_n(90); LIM = 20000 / NP; mode_p = rnd_n(4); mode_c = rnd_n(4);
	nat_note("%u producers, %u slots of %u bytes, pace %u/%u\n", NP, N, SZ, mode_p, mode_c);
	Q = ops->init(N, SZ); CHECK(Q, "init");
	pthread_t th[4]; uint64_t next[4] = { 0 }, got = 0; uint8_t it[128], c[128];
	for (unsigned i = 0; i < NP; i++) pthread_create(&th[i], NULL, prod, (void *)(uintptr_t)i);
	while (got < LIM * NP) {
		unsigned cn = 0;
		if (ops->remove(Q, it, &cn)) {
			uint64_t id; memcpy(&id, it, 8); unsigned who = id >> 48; uint64_t k = id & 0xffffffffffffull;
			CHECK(who < NP && k == next[who], "producer %u: item %llu instead of %llu", who, (unsigned long long)k, (unsigned long long)(who < NP ? next[who] : 0));
			item_fill(c, SZ - 8, id); CHECK(!memcmp(c, it + 8, SZ - 8), "item %llu is torn", (unsigned long long)k);
			next[who]++; got++; CHECK(cn <= N - 2, "more items than slots reported");
		}
		nap(mode_c, got);
	}
	for (unsigned i = 0; i < NP; i++) pthread_join(th[i], NULL);
	CHECK(!ops->remove(Q, it, NULL), "an item too many");
	ops->destroy(&Q);
}
/* several consumers too */
static uint64_t taken; static uint8_t *seen_[3];
static void *cons(void *arg)
{
	uint64_t nx[4] = { 0 }; uint8_t it[128], c[128]; (void)arg;
	while (__atomic_load_n(&taken, __ATOMIC_SEQ_CST) < LIM * NP) {
		if (!ops->remove(Q, it, NULL)) { sched_yield(); continue; }
		uint64_t id; memcpy(&id, it, 8); unsigned who = id >> 48; uint64_t k = id & 0xffffffffffffull;
		if (!(who < NP && k < LIM && k >= nx[who])) nat_die("item out of order with several consumers");
		item_fill(c, SZ - 8, id); if (memcmp(c, it + 8, SZ - 8)) nat_die("torn item with several consumers");
		nx[who] = k + 1; if (__atomic_exchange_n(&seen_[who][k], 1, __ATOMIC_SEQ_CST)) nat_die("an item is delivered twice");
		__atomic_add_fetch(&taken, 1, __ATOMIC_SEQ_CST);
		nap(mode_c, k);
	}
	return NULL;
}
static void many(void)
{
	nat_case(); NP = 1 + rnd_n(3); N = 1u << (1 + rnd_n(4)); SZ = rnd_1in(2) ? 32 : 16 + rnd_n(90); LIM = 12000 / NP; mode_p = rnd_n(4); mode_c = rnd_n(4); unsigned nc = 2 + rnd_n(2); taken = 0;
	nat_note("%u producers, %u consumers, %u slots of %u bytes, pace %u/%u\n", NP, nc, N, SZ, mode_p, mode_c);
	Q = ops->init(N, SZ); CHECK(Q, "init"); pthread_t th[4], ct[4];
	for (unsigned i = 0; i < NP; i++) { seen_[i] = __real_calloc(LIM, 1); pthread_create(&th[i], NULL, prod, (void *)(uintptr_t)i); }
	for (unsigned i = 0; i < nc; i++) pthread_create(&ct[i], NULL, cons, NULL);
	for (unsigned i = 0; i < NP; i++) pthread_join(th[i], NULL);
	/* a lost item would keep the consumers waiting for ever */
	for (int w = 0; __atomic_load_n(&taken, __ATOMIC_SEQ_CST) < LIM * NP; w++) { if (w > 100000) nat_die("an accepted item is never delivered"); struct timespec z = { 0, 200000 }; nanosleep(&z, 0); }
	for (unsigned i = 0; i < nc; i++) pthread_join(ct[i], NULL);
	for (unsigned i = 0; i < NP; i++) __real_free(seen_[i]);
	uint8_t it[128]; CHECK(!ops->remove(Q, it, NULL), "an item too many"); ops->destroy(&Q);
}
int main(int argc, char **argv)
{
	nat_init(argc, argv); mutex = argc > 1 && !strcmp(argv[1], "mutex"); ops = mutex ? &my_queue_mutex_ops : &my_queue_mb_ops;
	CHECK(ops->impl_type() && *ops->impl_type(), "no name");
	while (nat_more(1000)) { seq(); if (rnd_1in(60)) big(); if (rnd_1in(30)) threads(); if (mutex && rnd_1in(60)) many(); }
	return nat_done();
}
