#include "nat.h"
#include <fstrm.h>

static void put32(uint8_t *p, uint32_t v) { p[0] = v >> 24; p[1] = v >> 16; p[2] = v >> 8; p[3] = v; }
static uint32_t get32(const uint8_t *p) { return (uint32_t)p[0] << 24 | p[1] << 16 | p[2] << 8 | p[3]; }

struct ref { uint32_t type; size_t n; size_t off[200], len[200]; };
/* the grammar, independently */
static bool ref_parse(const uint8_t *w, size_t L, unsigned flags, struct ref *r)
{
	size_t o = 0;
	r->n = 0;
	if (flags & 1) {
		if (L < 8 || get32(w) != 0 || get32(w + 4) > 512 || get32(w + 4) != L - 8) return false;
		o = 8;
	} else if (L > 512) return false;
	if (L - o < 4) return false;
	r->type = get32(w + o); o += 4;
	if (r->type < 1 || r->type > 5) return false;
	while (o < L) {
		if (L - o < 8 || get32(w + o) != 1) return false;
		uint32_t fl = get32(w + o + 4);
		if (fl > L - o - 8 || fl > 256) return false;
		r->off[r->n] = o + 8; r->len[r->n] = fl; r->n++;
		o += 8 + fl;
	}
	if (r->type == 2 && r->n > 1) return false;
	if ((r->type == 3 || r->type == 5) && r->n > 0) return false;
	return true;
}
static size_t rndlen(void)
{
	switch (rnd_n(8)) {
	case 0: return 0; case 1: return 1; case 2: return 255 + rnd_n(3); case 3: return rnd_n(300);
	case 4: return 246 + rnd_n(8); default: return rnd_n(24);
	}
}
static size_t gen(uint8_t *w, unsigned *flags)
{
	uint8_t b[4096]; size_t o = 0, L;
	*flags = rnd_1in(2) ? 1 : 0;
	if (rnd_1in(6)) *flags |= 0xfffffffe & rnd();
	put32(b, rnd_1in(12) ? rnd_n(9) : 1 + rnd_n(5)); o = 4;
	if (rnd_1in(30)) put32(b, get32(b) | (1u << rnd_n(32)));
	unsigned n = rnd_n(4) == 0 ? rnd_n(70) : rnd_n(4);
	if (rnd_1in(10)) {
		/* aim at exactly the limit */
		size_t target = 510 + rnd_n(5);
		size_t l1 = rnd_n(250), l2 = target - 4 - 16 - l1;
		put32(b + o, 1); put32(b + o + 4, l1); o += 8 + l1; put32(b + o, 1); put32(b + o + 4, l2); o += 8 + l2; n = 0;
	}
	for (unsigned i = 0; i < n && o < 560; i++) {
		size_t fl = n > 8 ? rnd_n(3) : rndlen();
		put32(b + o, rnd_1in(25) ? rnd_n(4) : 1); put32(b + o + 4, fl);
		for (size_t k = 0; k < fl; k++) b[o + 8 + k] = rnd();
		o += 8 + fl;
		if (rnd_1in(40)) put32(b + o - fl - 4, (uint32_t)rnd());
		else if (rnd_1in(40)) put32(b + o - fl - 4, fl + 1);
	}
	if (rnd_1in(5)) { size_t k = 1 + rnd_n(9); for (size_t i = 0; i < k; i++) b[o + i] = rnd_1in(2) ? 0 : rnd_n(3); o += k; }
	if (rnd_1in(5) && o > 4) o -= 1 + rnd_n(o < 12 ? o - 1 : 9);
	if (rnd_1in(60)) o = rnd_n(8);
	L = o;
	if (*flags & 1) {
		put32(w, rnd_1in(25) ? rnd_n(3) << (8 * rnd_n(4)) : 0);
		put32(w + 4, rnd_1in(15) ? L + rnd_n(3) - 1 : L);
		if (rnd_1in(60)) put32(w + 4, rnd());
		memcpy(w + 8, b, L); L += 8;
		if (rnd_1in(60)) L = rnd_n(12);
	} else memcpy(w, b, L);
	return L;
}
static void decode_case(struct fstrm_control *c, const uint8_t *w0, size_t L, unsigned flags)
{
	uint8_t *w = __real_malloc(L ? L : 1); memcpy(w, w0, L);
	struct ref r; nat_note("fstrm_control_decode flags=%u\n", flags); nat_hex("frame", w, L);
	uint8_t *ex = __real_malloc(L + 1); uint8_t *arg = ex + 1; memcpy(arg, w, L); (void)w;
	bool want = ref_parse(w, L, flags, &r);
	fstrm_res got = fstrm_control_decode(c, arg, L, flags);
	CHECK(memcmp(arg, w, L) == 0, "decode modified its input");
	CHECK((got == fstrm_res_success) == want, "decode returned %d, the grammar says %s", got, want ? "valid" : "invalid");
	memset(arg, 0xAA, L); __real_free(ex);	/* results must not point into the input */
	if (want) {
		fstrm_control_type t; size_t n;
		CHECK(fstrm_control_get_type(c, &t) == fstrm_res_success && t == r.type, "wrong type");
		CHECK(fstrm_control_get_num_field_content_type(c, &n) == fstrm_res_success && n == r.n, "wrong number of fields %zu, expected %zu", n, r.n);
		for (size_t i = 0; i < n; i++) {
			const uint8_t *p; size_t l;
			CHECK(fstrm_control_get_field_content_type(c, i, &p, &l) == fstrm_res_success && l == r.len[i], "wrong field length");
			CHECK(memcmp(p, w + r.off[i], l) == 0, "wrong field bytes");
		}
		const uint8_t *p; size_t l;
		CHECK(fstrm_control_get_field_content_type(c, n, &p, &l) == fstrm_res_failure, "field past the end");
	}
	__real_free(w);
}
static void m_decode(void)
{
	static uint8_t w[8192]; unsigned flags;
	struct fstrm_control *c = fstrm_control_init();
	while (nat_more(20000)) {
		nat_case();
		if (rnd_1in(3)) {
			if (rnd_1in(2)) fstrm_control_add_field_content_type(c, (const uint8_t *)"x", 1);
			if (rnd_1in(10)) { fstrm_control_destroy(&c); CHECK(nat_live == 0, "memory leaked: %ld blocks", nat_live); c = fstrm_control_init(); }
		}
		size_t L = gen(w, &flags);
		decode_case(c, w, L, flags);
	}
	fstrm_control_destroy(&c);
	CHECK(nat_live == 0, "memory leaked: %ld blocks", nat_live);
}
/* a model of a control frame */
struct mc { uint32_t type; size_t n; size_t len[300]; uint8_t *d[300]; };
static void mc_gen(struct mc *m)
{
	m->type = 1 + rnd_n(5);
	m->n = rnd_1in(8) ? rnd_n(70) : rnd_n(4);
	for (size_t i = 0; i < m->n; i++) {
		m->len[i] = m->n > 5 ? rnd_n(3) : rndlen();
		if (m->len[i] > 256) m->len[i] = 256;
		if (m->n == 2 && i == 1 && rnd_1in(3)) m->len[i] = 478 + rnd_n(20) - m->len[0];
		if (m->len[i] > 256) m->len[i] = 256;
		m->d[i] = __real_malloc(m->len[i] + 1);
		for (size_t k = 0; k < m->len[i]; k++) m->d[i][k] = rnd_n(3) ? rnd() : 0;
	}
}
static void mc_free(struct mc *m) { for (size_t i = 0; i < m->n; i++) __real_free(m->d[i]); }
static struct fstrm_control *mc_build(struct mc *m)
{
	struct fstrm_control *c = fstrm_control_init();
	CHECK(fstrm_control_set_type(c, m->type) == fstrm_res_success, "set_type");
	nat_note("type=%u\n", m->type);
	for (size_t i = 0; i < m->n; i++) {
		nat_hex("content type", m->d[i], m->len[i]);
		uint8_t *tmp = __real_malloc(m->len[i] + 1); memcpy(tmp, m->d[i], m->len[i]);
		CHECK(fstrm_control_add_field_content_type(c, tmp, m->len[i]) == fstrm_res_success, "add_field");
		memset(tmp, 0x55, m->len[i] + 1); __real_free(tmp);
	}
	return c;
}
static size_t mc_nenc(struct mc *m) { return m->type == 3 || m->type == 5 ? 0 : m->type == 2 && m->n > 1 ? 1 : m->n; }
static size_t mc_wire(struct mc *m, unsigned flags, uint8_t *out)
{
	size_t o = flags & 1 ? 8 : 0, n = mc_nenc(m);
	put32(out + o, m->type); o += 4;
	for (size_t i = 0; i < n; i++) { put32(out + o, 1); put32(out + o + 4, m->len[i]); memcpy(out + o + 8, m->d[i], m->len[i]); o += 8 + m->len[i]; }
	if (flags & 1) { put32(out, 0); put32(out + 4, o - 8); }
	return o;
}
static void m_encode(int roundtrip)
{
	static uint8_t exp[1 << 17];
	while (nat_more(20000)) {
		nat_case();
		struct mc m; mc_gen(&m);
		struct fstrm_control *c = mc_build(&m);
		unsigned flags = rnd_n(2) | (rnd_1in(8) ? rnd() & ~1u : 0);
		size_t want = mc_wire(&m, flags, exp), sz = 4711, i;
		nat_note("flags=%u expected size=%zu\n", flags, want);
		fstrm_res r = fstrm_control_encoded_size(c, &sz, flags);
		CHECK((r == fstrm_res_success) == (want <= 512), "encoded_size returned %d for a frame of %zu bytes", r, want);
		CHECK(sz == (want <= 512 ? want : 4711), "encoded_size answered %zu, expected %zu", sz, want);
		size_t cap = want > 512 ? want : rnd_1in(3) ? want : rnd_1in(2) ? want + rnd_n(40) : rnd_n(want);
		uint8_t *buf = __real_malloc(cap ? cap : 1); size_t len = cap;
		memset(buf, 0xEE, cap);
		nat_note("capacity=%zu\n", cap);
		r = fstrm_control_encode(c, buf, &len, flags);
		CHECK((r == fstrm_res_success) == (want <= 512 && cap >= want), "encode returned %d with capacity %zu for %zu bytes", r, cap, want);
		if (r == fstrm_res_success) {
			CHECK(len == want, "encode length %zu expected %zu", len, want);
			CHECK(memcmp(buf, exp, want) == 0, "encode produced wrong bytes");
			for (i = want; i < cap; i++) CHECK(buf[i] == 0xEE, "encode wrote past the frame");
			if (roundtrip) {
				struct fstrm_control *d = fstrm_control_init(); fstrm_control_type t; size_t n;
				CHECK(fstrm_control_decode(d, buf, len, flags) == fstrm_res_success, "an encoded frame does not decode");
				CHECK(fstrm_control_get_type(d, &t) == fstrm_res_success && t == m.type, "type lost");
				CHECK(fstrm_control_get_num_field_content_type(d, &n) == fstrm_res_success && n == mc_nenc(&m), "fields lost");
				for (i = 0; i < n; i++) { const uint8_t *p; size_t l; CHECK(fstrm_control_get_field_content_type(d, i, &p, &l) == 0 && l == m.len[i] && !memcmp(p, m.d[i], l), "field %zu changed", i); }
				fstrm_control_destroy(&d);
			}
		} else CHECK(len == cap, "failed encode changed the length");
		__real_free(buf); mc_free(&m); fstrm_control_destroy(&c);
		CHECK(nat_live == 0, "memory leaked: %ld blocks", nat_live);
	}
}
static void m_match(void)
{
	while (nat_more(20000)) {
		nat_case();
		struct mc m; mc_gen(&m);
		for (size_t i = 0; i < m.n; i++) if (rnd_1in(2)) m.len[i] = m.len[i] > 4 ? 4 : m.len[i];
		struct fstrm_control *c = mc_build(&m);
		uint8_t q[300]; size_t ql = rnd_n(5); const uint8_t *qp = q;
		for (size_t i = 0; i < sizeof q; i++) q[i] = rnd();
		if (m.n && rnd_n(4)) {
			size_t i = rnd_n(m.n); ql = m.len[i]; memcpy(q, m.d[i], ql);
			switch (rnd_n(6)) { case 0: if (ql) ql--; break; case 1: ql++; break; case 2: if (ql) q[ql - 1] ^= 1; break; case 3: if (ql) q[0] ^= 0x20; break; default: break; }
		}
		uint8_t *qh = __real_malloc(ql + 1); memcpy(qh, q, ql); qp = qh;
		if (rnd_1in(8)) { qp = NULL; if (rnd_1in(2)) ql = 0; }
		nat_note("match argument %s ", qp ? "" : "NULL"); nat_hex("", qh, qp ? ql : 0);
		size_t n = mc_nenc(&m); bool want;
		if (m.type == 3 || m.type == 5) want = false;
		else if (n == 0) want = true;
		else { want = false; if (qp) for (size_t i = 0; i < n; i++) if (m.len[i] == ql && !memcmp(m.d[i], qp, ql)) want = true; }
		fstrm_res r = fstrm_control_match_field_content_type(c, qp, ql);
		CHECK((r == fstrm_res_success) == want, "match returned %d, expected %d", r, want);
		size_t cnt; fstrm_control_type t;
		CHECK(fstrm_control_get_num_field_content_type(c, &cnt) == 0 && cnt == n, "number of content types");
		for (size_t i = 0; i < m.n; i++) { const uint8_t *p; size_t l; CHECK(fstrm_control_get_field_content_type(c, i, &p, &l) == 0 && l == m.len[i] && !memcmp(p, m.d[i], l), "get_field %zu", i); }
		uint32_t nt = rnd_n(9);
		r = fstrm_control_set_type(c, nt);
		CHECK((r == fstrm_res_success) == (nt >= 1 && nt <= 5), "set_type(%u)=%d", nt, r);
		CHECK(fstrm_control_get_type(c, &t) == 0 && t == (nt >= 1 && nt <= 5 ? nt : m.type), "type after set_type(%u)", nt);
		uint8_t big[400] = { 0 }; size_t bl = 250 + rnd_n(14);
		size_t before, after; fstrm_control_set_type(c, 4); fstrm_control_get_num_field_content_type(c, &before);
		r = fstrm_control_add_field_content_type(c, big, bl);
		fstrm_control_get_num_field_content_type(c, &after);
		CHECK((r == 0) == (bl <= 256) && after == before + (bl <= 256), "add_field of %zu bytes", bl);
		fstrm_control_reset(c);
		CHECK(fstrm_control_get_type(c, &t) == fstrm_res_failure && fstrm_control_get_num_field_content_type(c, &cnt) == 0 && cnt == 0, "reset");
		__real_free(qh); mc_free(&m); fstrm_control_destroy(&c);
		CHECK(c == NULL && nat_live == 0, "memory leaked: %ld blocks", nat_live);
	}
}
int main(int argc, char **argv)
{
	nat_init(argc, argv);
	if (!strcmp(argv[1], "decode")) m_decode();
	else if (!strcmp(argv[1], "encode")) m_encode(0);
	else if (!strcmp(argv[1], "roundtrip")) m_encode(1);
	else if (!strcmp(argv[1], "match")) m_match();
	else return 2;
	return nat_done();
}
