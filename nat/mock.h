/* A scripted transport under the real reader/writer, and an independent reading of the protocol. */
#ifndef MOCK_H
#define MOCK_H
#include <sys/uio.h>
#include <fstrm.h>
static void put32(uint8_t *p, uint32_t v) { p[0] = v >> 24; p[1] = v >> 16; p[2] = v >> 8; p[3] = v; }
static uint32_t get32(const uint8_t *p) { return (uint32_t)p[0] << 24 | p[1] << 16 | p[2] << 8 | p[3]; }

struct mock {
	const uint8_t *in; size_t inlen, inpos;	/* what the peer sends; restarts at each open */
	uint8_t *out; size_t outlen, outcap;	/* everything written, over all opens */
	bool opened; unsigned nopen, nclose, ndestroy, nread, nwrite; /* successful opens, closes, ... */
	unsigned opcount, failat; bool failed;	/* the failat-th operation (counted from 1) fails; 0: none */
	bool partial;				/* a failing write still passes on a part */
	unsigned bad;				/* use while not open, double close... */
	bool dfail;				/* destroy fails */
};
static bool mk_fail(struct mock *m) { m->opcount++; if (m->failat && m->opcount == m->failat) { m->failed = true; return true; } return false; }
/* any result but success is a failure; STOP only where the input ends */
static fstrm_res mk_bad(void) { return rnd_1in(2) ? fstrm_res_failure : rnd_1in(2) ? fstrm_res_again : fstrm_res_invalid; }
static fstrm_res mk_open(void *o)
{
	struct mock *m = o;
	if (m->opened) m->bad++;
	if (mk_fail(m)) return mk_bad();
	m->opened = true; m->nopen++; m->inpos = 0;
	return fstrm_res_success;
}
static fstrm_res mk_close(void *o)
{
	struct mock *m = o;
	if (!m->opened) m->bad++;
	m->nclose++; m->opened = false;
	if (mk_fail(m)) return mk_bad();
	return fstrm_res_success;
}
static fstrm_res mk_read(void *o, void *d, size_t n)
{
	struct mock *m = o;
	if (!m->opened) m->bad++;
	m->nread++;
	if (mk_fail(m)) return mk_bad();
	if (n > m->inlen - m->inpos) { size_t k = m->inlen - m->inpos; memcpy(d, m->in + m->inpos, k); m->inpos = m->inlen; return k ? fstrm_res_failure : fstrm_res_stop; }
	memcpy(d, m->in + m->inpos, n); m->inpos += n;
	return fstrm_res_success;
}
static void mk_put(struct mock *m, const void *p, size_t n)
{
	if (m->outlen + n > m->outcap) { m->outcap = (m->outlen + n) * 2 + 256; m->out = __real_realloc(m->out, m->outcap); }
	if (n) memcpy(m->out + m->outlen, p, n);
	m->outlen += n;
}
static fstrm_res mk_write(void *o, const struct iovec *iov, int cnt)
{
	struct mock *m = o;
	bool f;
	if (!m->opened) m->bad++;
	m->nwrite++;
	f = mk_fail(m);
	if (f && !m->partial) return mk_bad();
	size_t tot = 0, lim = (size_t)-1;
	for (int i = 0; i < cnt; i++) tot += iov[i].iov_len;
	if (f) lim = tot ? rnd_n(tot) : 0;
	for (int i = 0; i < cnt; i++) { size_t k = iov[i].iov_len < lim ? iov[i].iov_len : lim; mk_put(m, iov[i].iov_base, k); lim -= k; }
	return f ? mk_bad() : fstrm_res_success;
}
static fstrm_res mk_destroy(void *o) { struct mock *m = o; m->ndestroy++; if (m->opened) m->bad++; return m->dfail ? fstrm_res_failure : fstrm_res_success; }
static struct fstrm_rdwr *mk_rdwr(struct mock *m, bool rd, bool wr)
{
	struct fstrm_rdwr *r = fstrm_rdwr_init(m);
	fstrm_rdwr_set_open(r, mk_open); fstrm_rdwr_set_close(r, mk_close); fstrm_rdwr_set_destroy(r, mk_destroy);
	if (rd) fstrm_rdwr_set_read(r, mk_read);
	if (wr) fstrm_rdwr_set_write(r, mk_write);
	return r;
}

struct ref { uint32_t type; size_t n; size_t off[200], len[200]; };
/* control frame payload (no header), independently of the library */
static bool ref_parse(const uint8_t *w, size_t L, struct ref *r)
{
	size_t o = 4;
	r->n = 0;
	if (L > 512 || L < 4) return false;
	r->type = get32(w);
	if (r->type < 1 || r->type > 5) return false;
	while (o < L) {
		if (L - o < 8 || get32(w + o) != 1) return false;
		uint32_t fl = get32(w + o + 4);
		if (fl > L - o - 8 || fl > 256) return false;
		r->off[r->n] = o + 8; r->len[r->n] = fl; r->n++;
		o += 8 + fl;
	}
	if (r->type == 2 && r->n > 1) return false;
	if ((r->type == 3 || r->type == 5) && r->n > 0) return false;
	return true;
}
enum { T_ACCEPT = 1, T_START, T_STOP, T_READY, T_FINISH };
struct ct { uint8_t d[256]; size_t len; };
static struct ct ct_pool[12];
static void ct_gen_pool(void)
{
	for (int i = 0; i < 12; i++) {
		struct ct *c = &ct_pool[i];
		c->len = i == 0 ? 0 : i == 1 ? 256 : i == 2 ? 255 : i == 3 ? 100 : 1 + rnd_n(20);
		for (size_t k = 0; k < 256; k++) c->d[k] = rnd_1in(4) ? rnd() : 'a' + rnd_n(2);
		if (i > 4 && rnd_1in(2)) { memcpy(c->d, ct_pool[i - 1].d, 256); if (rnd_1in(2)) c->len = ct_pool[i - 1].len; if (c->len) c->d[c->len - 1] ^= 1; }
		if (i > 4 && rnd_1in(3)) { memcpy(c->d, ct_pool[i - 1].d, 256); if (ct_pool[i - 1].len < 250) c->len = ct_pool[i - 1].len + 1; }
	}
}
static bool ct_eq(const struct ct *c, const uint8_t *p, size_t n) { return c->len == n && memcmp(c->d, p, n) == 0; }
/* does the frame's set of types admit this one */
static bool ref_match(const uint8_t *w, const struct ref *r, const struct ct *c)
{
	if (r->n == 0) return true;
	for (size_t i = 0; i < r->n; i++) if (ct_eq(c, w + r->off[i], r->len[i])) return true;
	return false;
}
struct bb { uint8_t *p; size_t n, cap; };
static void bb_add(struct bb *b, const void *p, size_t n)
{
	if (b->n + n > b->cap) { b->cap = (b->n + n) * 2 + 64; b->p = __real_realloc(b->p, b->cap); }
	if (n) memcpy(b->p + b->n, p, n);
	b->n += n;
}
static void bb_32(struct bb *b, uint32_t v) { uint8_t t[4]; put32(t, v); bb_add(b, t, 4); }
/* canonical frame with escape and length */
static size_t bb_ctl(struct bb *b, uint32_t type, const struct ct **cts, size_t n)
{
	size_t L = 4;
	for (size_t i = 0; i < n; i++) L += 8 + cts[i]->len;
	bb_32(b, 0); bb_32(b, L); bb_32(b, type);
	for (size_t i = 0; i < n; i++) { bb_32(b, 1); bb_32(b, cts[i]->len); bb_add(b, cts[i]->d, cts[i]->len); }
	return L;
}
/* one control frame with escape at *pos; false: unreadable (then nothing more is defined) */
static bool ref_ctl_at(const uint8_t *s, size_t n, size_t *pos, bool esc, struct ref *r, size_t *base)
{
	size_t p = *pos;
	if (esc) { if (n - p < 4 || get32(s + p) != 0) return false; p += 4; }
	if (n - p < 4) return false;
	size_t L = get32(s + p); p += 4;
	if (L > 512 || n - p < L) return false;
	if (!ref_parse(s + p, L, r)) return false;
	*base = p; *pos = p + L;
	return true;
}
#endif
