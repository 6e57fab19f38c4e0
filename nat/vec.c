/* libmy/vector.h: random operations on the two vector types of the library against plain arrays. */
#include "nat.h"
#include "fstrm/fstrm-private.h"
#include "libmy/ubuf.h"
#define MAXN (1u << 17)
static uint8_t *mod; static fs_buf *modf;
#define SAMEF(a, b) ((a).len == (b).len && (a).data == (b).data)
#define SAMEB(a, b) ((a) == (b))
#define RUN(T, E, M, SAME_, MK) \
static void run_##T(void) \
{ \
	nat_case(); long l0 = nat_live; unsigned h = rnd_n(4) ? rnd_n(70) : rnd_n(3); T *v = T##_init(h); size_t n = 0; unsigned ops = 1 + rnd_n(60); nat_note(#T " hint %u:", h); \
	CHECK(v && v->_n == 0 && T##_size(v) == 0, "not empty"); \
	for (unsigned o = 0; o < ops; o++) \
	{ \
		unsigned k; E e; \
		switch (rnd_n(9)) \
		{ \
		case 0: case 1: k = rnd_n(10); nat_note(" add*%u", k); while (k--) { MK; T##_add(v, e); M[n++] = e; } break; \
		case 2: k = rnd_n(8) ? rnd_n(200) : rnd_n(3000); nat_note(" append %u", k); { E *s = __real_malloc((k + 1) * sizeof *s); for (unsigned i = 0; i < k; i++) { MK; s[i] = e; M[n + i] = e; } T##_append(v, s, k); n += k; __real_free(s); } break; \
		case 3: k = rnd_n(3) ? rnd_n(100) : rnd_n(5000); nat_note(" reserve %u", k); { size_t a0 = v->_n_alloced; T##_reserve(v, k); CHECK(v->_n_alloced - v->_n >= k, "no room"); CHECK(v->_n_alloced == a0 || v->_n_alloced < 2 * (n + k), "grows beyond need"); CHECK(T##_ptr(v) == T##_data(v) + n, "pointer"); E *p = T##_ptr(v); for (unsigned i = 0; i < k; i++) { MK; p[i] = e; M[n + i] = e; } if (rnd_1in(2)) { k = rnd_n(k + 1); nat_note(" advance %u", k); T##_advance(v, k); n += k; } } break; \
		case 4: k = rnd_n(n + 5); nat_note(" clip %u", k); T##_clip(v, k); if (k < n) n = k; break; \
		case 5: if (rnd_1in(3)) { nat_note(" reset"); T##_reset(v); n = 0; } break; \
		case 6: if (n) { k = rnd_n(n); nat_note(" value %u", k); e = T##_value(v, k); CHECK(SAME_(e, M[k]), "element %u is wrong", k); } break; \
		case 7: if (rnd_1in(6)) { nat_note(" detach"); E *p; size_t pn; T##_detach(v, &p, &pn); CHECK(pn == n, "detached %zu of %zu", pn, n); for (size_t i = 0; i < n; i++) CHECK(SAME_(p[i], M[i]), "detached element %zu", i); free(p); n = 0; } break; \
		case 8: if (rnd_1in(3) && n < MAXN / 4) { nat_note(" extend"); T *w = T##_init(rnd_n(9)); k = rnd_n(60); for (unsigned i = 0; i < k; i++) { MK; T##_add(w, e); M[n + i] = e; } T##_extend(v, w); n += k; CHECK(T##_size(w) == k, "source changed"); T##_destroy(&w); CHECK(!w, "pointer kept"); } break; \
		} \
		CHECK(T##_size(v) == n, "size %zu, not %zu", T##_size(v), n); CHECK(v->_n_alloced >= n, "claims less than it holds"); CHECK(T##_ptr(v) == T##_data(v) + n, "end pointer"); CHECK(T##_bytes(v) == n * sizeof(E), "bytes"); \
		for (size_t i = 0; i < n; i++) if (!SAME_(T##_data(v)[i], M[i])) { CHECK(0, "element %zu is wrong", i); } \
		if (n > MAXN / 4) { T##_reset(v); n = 0; } \
		/* the room claimed is there */ if (n < v->_n_alloced) memset(T##_ptr(v), 0x5a, (v->_n_alloced - n) * sizeof(E)); \
	} \
	T##_destroy(&v); CHECK(!v, "pointer kept"); T##_destroy(&v); CHECK(nat_live == l0, "%ld blocks left", nat_live - l0); \
}
RUN(ubuf, uint8_t, mod, SAMEB, e = rnd())
RUN(fs_bufvec, fs_buf, modf, SAMEF, (e.len = rnd(), e.data = (void *)rnd()))
static size_t rstr(char *b, unsigned max) { unsigned k = rnd_n(max + 1); for (unsigned i = 0; i < k; i++) b[i] = rnd_n(6) ? 'a' + rnd_n(26) : (char)(1 + rnd_n(255)); b[k] = 0; return k; }
/* the text operations of byte buffers */
static void run_text(void)
{
	nat_case(); long l0 = nat_live; size_t n = 0; static char t[400]; ubuf *v; unsigned k, ops = 1 + rnd_n(40);
	if (rnd_1in(2)) { v = ubuf_new(); nat_note("text new:"); } else { k = rstr(t, 90); nat_note("text dup %u:", k); v = ubuf_dup_cstr(t); memcpy(mod, t, k); n = k; }
	for (unsigned o = 0; o < ops; o++)
	{
		switch (rnd_n(6))
		{
		case 0: case 1: k = rstr(t, rnd_n(5) ? 20 : 390); nat_note(" add_cstr %u", k); ubuf_add_cstr(v, t); if (n && mod[n - 1] == 0) n--; memcpy(mod + n, t, k); n += k; break;
		case 2: nat_note(" cterm"); ubuf_cterm(v); if (!n || mod[n - 1]) mod[n++] = 0; break;
		case 3: { nat_note(" cstr"); if (!n || mod[n - 1]) mod[n++] = 0; char *p = ubuf_cstr(v); CHECK(p == (char *)ubuf_data(v) && !memcmp(p, mod, n), "text"); break; }
		case 4: { int d = (int)rnd() >> rnd_n(31); char f[700]; k = rstr(t, rnd_n(5) ? 20 : 300); int m = snprintf(f, sizeof f, "<%d:%s>", d, t); nat_note(" add_fmt %d", m); ubuf_add_fmt(v, "<%d:%s>", d, t); if (n && mod[n - 1] == 0) n--; memcpy(mod + n, f, m); n += m; break; }
		case 5: { char c = n && rnd_n(3) ? (char)mod[n - 1] : (char)rnd(); nat_note(" rstrip %d", c); ubuf_rstrip(v, c); if (n && mod[n - 1] == (uint8_t)c) n--; break; }
		}
		CHECK(ubuf_size(v) == n && v->_n_alloced >= n && ubuf_ptr(v) == ubuf_data(v) + n, "size %zu, not %zu", ubuf_size(v), n);
		for (size_t i = 0; i < n; i++) if (ubuf_data(v)[i] != mod[i]) CHECK(0, "byte %zu is wrong", i);
		if (n < v->_n_alloced) memset(ubuf_ptr(v), 0x5a, v->_n_alloced - n);
	}
	if (rnd_1in(3)) { uint8_t *b = ubuf_data(v); unsigned h = rnd_n(30); nat_note(" reinit %u", h); ubuf_reinit(h, v); my_free(b); CHECK(ubuf_size(v) == 0 && ubuf_ptr(v) == ubuf_data(v) && v->_n_alloced >= 1, "reinit"); memset(ubuf_ptr(v), 0, v->_n_alloced); }
	ubuf_destroy(&v); CHECK(nat_live == l0, "%ld blocks left", nat_live - l0);
}
int main(int argc, char **argv)
{
	nat_init(argc, argv); mod = __real_malloc(MAXN); modf = __real_malloc(MAXN * sizeof *modf);
	while (nat_more(1000)) { run_ubuf(); run_fs_bufvec(); run_text(); }
	return nat_done();
}
