/* shared by the drivers of the command line tools: streams, files, children */
#include <sys/wait.h>
#include <sys/stat.h>
#include <fcntl.h>
static void put32(uint8_t *p, uint32_t v) { p[0] = v >> 24; p[1] = v >> 16; p[2] = v >> 8; p[3] = v; }
static uint32_t get32(const uint8_t *p) { return (uint32_t)p[0] << 24 | p[1] << 16 | p[2] << 8 | p[3]; }
struct bb { uint8_t *p; size_t n, cap; };
static void bb_add(struct bb *b, const void *p, size_t n) { if (b->n + n > b->cap) { b->cap = (b->n + n) * 2 + 256; b->p = __real_realloc(b->p, b->cap); } if (n) memcpy(b->p + b->n, p, n); b->n += n; }
static void bb_32(struct bb *b, uint32_t v) { uint8_t t[4]; put32(t, v); bb_add(b, t, 4); }
enum { T_ACCEPT = 1, T_START, T_STOP, T_READY, T_FINISH };
static void bb_ctl(struct bb *b, uint32_t type, const char *ct, size_t cl, bool has)
{ bb_32(b, 0); bb_32(b, 4 + (has ? 8 + cl : 0)); bb_32(b, type); if (has) { bb_32(b, 1); bb_32(b, cl); bb_add(b, ct, cl); } }
static void put_file(const char *name, const void *p, size_t n)
{ int fd = open(name, O_CREAT | O_TRUNC | O_WRONLY, 0600); size_t o = 0; while (o < n) { ssize_t r = write(fd, (const char *)p + o, n - o); if (r <= 0) _exit(3); o += r; } close(fd); }
static bool get_file(const char *name, struct bb *b)
{ int fd = open(name, O_RDONLY); b->n = 0; if (fd < 0) return false; char t[65536]; ssize_t r; while ((r = read(fd, t, sizeof t)) > 0) bb_add(b, t, r); close(fd); return true; }
/* one input file: what a correct reader finds in it */
struct in { struct bb s; bool start, end; const char *ct; size_t cl; bool has; size_t nf; struct { size_t off, len; } f[400]; };
static void in_gen(struct in *in, const char *ct, size_t cl, bool has)
{
	struct bb *s = &in->s; s->n = 0; in->nf = 0; in->ct = ct; in->cl = cl; in->has = has; size_t e[401], ne = 0;
	bb_ctl(s, T_START, ct, cl, has); size_t hdr = s->n; e[ne++] = s->n;
	int n = rnd_n(rnd_1in(20) ? 400 : 10);
	for (int i = 0; i < n; i++) {
		size_t l = 1 + rnd_n(rnd_1in(100) ? 70000 : rnd_1in(10) ? 3000 : 24); if (rnd_1in(4000)) l = 1048576;
		bb_32(s, l); in->f[in->nf].off = s->n; in->f[in->nf].len = l; in->nf++;
		bool bin = rnd_1in(2);
		for (size_t j = 0; j < l; j++) { uint8_t c = bin ? rnd() : rnd_1in(5) ? "\"\\\n\t\0\x7f\x20\x7e\x1f\x80"[rnd_n(10)] : 'a' + rnd_n(26); bb_add(s, &c, 1); }
		e[ne++] = s->n;
	}
	size_t body = s->n; bb_ctl(s, T_STOP, NULL, 0, false); in->start = in->end = true; size_t whole = s->n;
	switch (rnd_n(8)) {
	case 0: { /* truncated */
		size_t t = rnd_1in(3) ? rnd_n(whole) : rnd_1in(2) ? e[rnd_n(ne)] : body - (body > 40 ? rnd_n(40) : 0); s->n = t; in->end = false; if (t < hdr) in->start = false;
		size_t k = 0; while (k < in->nf && in->start && e[k + 1] <= t) k++; in->nf = k; break; }
	case 1: { /* something impossible instead of the STOP */
		s->n = body; in->end = false;
		switch (rnd_n(4)) {
		case 0: bb_32(s, 1048577 + (rnd_1in(2) ? rnd_n(1u << 31) : 0)); bb_add(s, "xyz", 3); break;
		case 1: bb_32(s, 0); bb_32(s, 3); bb_add(s, "\0\0\0", 3); break;
		case 2: bb_32(s, 0); bb_32(s, 4); bb_32(s, 77); break;
		case 3: bb_32(s, 0); bb_32(s, 100000); break;
		} break; }
	case 2: bb_add(s, "trailing garbage", rnd_n(17)); break;
	case 3: if (rnd_1in(3)) { s->p[rnd_n(4)] ^= 1 + rnd_n(255); in->start = in->end = false; in->nf = 0; } break;
	}
}
/* runs f in a child with its output in files; -> exit code, or -1 after a crash */
static int child(int (*f)(void), const char *outf, bool *crashed)
{
	fflush(NULL); pid_t p = fork();
	if (p == 0) {
		int o = open(outf, O_CREAT | O_WRONLY | O_TRUNC, 0600), e = open("err", O_CREAT | O_WRONLY | O_TRUNC, 0600); if (o < 0 || e < 0) _exit(99);
		dup2(o, 1); dup2(e, 2); signal(SIGALRM, SIG_DFL); alarm(30);
		int rc = f(); fflush(stdout); _exit(rc & 255);
	}
	int st = 0; while (waitpid(p, &st, 0) < 0) ;
	*crashed = !WIFEXITED(st) || WEXITSTATUS(st) == 77 || WEXITSTATUS(st) == 78 || WEXITSTATUS(st) == 79;
	if (*crashed) { struct bb e = { 0 }; if (get_file("err", &e)) { size_t n = e.n < 3000 ? e.n : 3000; ssize_t r = write(2, e.p, n); (void)r; } __real_free(e.p); }
	return WIFEXITED(st) ? WEXITSTATUS(st) : -1;
}
