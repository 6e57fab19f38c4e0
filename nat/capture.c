/*
 * fstrm_capture itself (the real main, in a child process per case) with clients in the same thread:
 * event_base_dispatch is replaced by a scripted sequence of client steps and turns of the real event loop.
 */
#include "nat.h"
#include <sys/socket.h>
#include <sys/un.h>
#include <sys/ioctl.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <linux/sockios.h>
#include <netinet/in.h>
#include <fcntl.h>
#define main fstrm_capture_main
#include "src/fstrm_capture.c"
#undef main
static bool mode_proto, mode_out;
static void put32(uint8_t *p, uint32_t v) { p[0] = v >> 24; p[1] = v >> 16; p[2] = v >> 8; p[3] = v; }
static uint32_t get32(const uint8_t *p) { return (uint32_t)p[0] << 24 | p[1] << 16 | p[2] << 8 | p[3]; }
struct bb { uint8_t *p; size_t n, cap; };
static void bb_add(struct bb *b, const void *p, size_t n) { if (b->n + n > b->cap) { b->cap = (b->n + n) * 2 + 256; b->p = __real_realloc(b->p, b->cap); } if (n) memcpy(b->p + b->n, p, n); b->n += n; }
static void bb_32(struct bb *b, uint32_t v) { uint8_t t[4]; put32(t, v); bb_add(b, t, 4); }
/* control frame with the given content types */
static void ctl(struct bb *b, uint32_t type, const char **ct, const size_t *cl, size_t n)
{
	uint32_t len = 4; for (size_t i = 0; i < n; i++) len += 8 + cl[i];
	bb_32(b, 0); bb_32(b, len); bb_32(b, type);
	for (size_t i = 0; i < n; i++) { bb_32(b, 1); bb_32(b, cl[i]); bb_add(b, ct[i], cl[i]); }
}
enum { T_ACCEPT = 1, T_START, T_STOP, T_READY, T_FINISH };
/* ---- the case ---- */
static char own[300]; static size_t ownlen, hw; static int maxconn, split; static bool cal; static char sock[200], pat[200]; static long now = 1700000000;
#define NCL 10
struct fr { size_t end; uint32_t off, len; };	/* a data frame that must be captured once the client has sent `end` bytes */
static struct cl {
	int fd; bool open, dead; int kind; struct bb s; size_t sent; struct fr *f; size_t nf, nfcap; size_t kill, stop, acc;	/* stream positions after which: killed, stopped, ACCEPT due (SIZE_MAX: never) */
	struct bb got; bool eof; size_t fin; size_t limit;
} cl[NCL]; static int ncl; static bool multi;
static int nacc, alive, maxalive, nbind; static bool drop[NCL + 5]; static bool inject; static int fail_at; static int fail_kind; static bool failed;
static long base_live;
static struct seg { char name[260]; struct bb want_dummy; } seg[64]; static int nseg; static char newname[260]; static long open_ts;
static bool use_stdout, use_tcp, tty, refuse, bindfail; static int sigfail; static char want_addr[100]; static uint8_t addr[16]; static int fam, port; static char errn[300];
static const char *cdesc(void) { return nat_desc; }
/* ---- replaced functions ---- */
int __wrap_isatty(int fd); int __wrap_isatty(int fd) { return fd == 1 ? tty : 0; }
int __real_sigaction(int, const struct sigaction *, struct sigaction *); int __wrap_sigaction(int g, const struct sigaction *a, struct sigaction *o);
int __wrap_sigaction(int g, const struct sigaction *a, struct sigaction *o) { if (g == sigfail && a) { failed = true; errno = EINVAL; return -1; } return __real_sigaction(g, a, o); }
FILE *__real_fdopen(int, const char *); FILE *__wrap_fdopen(int fd, const char *m);
FILE *__wrap_fdopen(int fd, const char *m) { if (fail_kind == 4 && fail_at == 1) { failed = true; errno = ENOMEM; return NULL; } return __real_fdopen(fd, m); }
struct evconnlistener *__real_evconnlistener_new_bind(struct event_base *, evconnlistener_cb, void *, unsigned, int, const struct sockaddr *, int);
struct evconnlistener *__wrap_evconnlistener_new_bind(struct event_base *b, evconnlistener_cb cb, void *p, unsigned fl, int bl, const struct sockaddr *sa, int sl);
struct evconnlistener *__wrap_evconnlistener_new_bind(struct event_base *b, evconnlistener_cb cb, void *p, unsigned fl, int bl, const struct sockaddr *sa, int sl)
{
	struct sockaddr_un su = { .sun_family = AF_UNIX }; strcpy(su.sun_path, sock);
	CHECK(!refuse, "options that make no sense are accepted");
	if (bindfail) { failed = true; errno = EADDRINUSE; return NULL; }
	if (use_tcp)
	{
		const struct sockaddr_in *a4 = (const void *)sa; const struct sockaddr_in6 *a6 = (const void *)sa;
		CHECK(sa->sa_family == fam, "listens on another kind of address");
		if (fam == AF_INET) CHECK(sl == sizeof *a4 && ntohs(a4->sin_port) == port && !memcmp(&a4->sin_addr, addr, 4), "listens on another address or port");
		else CHECK(sl == sizeof *a6 && ntohs(a6->sin6_port) == port && !memcmp(&a6->sin6_addr, addr, 16), "listens on another address or port");
		/* reachable for the scripted clients */
		return __real_evconnlistener_new_bind(b, cb, p, fl, bl, (struct sockaddr *)&su, SUN_LEN(&su));
	}
	CHECK(sa->sa_family == AF_UNIX && sl <= (int)sizeof su && !strcmp(((const struct sockaddr_un *)sa)->sun_path, sock), "listens on another socket path");
	return __real_evconnlistener_new_bind(b, cb, p, fl, bl, sa, sl);
}
time_t __wrap_time(time_t *t); time_t __wrap_time(time_t *t) { if (t) *t = now; return now; }
struct bufferevent *__real_bufferevent_socket_new(struct event_base *, evutil_socket_t, int);
struct bufferevent *__wrap_bufferevent_socket_new(struct event_base *b, evutil_socket_t fd, int o);
struct bufferevent *__wrap_bufferevent_socket_new(struct event_base *b, evutil_socket_t fd, int o)
{
	int i = nacc++;
	if (i < NCL && drop[i]) return NULL;
	alive++; if (alive > maxalive) maxalive = alive;
	CHECK(maxconn <= 0 || alive <= maxconn, "%d connections at once, %d allowed", alive, maxconn);
	return __real_bufferevent_socket_new(b, fd, o);
}
void __real_bufferevent_free(struct bufferevent *); void __wrap_bufferevent_free(struct bufferevent *b);
void __wrap_bufferevent_free(struct bufferevent *b) { alive--; __real_bufferevent_free(b); }
size_t __real_fwrite(const void *, size_t, size_t, FILE *); size_t __wrap_fwrite(const void *p, size_t a, size_t n, FILE *f);
static int wcount;
static bool w_fail(FILE *f) { return f != stderr && fail_kind == 1 && ++wcount == fail_at; }
size_t __wrap_fwrite(const void *p, size_t a, size_t n, FILE *f) { if (w_fail(f)) { failed = true; errno = ENOSPC; if (rnd_1in(2)) f->_flags |= 0x20; size_t k = n > 1 ? n - 1 : 0; return k ? __real_fwrite(p, a, k, f) : 0; } return __real_fwrite(p, a, n, f); }
size_t __real_fwrite_unlocked(const void *, size_t, size_t, FILE *); size_t __wrap_fwrite_unlocked(const void *p, size_t a, size_t n, FILE *f);
size_t __wrap_fwrite_unlocked(const void *p, size_t a, size_t n, FILE *f) { return __wrap_fwrite(p, a, n, f); }
int __real_fclose(FILE *); int __wrap_fclose(FILE *f);
int __wrap_fclose(FILE *f) { int r = __real_fclose(f); if (fail_kind == 2 && ++wcount == fail_at) { failed = true; errno = ENOSPC; return -1; } return r; }
int __real_open(const char *, int, ...); int __wrap_open(const char *n, int fl, int m);
int __wrap_open(const char *n, int fl, int m) { if (fail_kind == 3 && ++wcount == fail_at) { failed = true; errno = EACCES; return -1; } return __real_open(n, fl, m); }
int __real_fflush(FILE *); int __wrap_fflush(FILE *f);	/* the disk is full for a moment: stdio remembers */
int __wrap_fflush(FILE *f) { if (f && f != stderr && fail_kind == 5 && ++wcount == fail_at) { failed = true; f->_flags |= 0x20; errno = ENOSPC; return EOF; } return __real_fflush(f); }
int __wrap_fflush_unlocked(FILE *f); int __wrap_fflush_unlocked(FILE *f) { return __wrap_fflush(f); }
static void verify(bool final, int rc);
void __wrap_exit(int c); void __real_exit(int);
void __wrap_exit(int c)
{
	CHECK(failed || refuse, "the program gives up (exit %d) although nothing failed", c);
	CHECK(c != 0, "the program gives up after a failure with exit code 0");
	_exit(0);
}
/* ---- clients ---- */
static uint8_t pbyte(int id, size_t seq, size_t i) { return (uint8_t)(id * 37 + seq * 11 + i * 7 + (i >> 8)); }
static void data(struct cl *c, int id, size_t len, bool want)
{
	struct bb *s = &c->s; size_t seq = c->nf;
	bb_32(s, len); size_t off = s->n;
	uint8_t *t = __real_malloc(len + 8); for (size_t i = 0; i < len; i++) t[i] = pbyte(id, seq, i);
	if (len >= 8) { put32(t, 0xC0DE0000u + id); put32(t + 4, seq); }
	bb_add(s, t, len); __real_free(t);
	if (!want) return;
	if (len + 4 > hw) return;		/* larger than the buffer: skipped */
	if (c->nf == c->nfcap) { c->nfcap = c->nfcap * 2 + 16; c->f = __real_realloc(c->f, c->nfcap * sizeof *c->f); }
	c->f[c->nf++] = (struct fr){ s->n, off, len };
}
static size_t flen(void)
{
	size_t r, m = multi ? 8 : 1;
	switch (rnd_n(8)) { case 0: r = m; break; case 1: r = m + rnd_n(8); break; case 2: r = hw - 4 - rnd_n(3); break; case 3: r = hw - 4 + rnd_n(4); break; case 4: r = hw + rnd_n(3 * hw); break; case 5: r = 256 * (1 + rnd_n(4)); break; case 6: r = rnd_1in(2) ? m : m + rnd_n(300); break; default: r = m + rnd_n(300); }
	return r < m ? m : r;
}
static void gen(struct cl *c, int id)
{
	const char *ct[4]; size_t clen[4]; size_t n = 0; static char other[4][300];
	c->kind = rnd_1in(2) ? 0 : rnd_n(12); c->kill = c->stop = c->acc = SIZE_MAX; c->fd = -1; c->limit = SIZE_MAX;
#define TY(match) do { n = rnd_n(4); for (size_t i = 0; i < n; i++) { do { clen[i] = rnd_1in(3) ? ownlen : rnd_n(256); if (clen[i] > 60) clen[i] = rnd_n(60); memset(other[i], 'a' + rnd_n(4), sizeof other[i]); memcpy(other[i], own, rnd_1in(2) && clen[i] ? clen[i] - 1 : 0); } while (clen[i] == ownlen && !memcmp(other[i], own, ownlen)); ct[i] = other[i]; } \
	if (match) { if (n == 0) n = 1; size_t k = rnd_n(n); ct[k] = own; clen[k] = ownlen; } } while (0)
#define KILL do { c->kill = c->s.n; goto junk; } while (0)
	bool m;
	if (c->kind == 2) { TY(1); if (n > 1) { ct[0] = own; clen[0] = ownlen; n = 1; } ctl(&c->s, T_START, ct, clen, n); KILL; }
	if (c->kind == 3) { data(c, id, multi ? 9 : 1 + rnd_n(20), false); KILL; }
	if (c->kind == 4) { uint32_t l = rnd_1in(2) ? rnd_n(4) : 513 + rnd_n(1000); bb_32(&c->s, 0); bb_32(&c->s, rnd_1in(4) ? 0xffffffffu - rnd_n(9) : l); c->kill = c->s.n; goto junk; }
	if (c->kind == 5) { ctl(&c->s, rnd_1in(2) ? T_STOP : rnd_1in(2) ? T_FINISH : T_ACCEPT, 0, 0, 0); KILL; }
	TY(c->kind != 1); m = c->kind != 1 || n == 0;
	if (m && n && rnd_1in(6)) {	/* the longest control frame */
		size_t R = 484 - ownlen; n = 3; ct[0] = own; clen[0] = ownlen; ct[1] = other[1]; ct[2] = other[2]; clen[1] = R / 2; clen[2] = R - R / 2; memset(other[1], 'A', 300); memset(other[2], 'B', 300);
	}
	ctl(&c->s, T_READY, ct, clen, n);
	/* an empty list matches everything */
	if (!m) KILL;
	c->acc = c->s.n;
	if (c->kind == 6) { data(c, id, multi ? 9 : 1 + rnd_n(20), false); KILL; }
	if (c->kind == 7) { ctl(&c->s, rnd_1in(2) ? T_READY : T_STOP, 0, 0, 0); KILL; }
	TY(0); if (n > 1) n = 1; if (c->kind == 8 && n == 0) { n = 1; ct[0] = "zz-other"; clen[0] = 8; }
	if (c->kind != 8) { n = rnd_1in(4) ? 0 : 1; ct[0] = own; clen[0] = ownlen; }
	ctl(&c->s, T_START, ct, clen, n);
	if (c->kind == 8) KILL;
	for (size_t k = rnd_n(14); k--;) data(c, id, flen(), true);
	if (c->kind == 9) { ctl(&c->s, rnd_1in(2) ? T_READY : rnd_1in(2) ? T_START : T_FINISH, 0, 0, 0); KILL; }
	if (c->kind == 10) { bb_32(&c->s, 0); bb_32(&c->s, 4); bb_32(&c->s, rnd_1in(2) ? 0 : 6 + rnd_n(99)); KILL; }
	if (c->kind == 11) return;		/* never stops */
	ctl(&c->s, T_STOP, 0, 0, 0); c->stop = c->s.n;
	if (!rnd_1in(3)) return;
	/* something after the end: never recorded, and the connection is closed with or without FINISH */
	if (rnd_1in(2)) ctl(&c->s, rnd_1in(2) ? T_START : rnd_1in(2) ? T_READY : T_STOP, 0, 0, 0); else data(c, id, multi ? 9 : 1 + rnd_n(30), false);
	KILL;
junk:
	if (rnd_1in(2)) { for (size_t k = 1 + rnd_n(3); k--;) data(c, id, multi ? 9 : 1 + rnd_n(30), false); }
}
static bool accepted(int i) { return i < nacc && !drop[i]; }
static void cl_recv(struct cl *c)
{
	uint8_t t[4096]; ssize_t r;
	if (!c->open || c->eof) return;
	while ((r = recv(c->fd, t, sizeof t, MSG_DONTWAIT)) > 0) bb_add(&c->got, t, r);
	if (r == 0 || (r < 0 && errno != EAGAIN && errno != EWOULDBLOCK && errno != EINTR)) c->eof = true;
}
static void pump(struct event_base *b)
{
	uint64_t last = 1; int same = 0;
	for (int it = 0; it < 4000 && same < 5; it++) {
		event_base_loop(b, EVLOOP_NONBLOCK);
		uint64_t h = 14695981039346656037ull;
		for (int i = 0; i < ncl; i++) { int q = 0; if (cl[i].open) { cl_recv(&cl[i]); ioctl(cl[i].fd, SIOCOUTQ, &q); } h = (h ^ (uint64_t)q) * 1099511628211ull; h = (h ^ cl[i].got.n ^ cl[i].eof << 30) * 1099511628211ull; }
		h = (h ^ alive ^ nacc << 8) * 1099511628211ull;
		if (h == last) same++; else { same = 0; last = h; }
	}
}
static size_t done_frames(int i) { struct cl *c = &cl[i]; size_t n = 0; if (!accepted(i)) return 0; while (n < c->nf && c->f[n].end <= (c->sent < c->limit ? c->sent : c->limit)) n++; return n; }
static size_t total_done(void) { size_t t = 0; for (int i = 0; i < ncl; i++) t += done_frames(i); return t; }
static void note_seg(void)
{
	CHECK(nseg < 60, "internal");
	if (cal) { struct tm tm; time_t t = now; gmtime_r(&t, &tm); strftime(seg[nseg].name, sizeof seg[nseg].name, pat, &tm); }
	else snprintf(seg[nseg].name, sizeof seg[nseg].name, "%s", pat);
	nseg++; open_ts = now;
}
static size_t seen_frames;	/* captured frames up to the last quiet moment */
static void check_quiet(void)
{
	/* what the server must have done by now */
	size_t t = total_done();
	if (t > seen_frames && cal && split > 0 && now >= open_ts + split) note_seg();
	seen_frames = t;
	int waiting = 0;
	for (int i = 0; i < ncl; i++) {
		struct cl *c = &cl[i]; uint8_t t[2000]; struct bb e = { 0 };
		if (!accepted(i)) { if (i >= nacc && c->open) waiting++; if (i < nacc && c->open) CHECK(c->eof, "client %d: a connection that could not be set up is left open", i); continue; }
		bool killed = c->sent >= c->kill, stopped = c->sent >= c->stop;
		const char *o[1] = { own }; size_t ol[1] = { ownlen };
		if (c->sent >= c->acc) ctl(&e, T_ACCEPT, o, ol, 1);
		size_t a = e.n;
		if (stopped) ctl(&e, T_FINISH, 0, 0, 0);
		CHECK(c->got.n <= e.n && !nat_cmp(c->got.p, e.p, c->got.n), "client %d received other bytes than the ACCEPT and FINISH that are due", i);
		if (c->open && !killed) { CHECK(c->got.n == e.n, "client %d: the answer that is due was not sent (%zu of %zu bytes)", i, c->got.n, e.n); CHECK(c->eof == stopped, stopped ? "client %d: the connection is not closed after FINISH" : "client %d: the connection is closed without a reason", i); }
		if (c->open && killed) CHECK(c->eof, "client %d: the connection is not closed after a violation (kind %d)", i, c->kind);
		__real_free(e.p); (void)a; (void)t;
	}
	CHECK(!waiting || (maxconn > 0 && alive == maxconn), "%d clients wait although only %d of %d places are taken", waiting, alive, maxconn);
	int exp = 0; for (int i = 0; i < ncl; i++) if (accepted(i) && cl[i].open && !cl[i].eof) exp++;
	CHECK(alive == exp, "%d connections are open, expected %d", alive, exp);
}
static uint8_t *slurp(const char *n, size_t *l) { FILE *f = fopen(n, "r"); if (!f) return NULL; struct stat st; fstat(fileno(f), &st); uint8_t *b = __real_malloc(st.st_size + 1); *l = fread(b, 1, st.st_size, f); __real_fclose(f); return b; }
static void verify(bool final, int rc)
{
	if (failed) return;
	size_t nx[NCL] = { 0 }, lim[NCL]; struct bb st = { 0 }, sp = { 0 }; const char *o[1] = { own }; size_t ol[1] = { ownlen };
	(void)rc;
	for (int i = 0; i < ncl; i++) lim[i] = done_frames(i);
	ctl(&st, T_START, o, ol, 1); ctl(&sp, T_STOP, 0, 0, 0);
	FILE *ef = final ? fopen(errn, "r") : NULL; static char line[5000];
	for (int k = 0; k < nseg; k++) {
		size_t l; uint8_t *b = slurp(seg[k].name, &l); bool last = k == nseg - 1;
		CHECK(b, "output file %d (%s) is missing", k, seg[k].name);
		CHECK(l >= st.n && !memcmp(b, st.p, st.n), "output file %d does not begin with START and the content type", k);
		size_t p = st.n, nfr = 0;
		while (p + 4 <= l && get32(b + p) != 0) {
			uint32_t n = get32(b + p); CHECK(p + 4 + n <= l, "output file %d ends inside a frame", k);
			int i; for (i = 0; i < ncl; i++) if (nx[i] < lim[i] && cl[i].f[nx[i]].len == n && !memcmp(cl[i].s.p + cl[i].f[nx[i]].off, b + p + 4, n)) break;
			CHECK(i < ncl, "output file %d, offset %zu: a frame of %u bytes that is not the next frame of any client", k, p, n);
			nx[i]++; p += 4 + n; nfr++;
		}
		if (final || !last) { CHECK(l - p == sp.n && !memcmp(b + p, sp.p, sp.n), "output file %d (offset %zu of %zu) does not end with one STOP", k, p, l); }
		else CHECK(l == p, "output file %d: bytes after the last frame", k);
		if (ef) {	/* the report of what was written */
			char *q = NULL; while (!q && fgets(line, sizeof line, ef)) { q = strstr(line, "closed output file "); if (q) q = strstr(q, "(wrote "); }
			CHECK(q, "output file %d: not reported as closed", k);
			size_t rf = 0, rb = 0; CHECK(sscanf(q, "(wrote %zu frames, %zu bytes)", &rf, &rb) == 2 && rf == nfr + 2 && rb == l, "output file %d: reported as %zu frames, %zu bytes; it has %zu and %zu", k, rf, rb, nfr + 2, l);
		}
		__real_free(b);
	}
	if (ef) __real_fclose(ef);
	for (int i = 0; i < ncl; i++) CHECK(nx[i] == lim[i], "client %d: %zu of %zu frames are in the output (kind %d, sent %zu)", i, nx[i], lim[i], cl[i].kind, cl[i].sent);
	__real_free(st.p); __real_free(sp.p);
}
int __real_event_base_dispatch(struct event_base *b); int __wrap_event_base_dispatch(struct event_base *b);
int __wrap_event_base_dispatch(struct event_base *b)
{
	note_seg(); CHECK(!refuse, "options that make no sense are accepted"); CHECK(!failed || fail_kind == 5, "the program runs although it could not be set up");
	struct sigaction sa; __real_sigaction(SIGPIPE, NULL, &sa); CHECK(sa.sa_handler == SIG_IGN, "SIGPIPE is not ignored");
	base_live = nat_live;
	int steps = 5 + rnd_n(mode_proto ? 60 : 40);
	for (int q = 0; q < steps; q++) switch (rnd_n(12)) {
	case 0: case 1: if (ncl < (multi ? NCL : 1)) {
		struct cl *c = &cl[ncl]; gen(c, ncl); c->fd = socket(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0); struct sockaddr_un sa = { .sun_family = AF_UNIX }; strcpy(sa.sun_path, sock);
		if (connect(c->fd, (struct sockaddr *)&sa, sizeof sa) == 0) { c->open = true; nat_note("connect %d kind %d;", ncl, c->kind); ncl++; }
		else { close(c->fd); c->s.n = c->nf = 0; }
		} break;
	case 2: case 3: case 4: case 5: case 6: if (ncl) {
		int i = rnd_n(ncl); struct cl *c = &cl[i]; if (!c->open || c->eof) break;
		size_t left = c->s.n - c->sent, k = rnd_1in(3) ? left : rnd_1in(2) ? rnd_n(left + 1) : rnd_n(40); if (k > left) k = left; if (!k) break;
		ssize_t r = send(c->fd, c->s.p + c->sent, k, MSG_DONTWAIT | MSG_NOSIGNAL); if (r > 0) { nat_note("send %d:%zd;", i, r); c->sent += r; }
		} break;
	case 7: case 8: case 9: pump(b); nat_note("turn;"); check_quiet(); if (rnd_1in(6)) { raise(SIGHUP); pump(b); verify(false, 0); nat_note("flush;"); } break;
	case 10: pump(b); check_quiet(); if (ncl) { int i = rnd_n(ncl); if (cl[i].open && (accepted(i) || !cl[i].sent) && rnd_1in(2)) { nat_note("close %d;", i); close(cl[i].fd); cl[i].open = false; pump(b); check_quiet(); } } break;
	case 11: pump(b); check_quiet();
		if (!mode_out || rnd_1in(2)) { long d = 1 + rnd_n(split > 0 ? 2 * split : 5); now += d; nat_note("time+%ld;", d); }
		else if (nseg < 40) {
			nat_note("USR1;"); if (use_stdout) { raise(SIGUSR1); pump(b); raise(SIGHUP); pump(b); verify(false, 0); break; }
			if (cal) now++; else { char t[300]; snprintf(t, sizeof t, "%s.%d", seg[nseg - 1].name, nseg); rename(seg[nseg - 1].name, t); strcpy(seg[nseg - 1].name, t); }
			raise(SIGUSR1); pump(b); note_seg(); raise(SIGHUP); pump(b); verify(false, 0);
		} break;
	}
	for (int i = 0; i < ncl; i++) if (rnd_1in(2)) { struct cl *c = &cl[i]; pump(b); check_quiet(); while (c->open && !c->eof && c->sent < c->s.n) { ssize_t r = send(c->fd, c->s.p + c->sent, c->s.n - c->sent, MSG_DONTWAIT | MSG_NOSIGNAL); if (r <= 0) break; c->sent += r; if (!accepted(i)) break; pump(b); check_quiet(); } }
	pump(b); check_quiet();
	bool allgone = rnd_1in(2);
	if (allgone) {
		/* every connection ends: everything a connection used is given back */
		for (int i = 0; i < ncl; i++) if (accepted(i) || !cl[i].sent) { if (cl[i].open) { close(cl[i].fd); cl[i].open = false; } pump(b); check_quiet(); }
		bool any = false; for (int i = 0; i < ncl; i++) any |= cl[i].open;
		if (!any) CHECK(nat_live == base_live, "memory of finished connections is not released (%ld blocks)", nat_live - base_live);
	}
	nat_note("TERM;");
	if (!failed) {
		static struct itimerval_ { int x; } z; (void)z;
		raise(rnd_1in(2) ? SIGTERM : SIGINT);
		return __real_event_base_dispatch(b);
	}
	return 0;
}
static void child(void)
{
	char hb[20], cb[20], sb[20]; char *av[24]; int ac = 0; bool del;
	snprintf(errn, sizeof errn, "%s/e", getenv("NAT_DIR")); stderr = fopen(errn, "we"); setvbuf(stderr, NULL, _IOLBF, 4096);
	ownlen = 1 + rnd_n(rnd_1in(4) ? 255 : 20); for (size_t i = 0; i < ownlen; i++) own[i] = 'a' + rnd_n(26); own[ownlen] = 0;
	hw = rnd_1in(4) ? 262144 : 520 + rnd_n(6000); multi = rnd_1in(2) || mode_proto; maxconn = rnd_1in(2) ? 1 + rnd_n(3) : 0;
	cal = mode_out ? rnd_1in(2) : rnd_1in(6); split = cal && rnd_1in(2) ? 1 + rnd_n(8) : 0;
	snprintf(sock, sizeof sock, "%s/s", getenv("NAT_DIR")); snprintf(pat, sizeof pat, "%s/o%s", getenv("NAT_DIR"), cal ? "-%s" : "");
	use_stdout = !cal && rnd_1in(6); use_tcp = rnd_1in(4); bindfail = mode_out && rnd_1in(30); sigfail = mode_out && rnd_1in(30) ? (rnd_1in(3) ? SIGPIPE : rnd_1in(2) ? SIGTERM : SIGINT) : 0;
	if (use_tcp) {
		port = rnd_1in(5) ? (rnd_1in(2) ? 65535 : 0) : (int)rnd_n(65536);
		if (rnd_1in(2)) { fam = AF_INET; for (int i = 0; i < 4; i++) addr[i] = rnd(); sprintf(want_addr, "%u.%u.%u.%u", addr[0], addr[1], addr[2], addr[3]); }
		else { fam = AF_INET6; for (int i = 0; i < 16; i++) addr[i] = rnd(); char *q = want_addr; for (int i = 0; i < 8; i++) q += sprintf(q, "%s%x", i ? ":" : "", addr[2 * i] << 8 | addr[2 * i + 1]); }
	}
	fail_kind = mode_out && rnd_1in(3) ? 1 + rnd_n(5) : 0; if (use_stdout && fail_kind > 2) fail_kind = 0; fail_at = 1 + rnd_n(fail_kind == 1 ? 20 : 3);
	for (int i = 0; i < NCL; i++) drop[i] = mode_proto && rnd_1in(25);
	/* open() is used for the output file only once main has begun */
	av[ac++] = "fstrm_capture"; 
	int bad = mode_out && rnd_1in(6) ? 1 + rnd_n(10) : 0; char pb[40], big[200]; memset(big, 'x', 150); big[150] = 0; sprintf(pb, "%d", port);
	if (bad == 5 && !use_stdout) bad = 0; if (bad == 8 && !use_tcp) bad = 0; if (bad == 9 && !use_tcp) bad = 0; if (bad == 10 && use_tcp) bad = 0; if ((bad == 6 || bad == 7) && cal) bad = 0; if (bad && use_tcp && rnd_1in(2)) bad = 8 + rnd_n(2); refuse = bad; tty = bad == 5;
	if (bad == 8) strcpy(pb, rnd_1in(3) ? "65536" : rnd_1in(2) ? "12x" : "-1"); if (bad == 9) strcpy(want_addr, rnd_1in(2) ? "1.2.3.4.5" : "localhost.");
	if (bad != 1) { av[ac++] = "-t"; av[ac++] = own; }
	if (bad != 2) { if (use_tcp) { av[ac++] = "-a"; av[ac++] = want_addr; if (bad != 3) { av[ac++] = "-p"; av[ac++] = pb; } else refuse = true; } else { av[ac++] = "-u"; av[ac++] = bad == 10 ? big : sock; if (bad == 3) refuse = false; } }
	if (bad != 4) { av[ac++] = "-w"; av[ac++] = use_stdout ? "-" : pat; }
	if (bad == 6) { av[ac++] = "--localtime"; av[ac++] = "--gmtime"; } if (bad == 7) { av[ac++] = "-s"; av[ac++] = "5"; }
	if (hw != 262144) { sprintf(hb, "%zu", hw); av[ac++] = "-b"; av[ac++] = hb; }
	if (maxconn) { sprintf(cb, "%d", maxconn); av[ac++] = "-c"; av[ac++] = cb; }
	if (split) { sprintf(sb, "%d", split); av[ac++] = "-s"; av[ac++] = sb; }
	if (cal) av[ac++] = "--gmtime";
	if (rnd_1in(8)) av[ac++] = "-ddddd";
	av[ac] = NULL;
	nat_note("options:"); for (int i = 1; i < ac; i++) nat_note(" %s", av[i]); nat_note(" fail %d at %d, bind fails %d, signal %d cannot be set, terminal %d\n", fail_kind, fail_at, bindfail, sigfail, tty); (void)del;
	if (rnd_1in(3)) { char n[300]; snprintf(n, sizeof n, cal ? "%.*s%ld" : "%.*s", (int)(cal ? strlen(pat) - 2 : strlen(pat)), pat, now); int f = creat(n, 0666); static uint8_t junk[40000]; for (size_t i = 0; i < sizeof junk; i++) junk[i] = rnd(); if (write(f, junk, rnd_n(sizeof junk)) < 0) {} close(f); nat_note("an old output file is in the way\n"); }
	if (use_stdout) stdout = fopen(pat, "we");
	int rc = fstrm_capture_main(ac, av);
	CHECK(!refuse || rc != 0, "options that make no sense are accepted"); if (refuse) _exit(0);
	if (failed) { CHECK(rc != 0, "writing failed, but the program reports success"); _exit(0); }
	CHECK(rc == 0, "the program fails (%d) although nothing failed", rc);
	verify(true, rc);
	_exit(0);
}
int main(int argc, char **argv)
{
	nat_init(argc, argv); nat_stuck_limit = 25;
	mode_proto = argc > 1 && !strcmp(argv[1], "proto"); mode_out = argc > 1 && !strcmp(argv[1], "out");
	while (nat_more(200)) {
		nat_case(); rnd();
		/* fresh scratch files */
		char cmd[300]; snprintf(cmd, sizeof cmd, "%s/c", getenv("NAT_DIR")); char old[300]; snprintf(old, sizeof old, "%s", getenv("NAT_DIR"));
		mkdir(cmd, 0777); setenv("NAT_DIR", cmd, 1);
		pid_t p = fork();
		if (p == 0) { alarm(1); child(); _exit(0); }
		int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR);
		setenv("NAT_DIR", old, 1);
		if (!WIFEXITED(st)) { printf("FAILING INPUT: the program is killed by signal %d\n", WTERMSIG(st)); fflush(stdout); _exit(77); }
		if (WEXITSTATUS(st) != 0) _exit(WEXITSTATUS(st));
		/* remove what the case wrote */
		extern int nat_clean(const char *); nat_clean(cmd);
	}
	return nat_done();
}
#include <dirent.h>
int nat_clean(const char *d)
{
	DIR *h = opendir(d); struct dirent *e; if (!h) return 0;
	while ((e = readdir(h))) { char p[600]; if (e->d_name[0] == '.') continue; snprintf(p, sizeof p, "%s/%s", d, e->d_name); unlink(p); }
	closedir(h); return rmdir(d);
}
