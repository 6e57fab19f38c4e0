/* the socket transports against a simulated kernel: partial transfers, interruptions, failures */
#include "nat.h"
#include "mock.h"
#include <sys/types.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <netinet/in.h>
#include <fcntl.h>
#define FDB 20000
static struct { bool live; } fds[64]; static int nfds;
static struct bb sent, want, peer; static size_t peerpos;
static unsigned calls, failat; static bool broken; static bool connok; static unsigned conn_fail; static int style;
static const char *expect_path; static bool connected_sa_ok;
static uint16_t expect_port; static int expect_fam; static uint8_t expect_addr[16];
static unsigned nsock, nclose, nconn, closefail; static bool retry;
static bool is_sim(int fd) { return fd >= FDB; }
static void live(int fd, const char *w) { CHECK(fd - FDB < nfds && fds[fd - FDB].live, "%s on a socket that is not open", w); }
int __wrap_socket(int d, int t, int p);
int __wrap_socket(int d, int t, int p)
{
	(void)p; nsock++;
	CHECK((t & 0xf) == SOCK_STREAM, "not a stream socket");
	CHECK(d == expect_fam, "wrong address family");
	retry = false;
	if (rnd_1in(40)) { errno = EMFILE; connok = false; return -1; }
	if (rnd_1in(20) && (t & SOCK_CLOEXEC)) { errno = EINVAL; retry = true; return -1; }
	fds[nfds].live = true; return FDB + nfds++;
}
int __real_fcntl(int, int, ...); int __wrap_fcntl(int fd, int c, long a);
int __wrap_fcntl(int fd, int c, long a) { if (!is_sim(fd)) return __real_fcntl(fd, c, a); live(fd, "fcntl"); return rnd_1in(8) ? -1 : 0; }
int __wrap_connect(int fd, const struct sockaddr *sa, socklen_t n);
int __wrap_connect(int fd, const struct sockaddr *sa, socklen_t n)
{
	live(fd, "connect"); nconn++;
	CHECK(sa->sa_family == expect_fam, "connect to another address family");
	if (expect_fam == AF_UNIX) CHECK(n <= sizeof(struct sockaddr_un) && strcmp(((const struct sockaddr_un *)sa)->sun_path, expect_path) == 0, "connect to another path");
	else if (expect_fam == AF_INET) CHECK(n == sizeof(struct sockaddr_in) && ntohs(((const struct sockaddr_in *)sa)->sin_port) == expect_port && !memcmp(&((const struct sockaddr_in *)sa)->sin_addr, expect_addr, 4), "connect to another address");
	else CHECK(n == sizeof(struct sockaddr_in6) && ntohs(((const struct sockaddr_in6 *)sa)->sin6_port) == expect_port && !memcmp(&((const struct sockaddr_in6 *)sa)->sin6_addr, expect_addr, 16), "connect to another address");
	if (conn_fail) { conn_fail--; connok = false; errno = ECONNREFUSED; return -1; }
	connok = true; peerpos = 0;
	return 0;
}
static bool fail_now(void) { calls++; if (failat && calls == failat) { broken = true; errno = rnd_1in(2) ? EPIPE : ECONNRESET; return true; } return false; }
static size_t some(size_t n)
{
	switch (style) { case 0: return n; case 1: return 1 + rnd_n(n); case 2: return rnd_1in(2) ? n : 1 + rnd_n(n < 9 ? n : 9); default: return n < 4 ? n : rnd_1in(3) ? 4 : 1 + rnd_n(n); }
}
ssize_t __wrap_sendmsg(int fd, const struct msghdr *m, int fl);
ssize_t __wrap_sendmsg(int fd, const struct msghdr *m, int fl)
{
	live(fd, "sendmsg");
	CHECK(!broken, "sendmsg after the socket failed");
	CHECK(fl & MSG_NOSIGNAL, "sendmsg may raise SIGPIPE");
	if (rnd_1in(6)) { errno = EINTR; return -1; }
	if (fail_now()) return -1;
	size_t tot = 0; for (size_t i = 0; i < m->msg_iovlen; i++) tot += m->msg_iov[i].iov_len;
	CHECK(tot > 0, "sendmsg of nothing");
	size_t k = some(tot), r = k;
	for (size_t i = 0; i < m->msg_iovlen && r; i++) { size_t q = m->msg_iov[i].iov_len < r ? m->msg_iov[i].iov_len : r; bb_add(&sent, m->msg_iov[i].iov_base, q); r -= q; }
	return k;
}
static ssize_t do_sendmsg(int fd, const struct iovec *v, int n) { struct msghdr m = { 0 }; m.msg_iov = (struct iovec *)v; m.msg_iovlen = n; return __wrap_sendmsg(fd, &m, MSG_NOSIGNAL); }
/* other ways to write: these raise SIGPIPE, only send() can avoid it */
ssize_t __wrap_send(int fd, const void *p, size_t n, int fl);
ssize_t __wrap_send(int fd, const void *p, size_t n, int fl) { struct iovec v = { (void *)p, n }; CHECK(fl & MSG_NOSIGNAL, "send may raise SIGPIPE"); return do_sendmsg(fd, &v, 1); }
static size_t rdleft;
ssize_t __real_read(int, void *, size_t); ssize_t __wrap_read(int fd, void *p, size_t n);
ssize_t __wrap_read(int fd, void *p, size_t n)
{
	if (!is_sim(fd)) return __real_read(fd, p, n);
	live(fd, "read");
	CHECK(!broken, "read after the socket failed");
	if (rnd_1in(6)) { errno = EINTR; return -1; }
	if (fail_now()) return -1;
	size_t av = peer.n - peerpos;
	if (!av) { broken = true; return 0; }
	size_t k = n < av ? n : av; if (!k) return 0;
	k = some(k); memcpy(p, peer.p + peerpos, k); peerpos += k;
	return k;
}
ssize_t __wrap_recv(int fd, void *p, size_t n, int fl); ssize_t __wrap_recv(int fd, void *p, size_t n, int fl) { (void)fl; return __wrap_read(fd, p, n); }
int __real_close(int); int __wrap_close(int fd);
int __wrap_close(int fd) { if (!is_sim(fd)) return __real_close(fd); live(fd, "close"); fds[fd - FDB].live = false; nclose++; if (rnd_1in(10)) { closefail++; errno = EIO; return -1; } return 0; }

static bool own;	/* judge memory as well */
/* hand over a buffer that is overwritten and freed at once */
#define TMP(call, str) do { char *t_ = __real_malloc(strlen(str) + 1); strcpy(t_, str); call; if (own) memset(t_, 'Z', strlen(t_)); __real_free(t_); } while (0)
static void one(void)
{
	long live0 = nat_live;
	bool tcp = rnd_1in(2); char path[200]; struct fstrm_writer *w;
	nat_case(); nfds = 0; sent.n = want.n = peer.n = 0; calls = 0; broken = false; connok = false; nsock = nclose = nconn = closefail = 0; retry = false;
	style = rnd_n(4); failat = rnd_1in(3) ? 1 + rnd_n(12) : 0; conn_fail = rnd_1in(4) ? 1 + rnd_n(3) : 0;
	ct_gen_pool();
	const struct ct *my[3]; size_t nmy = rnd_n(3); for (size_t i = 0; i < nmy; i++) my[i] = &ct_pool[3 + rnd_n(9)];
	struct fstrm_writer_options *wo = fstrm_writer_options_init();
	for (size_t i = 0; i < nmy; i++) { uint8_t *t_ = __real_malloc(my[i]->len + 1); memcpy(t_, my[i]->d, my[i]->len); fstrm_writer_options_add_content_type(wo, t_, my[i]->len); if (own) memset(t_, 'Z', my[i]->len); __real_free(t_); }
	nat_note("%s writer, transfer style %d, failing operation %u, %u refused connections\n", tcp ? "tcp" : "unix", style, failat, conn_fail);
	if (tcp) {
		struct fstrm_tcp_writer_options *to = fstrm_tcp_writer_options_init(); char port[20];
		expect_port = rnd(); snprintf(port, sizeof port, "%u", expect_port);
		if (rnd_1in(2)) { expect_fam = AF_INET; for (int i = 0; i < 4; i++) expect_addr[i] = rnd(); snprintf(path, sizeof path, "%u.%u.%u.%u", expect_addr[0], expect_addr[1], expect_addr[2], expect_addr[3]); }
		else { expect_fam = AF_INET6; for (int i = 0; i < 16; i++) expect_addr[i] = rnd(); char *q = path; for (int i = 0; i < 8; i++) q += sprintf(q, "%s%x", i ? ":" : "", expect_addr[2 * i] << 8 | expect_addr[2 * i + 1]); }
		if (rnd_1in(8)) fstrm_tcp_writer_options_set_socket_address(to, "9.9.9.9"); if (rnd_1in(8)) fstrm_tcp_writer_options_set_socket_port(to, "99");
		TMP(fstrm_tcp_writer_options_set_socket_address(to, t_), path); TMP(fstrm_tcp_writer_options_set_socket_port(to, t_), port);
		if (rnd_1in(20)) { fstrm_tcp_writer_options_set_socket_port(to, rnd_1in(2) ? "65536" : rnd_1in(2) ? "12x" : "-1"); CHECK(fstrm_tcp_writer_init(to, wo) == NULL, "a bad port is accepted"); fstrm_tcp_writer_options_set_socket_port(to, port); }
		if (rnd_1in(20)) { fstrm_tcp_writer_options_set_socket_address(to, "1.2.3.4.5"); CHECK(fstrm_tcp_writer_init(to, wo) == NULL, "a bad address is accepted"); fstrm_tcp_writer_options_set_socket_address(to, path); }
		w = fstrm_tcp_writer_init(to, wo); fstrm_tcp_writer_options_destroy(&to);
	} else {
		struct fstrm_unix_writer_options *uo = fstrm_unix_writer_options_init(); expect_fam = AF_UNIX;
		size_t n = rnd_1in(4) ? 100 + rnd_n(12) : 1 + rnd_n(60); for (size_t i = 0; i < n; i++) path[i] = 'a' + rnd_n(26); path[n] = 0; expect_path = path;
		if (rnd_1in(8)) fstrm_unix_writer_options_set_socket_path(uo, "other"); TMP(fstrm_unix_writer_options_set_socket_path(uo, t_), path);
		w = fstrm_unix_writer_init(uo, wo); fstrm_unix_writer_options_destroy(&uo);
		if (n > 107) { CHECK(w == NULL, "a socket path of %zu bytes is accepted", n); fstrm_writer_options_destroy(&wo); if (own) CHECK(nat_live == live0, "%ld heap blocks left by a refused creation", nat_live - live0); return; }
	}
	CHECK(w != NULL, "writer init fails");
	fstrm_writer_options_destroy(&wo);
	bb_ctl(&peer, T_ACCEPT, my, nmy); bb_ctl(&peer, T_FINISH, NULL, 0);
	bb_ctl(&want, T_READY, my, nmy); bb_ctl(&want, T_START, my, nmy ? 1 : 0);
	bool open = false; size_t hello = want.n;
again:
	for (int a = 0; a < 12 && !open && !broken; a++) {
		fstrm_res r = fstrm_writer_open(w); CHECK(!retry, "close-on-exec is not supported: no socket without it");
		if (connok && !broken) CHECK(r == fstrm_res_success, "open fails on a healthy connection");
		if (!connok) CHECK(r == fstrm_res_failure, "open succeeds without a connection");
		open = r == fstrm_res_success;
		if (!open) CHECK(nclose == (unsigned)nfds, "a failed open leaves the socket open");
	}
	if (open) {
		CHECK(sent.n == want.n && !nat_cmp(sent.p, want.p, want.n), "the handshake bytes differ");
		for (int k = rnd_n(5); k > 0 && !broken; k--) {
			int cnt = rnd_1in(4) ? 120 + rnd_n(150) : 1 + rnd_n(5); struct iovec v[300]; static uint8_t blob[300 * 600]; size_t o = 0;
			for (int i = 0; i < cnt; i++) { size_t n = 1 + rnd_n(rnd_1in(6) ? 500 : 12); for (size_t q = 0; q < n; q++) blob[o + q] = rnd(); v[i].iov_base = blob + o; v[i].iov_len = n; bb_32(&want, n); bb_add(&want, blob + o, n); o += n; }
			nat_note("writev of %d frames, %zu bytes\n", cnt, o);
			fstrm_res r = fstrm_writer_writev(w, v, cnt);
			if (!broken) { CHECK(r == fstrm_res_success, "writev fails on a healthy connection"); CHECK(sent.n == want.n && !nat_cmp(sent.p, want.p, want.n), "the bytes sent differ from the frames (%zu sent, %zu expected)", sent.n, want.n); }
			else { CHECK(r != fstrm_res_success, "writev succeeds on a broken connection"); CHECK(sent.n <= want.n && !nat_cmp(sent.p, want.p, sent.n), "what was sent before the failure is not a prefix"); }
		}
		if (rnd_1in(2)) {
			unsigned cf = closefail, nc = nclose; fstrm_res r = fstrm_writer_close(w); bb_ctl(&want, T_STOP, NULL, 0);
			if (r == fstrm_res_success) CHECK(!broken && sent.n == want.n && !nat_cmp(sent.p, want.p, want.n), "close succeeds, but the stream is not complete");
			if (!broken) CHECK((r == fstrm_res_success) == (closefail == cf) && nclose == nc + 1, "close gives %d, closing the socket %s", r, closefail == cf ? "succeeded" : "failed");
			if (nfds < 40 && rnd_1in(2)) { nat_note("opened again\n"); CHECK(nclose == (unsigned)nfds, "closing leaves the socket open"); open = broken = connok = false; sent.n = 0; want.n = hello; goto again; }
		} else bb_ctl(&want, T_STOP, NULL, 0);
	}
	fstrm_writer_destroy(&w);
	if (open && !broken) CHECK(sent.n == want.n, "the stream does not end in STOP");
	CHECK(sent.n <= want.n && !nat_cmp(sent.p, want.p, sent.n), "the bytes sent are not a prefix of the stream");
	for (int i = 0; i < nfds; i++) CHECK(!fds[i].live, "socket left open");
	if (own) CHECK(nat_live == live0, "%ld heap blocks left", nat_live - live0);
}
int main(int argc, char **argv)
{
	nat_init(argc, argv); own = argc > 1 && !strcmp(argv[1], "own");
	while (nat_more(2000)) one();
	return nat_done();
}
