/*
 * The socket transports (fstrm/unix_writer.c, or fstrm/tcp_writer.c with -DTCP)
 * under contract.  The kernel is used by contract: sendmsg() takes any part of
 * what is offered, or fails; read() delivers any part of what is asked.
 */
#include "vf.h"
#include <sys/types.h>
#include <sys/socket.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include <fcntl.h>
#include <unistd.h>
static int vf_errno;
#include <errno.h>
#undef errno
#define errno vf_errno
#include <limits.h>
#include <stdio.h>
#include "libmy/my_alloc.h"

/* ---- write ---- */
#ifdef VF_SMALL
#define NIOV 2
#else
#define NIOV 256
#endif
static struct iovec IOV[NIOV]; static char BIG[1];
/* the caller's elements: obase(i), olen(i) */
uint64_t __CPROVER_uninterpreted_olen(size_t); uint64_t __CPROVER_uninterpreted_oo(size_t);
#define olen __CPROVER_uninterpreted_olen
#define obase(i) (BIG + __CPROVER_uninterpreted_oo(i))
uint64_t __CPROVER_uninterpreted_P(size_t);	/* P(i): bytes in the first i elements */
#define P __CPROVER_uninterpreted_P
static size_t N, T, gk;
static size_t gb; static _Bool okp;
/* re-writes the pointer as the element it is (and says whether it was): keeps the array typed for the verifier */
#define NORM(m) (okp = ((m).msg_iov == &IOV[gb]), (m).msg_iov = &IOV[gb], okp)
static uint64_t sent, sent0, lastk; static _Bool wfailed;
static int FD; static _Bool fdopen_;
/* the defining equation of P at i (O never changes) */
static _Bool defP(size_t i) { if (i < N) ASSUME(P(i + 1) == P(i) + olen(i) && P(i) <= P(i + 1) && P(i + 1) <= T && olen(i) >= 1 && olen(i) <= 0xffffffffUL); return 1; }
#define BIX(p) ((size_t)OFF(p) / sizeof(struct iovec))
/* the not yet sent rest of the caller's data is exactly what (iov, cnt) describes; s bytes are out */
#define AT(iov, cnt, s) (SAME(iov, IOV) && OFF(iov) % sizeof(struct iovec) == 0 && BIX(iov) < N && (size_t)(cnt) == N - BIX(iov) && \
	P(BIX(iov)) <= (s) && (s) - P(BIX(iov)) < olen(BIX(iov)) && (s) < T && \
	IOV[BIX(iov)].iov_base == (void *)((char *)obase(BIX(iov)) + ((s) - P(BIX(iov)))) && IOV[BIX(iov)].iov_len == olen(BIX(iov)) - ((s) - P(BIX(iov))))
/* the elements behind the current one are untouched: tracked one, as invariant */
#define REST(iov) IMPL(gk < N && gk > BIX(iov), IOV[gk].iov_base == (void *)obase(gk) && IOV[gk].iov_len == olen(gk))
/* ... and its instance at another index: the same invariant, for that index */
static _Bool useREST(const struct iovec *iov, size_t j) { if (j < N && j > BIX(iov)) ASSUME(IOV[j].iov_base == (void *)obase(j) && IOV[j].iov_len == olen(j)); return 1; }

static ssize_t vf_sendmsg(int fd, const struct msghdr *m, int flags)
{
	PROVE(fd == FD, "sends on its own socket");
	PROVE((flags & MSG_NOSIGNAL) != 0, "without raising SIGPIPE");
	PROVE(!wfailed, "nothing is sent after a failure");
	PROVE(AT(m->msg_iov, m->msg_iovlen, sent), "offers exactly what is not sent yet, from the first unsent byte on");
	/* the same pointer, written as an element of the array */
	gb = BIX(m->msg_iov); PROVE(m->msg_iov == &IOV[gb], "an element"); ((struct msghdr *)m)->msg_iov = &IOV[gb];
	PROVE(REST(m->msg_iov), "the following elements are the caller's");
	if (nondet_bool()) { vf_errno = nondet_int(); if (vf_errno != EINTR) wfailed = 1; return -1; }
	uint64_t k = nondet_u64(); ASSUME(k <= T - sent);
#ifdef VF_SMALL
	ASSUME(k > 0);
#endif
	sent0 = sent; sent += k; lastk = k;
	return (ssize_t)k;
}
/* ---- read ---- */
static char *RB; static size_t rtotal, rdone; static _Bool rfailed;
static ssize_t vf_read(int fd, void *buf, size_t n)
{
	PROVE(fd == FD, "reads from its own socket");
	PROVE(!rfailed, "no read after a failure");
	PROVE(SAME(buf, RB) && OFF(buf) == rdone && n == rtotal - rdone && n > 0, "asks exactly for what is missing, where it belongs");
	if (nondet_bool()) { vf_errno = nondet_int(); if (vf_errno != EINTR) rfailed = 1; return -1; }
	size_t k = nondet_size(); ASSUME(k <= n);
	if (k == 0) { rfailed = 1; return 0; }
	rdone += k;
	return (ssize_t)k;
}
/* ---- open/close ---- */
static int nfd; static unsigned nsock, nclose_, nconn, nfc; static _Bool live; static int conn_r, close_r; static _Bool nosock, einval1;
static const void *c_sa; static socklen_t c_len; static int s_dom;
static int vf_socket(int d, int t, int p)
{
	PROVE((t & 0xf) == SOCK_STREAM && p == 0, "a stream socket"); s_dom = d; nsock++;
	PROVE(!live, "one socket at a time");
	if (nsock == 1 && einval1) { vf_errno = EINVAL; return -1; }
	if (nosock) { vf_errno = nondet_int(); ASSUME(vf_errno != EINVAL || nsock > 1); return -1; }
	live = 1; return FD;
}
static int vf_fcntl(int fd, int c, ...) { PROVE(fd == FD && live, "own socket"); nfc++; int r = nondet_int(); return r; }
static int vf_connect(int fd, const struct sockaddr *sa, socklen_t n) { PROVE(fd == FD && live, "connects its own socket"); nconn++; c_sa = sa; c_len = n; return conn_r; }
static int vf_close(int fd) { PROVE(fd == FD && live, "closes its own open socket"); nclose_++; live = 0; return close_r; }

#define read(a, b, c) vf_read(a, b, c)
#include "fstrm/fstrm-private.h"
#define sendmsg vf_sendmsg
#define socket vf_socket
#define fcntl vf_fcntl
#define connect vf_connect
#define close vf_close
#ifdef TCP
#include "fstrm/tcp_writer.c"
#define W_T struct fstrm__tcp_writer
#define W_WRITE fstrm__tcp_writer_op_write
#define W_READ fstrm__tcp_writer_op_read
#define W_OPEN fstrm__tcp_writer_op_open
#define W_CLOSE fstrm__tcp_writer_op_close
#else
#include "fstrm/unix_writer.c"
#define W_T struct fstrm__unix_writer
#define W_WRITE fstrm__unix_writer_op_write
#define W_READ fstrm__unix_writer_op_read
#define W_OPEN fstrm__unix_writer_op_open
#define W_CLOSE fstrm__unix_writer_op_close
#endif
#undef close
#undef read

static W_T W;
static void init(void) { sent = sent0 = lastk = 0; wfailed = 0; rdone = 0; rfailed = 0; nsock = nclose_ = nconn = nfc = 0; live = 0; c_sa = 0; }
void h_write(void)
{
	init(); static struct { bool connected; int fd; } S; W_T *pw = (W_T *)(void *)&S;
	__CPROVER_havoc_object(IOV);
	N = nondet_size(); ASSUME(N >= 1 && N <= NIOV); gk = nondet_size();
	T = P(N); ASSUME(P(0) == 0); defP(0); defP(N - 1);
	/* IOV[j] == (obase(j), olen(j)) for every j < N: instances */
	ASSUME(IOV[0].iov_base == (void *)obase(0) && IOV[0].iov_len == olen(0)); useREST(IOV, gk);
	ASSUME(T <= N << 32);
#ifdef VF_SMALL
	for (size_t j = 0; j < NIOV; j++) { ASSUME(olen(j) <= 15 && __CPROVER_uninterpreted_oo(j) <= 15); defP(j); if (j < N) ASSUME(IOV[j].iov_base == (void *)obase(j) && IOV[j].iov_len == olen(j)); }
#endif
	FD = nondet_int(); pw->fd = FD; pw->connected = nondet_bool();
	/* monotonicity of P (unit sock.mono): the first element is part of the whole */
	ASSUME(P(1) <= T);
	fstrm_res r = W_WRITE(pw, IOV, (int)N);
	if (!pw->connected) PROVE(r == fstrm_res_failure && sent == 0, "not connected: nothing is sent");
	PROVE(IMPL(r == fstrm_res_success, sent == T && !wfailed), "success only when every byte was sent");
	PROVE(IMPL(r != fstrm_res_success && pw->connected, wfailed), "failure only when the socket failed");
	PROVE(r == fstrm_res_success || r == fstrm_res_failure, "result");
	COVER(r == fstrm_res_success, "sent"); COVER(wfailed && sent > 0, "failed midway");
}
void h_read(void)
{
	init();
	rtotal = nondet_size(); ASSUME(rtotal <= 1UL << 40);
	RB = __CPROVER_allocate(rtotal, 0);
	FD = nondet_int(); W.fd = FD; W.connected = nondet_bool();
	fstrm_res r = W_READ(&W, RB, rtotal);
	if (!W.connected) PROVE(r == fstrm_res_failure && rdone == 0, "not connected: nothing is read");
	PROVE(IMPL(r == fstrm_res_success, rdone == rtotal && !rfailed), "success only when every byte was received");
	PROVE(IMPL(r != fstrm_res_success && W.connected, rfailed), "failure only when the socket failed or ended");
	COVER(r == fstrm_res_success && rtotal > 1, "read"); COVER(rfailed && rdone > 0, "failed midway");
}
void h_open(void)
{
	init();
	FD = nondet_int(); ASSUME(FD >= 0); conn_r = nondet_bool() ? 0 : -1; nosock = nondet_bool(); einval1 = nondet_bool();
	W.connected = nondet_bool(); W.fd = FD; live = W.connected; _Bool was = W.connected;
#ifdef TCP
	W.ss.ss_family = nondet_bool() ? AF_INET : AF_INET6; W.ss_len = W.ss.ss_family == AF_INET ? sizeof(struct sockaddr_in) : sizeof(struct sockaddr_in6);
#endif
	fstrm_res r = W_OPEN(&W);
	if (was) PROVE(r == fstrm_res_success && nsock == 0 && nconn == 0 && nclose_ == 0 && live && W.connected, "already connected: nothing happens");
	else {
		PROVE(W.connected == (r == fstrm_res_success), "connected exactly on success");
		PROVE(live == W.connected, "no socket is left behind on failure, and the connected one is open");
		PROVE((r == fstrm_res_success) == (!nosock && conn_r == 0), "succeeds exactly when the peer accepts");
		PROVE(IMPL(r == fstrm_res_success, W.fd == FD && nconn == 1), "connected once");
#ifdef TCP
		PROVE(IMPL(nconn, c_sa == (void *)&W.ss && c_len == W.ss_len && s_dom == W.ss.ss_family), "to the configured address");
#else
		PROVE(IMPL(nconn, c_sa == (void *)&W.sa && c_len == sizeof W.sa && s_dom == AF_UNIX), "to the configured path");
#endif
	}
	COVER(r == fstrm_res_success && !was, "connected"); COVER(r != fstrm_res_success && nconn == 1, "refused");
}
void h_close(void)
{
	init();
	FD = nondet_int(); W.fd = FD; W.connected = live = nondet_bool(); close_r = nondet_bool() ? 0 : -1; _Bool was = live;
	fstrm_res r = W_CLOSE(&W);
	PROVE(!W.connected && !live && nclose_ == (was ? 1 : 0), "closed exactly once, when connected");
	PROVE(r == (was && close_r == 0 ? fstrm_res_success : fstrm_res_failure), "result");
	COVER(was, "closed");
}
/* Lemma used by the instances of P above: prefix sums are monotone and do not overflow. */
void h_mono(void)
{
	size_t a = nondet_size(), n = nondet_size(), b;
	ASSUME(n <= 256 && a <= n && P(0) == 0 && P(a) <= (uint64_t)a << 32);
	size_t i = a;
	while (i < n)
	__CPROVER_assigns(i)
	__CPROVER_loop_invariant(a <= i && i <= n && P(a) <= P(i) && P(i) <= (uint64_t)i << 32)
	{ ASSUME(P(i + 1) == P(i) + olen(i) && olen(i) <= 0xffffffffUL); i++; }
	COVER(a + 2 == n, "reaches the end");
	PROVE(P(a) <= P(n) && P(n) <= (uint64_t)n << 32, "prefix sums are monotone");
}
