/* fstrm_replay itself against a server in the parent: handshakes, refusals, servers that go away, bad files, bad options */
#include "nat.h"
#include <sys/un.h>
#include <sys/socket.h>
#include <poll.h>
#define main fstrm_replay_main
#include "src/fstrm_replay.c"
#undef main
#include "tool.h"
static char *av[200]; static int ac; static char store[200][400];
static void arg(const char *s) { snprintf(store[ac], 400, "%s", s); av[ac] = store[ac]; ac++; av[ac] = NULL; }
static void opt(const char *s, const char *l, const char *v) { arg(rnd_1in(2) ? s : l); arg(v); }
#define NF 6
static struct in in[NF]; static struct bb want, got;
/* type and content types of a control frame in got at *o */
static bool ctl_at(size_t *o, uint32_t *type, const uint8_t **ct, size_t *cl, unsigned *n)
{
	if (got.n < *o + 12) return false;
	const uint8_t *p = got.p + *o; uint32_t l = get32(p + 4);
	CHECK(get32(p) == 0 && l >= 4 && l <= 512, "no control frame where one belongs");
	if (got.n < *o + 8 + l) return false;
	*type = get32(p + 8); *n = 0; size_t q = 12; *ct = NULL; *cl = 0;
	while (q < 8 + l) { CHECK(q + 8 <= 8 + l && get32(p + q) == 1 && q + 8 + get32(p + q + 4) <= 8 + l, "bad control field"); *cl = get32(p + q + 4); *ct = p + q + 8; q += 8 + *cl; ++*n; }
	*o += 8 + l; return true;
}
static void put(int fd, const void *p, size_t n) { ssize_t r = send(fd, p, n, MSG_NOSIGNAL); (void)r; }
static void one(void)
{
	nat_case(); static char ct[400], other[400]; size_t cl = rnd_1in(10) ? 0 : 1 + rnd_n(rnd_1in(6) ? 300 : 20); for (size_t i = 0; i < cl; i++) ct[i] = 'a' + rnd_n(26); ct[cl] = 0;
	bool tcp = rnd_1in(3); int nf = 1 + rnd_n(NF), bad = rnd_1in(8) ? 1 + rnd_n(9) : 0; int srv = rnd_1in(3) ? 1 + rnd_n(5) : 0;
	if (nat_cases < 40) { bad = nat_cases % 10; tcp = nat_cases / 10 & 1; srv = nat_cases % 6; }
	/* server: 0 proper, 1 refuses the type, 2 hangs up at once, 3 hangs up after some bytes, 4 no FINISH, 5 accepts any type */
	ac = 0; arg("fstrm_replay"); want.n = got.n = 0;
	int ls; char port[20]; unlink("sock");
	if (tcp) { struct sockaddr_in a = { .sin_family = AF_INET, .sin_addr.s_addr = htonl(INADDR_LOOPBACK) }; socklen_t l = sizeof a; ls = socket(AF_INET, SOCK_STREAM, 0); if (bind(ls, (void *)&a, l) || listen(ls, 4)) _exit(3); getsockname(ls, (void *)&a, &l); snprintf(port, sizeof port, rnd_1in(3) ? "0x%x" : "%d", ntohs(a.sin_port)); snprintf(port, sizeof port, "%d", ntohs(a.sin_port)); }
	else { struct sockaddr_un a = { .sun_family = AF_UNIX, .sun_path = "sock" }; ls = socket(AF_UNIX, SOCK_STREAM, 0); if (bind(ls, (void *)&a, sizeof a) || listen(ls, 4)) _exit(3); }
	fcntl(ls, F_SETFD, FD_CLOEXEC);
	bool okargs = !bad && cl <= 256;
	int part[3] = { 0, 1, 2 }; for (int i = 2; i > 0; i--) { int j = rnd_n(i + 1), t = part[i]; part[i] = part[j]; part[j] = t; }
	bb_ctl(&want, T_START, ct, cl, true);
	for (int i = 0; i < 3; i++) switch (part[i]) {
	case 0: if (bad != 1) opt("-t", "--type", ct); break;
	case 1:
		if (bad == 2) break;
		if (bad == 8) { opt("-u", "--unix", "nosuchsocket"); break; }
		if (tcp) { opt("-a", "--tcp", bad == 3 ? "127.0.0" : "127.0.0.1"); if (bad == 4 ) ; else opt("-p", "--port", bad == 5 ? "65536" : bad == 6 ? "12x" : port); }
		else { opt("-u", "--unix", "sock"); if (bad >= 3 && bad <= 6) opt("-a", "--tcp", "127.0.0.1"); }
		break;
	case 2: if (bad == 7) break;
		for (int k = 0; k < nf; k++) {
			int kind = rnd_1in(3) ? rnd_n(4) : 9; char name[20]; snprintf(name, 20, "f%d", k); bool use = true; size_t ol = cl; memcpy(other, ct, cl + 1);
			bool has = true;
			if (kind == 0) { unlink(name); use = false; in[k].nf = 0; }
			else {
				if (kind == 1) { has = true; if (!cl) { ol = 1; other[0] = 'q'; other[1] = 0; } else if (rnd_1in(2)) ol = cl - 1; else other[rnd_n(cl)] ^= 1; use = false; }
				if (kind == 2) has = false;
				in_gen(&in[k], other, ol, has); put_file(name, in[k].s.p, in[k].s.n); if (!in[k].start) use = false;
			}
			int times = k == 0 && rnd_1in(6) ? 1 + rnd_n(70) : 1;	/* the same file more than once */
			for (int z = 0; z < times; z++) opt("-r", "--read-file", name);
			nat_note("file %d: kind %d, %zu frames, readable %d complete %d used %d\n", k, kind, in[k].nf, in[k].start, in[k].end, use);
			if (times > 1) nat_note("%d times\n", times);
			if (use) for (int z = 0; z < times; z++) for (size_t j = 0; j < in[k].nf; j++) { bb_32(&want, in[k].f[j].len); bb_add(&want, in[k].s.p + in[k].f[j].off, in[k].f[j].len); }
		}
		break;
	}
	if (bad == 9) arg(rnd_1in(2) ? "-h" : "--nonsense");
	bb_ctl(&want, T_STOP, NULL, 0, false);
	nat_note("%s, content type of %zu bytes, server kind %d, bad arguments %d:", tcp ? "tcp" : "unix", cl, srv, bad); for (int i = 1; i < ac; i++) nat_note(" %s", av[i]); nat_note("\n");
	size_t quit = srv == 3 ? rnd_n(want.n) : (size_t)-1;
	fflush(NULL); pid_t pid = fork();
	if (pid == 0) {
		close(ls); int e = open("err", O_CREAT | O_WRONLY | O_TRUNC, 0600); dup2(e, 1); dup2(e, 2); signal(SIGALRM, SIG_DFL); alarm(30);
		exit(fstrm_replay_main(ac, av));
	}
	int fd = -1, st = 0; bool dead = false, ready = false, stop = false, hung = false, conn = false; size_t hs = 0; static char buf[65536];
	for (;;) {
		if (!dead && waitpid(pid, &st, WNOHANG) == pid) dead = true;
		struct pollfd p[2] = { { ls, POLLIN }, { fd, POLLIN } }; int to = dead ? 0 : 1; if (poll(p, fd >= 0 ? 2 : 1, to) <= 0) { if (dead) break; continue; }
		if (p[0].revents) { int f = accept(ls, NULL, NULL); CHECK(!conn, "connects twice"); conn = true; fd = f; if (srv == 2) { close(fd); fd = -1; hung = true; } continue; }
		ssize_t r = read(fd, buf, rnd_1in(3) ? 1 + rnd_n(50) : sizeof buf);
		if (r <= 0) { close(fd); fd = -1; if (dead) break; continue; }
		bb_add(&got, buf, r);
		if (!ready) {
			size_t o = 0; uint32_t type; const uint8_t *t; size_t l; unsigned n;
			if (!ctl_at(&o, &type, &t, &l, &n)) continue;
			CHECK(type == T_READY && n == 1 && l == cl && !memcmp(t, ct, cl), "READY does not offer exactly the content type asked for");
			CHECK(got.n == o, "data before the ACCEPT"); ready = true; hs = o;
			struct bb a = { 0 }; if (srv == 1) bb_ctl(&a, T_ACCEPT, "zz", 2, true); else bb_ctl(&a, T_ACCEPT, ct, cl, srv != 5); put(fd, a.p, a.n); __real_free(a.p);
			continue;
		}
		CHECK(got.n - hs <= want.n && !memcmp(got.p + hs, want.p, got.n - hs), "what arrives is not the frames of the files in order (%zu bytes)", got.n - hs);
		if (got.n - hs > quit) { close(fd); fd = -1; hung = true; continue; }
		if (got.n - hs == want.n && !stop) { stop = true; if (srv == 4) { close(fd); fd = -1; } else { struct bb a = { 0 }; bb_ctl(&a, T_FINISH, NULL, 0, false); put(fd, a.p, a.n); __real_free(a.p); } }
	}
	if (fd >= 0) close(fd); close(ls);
	int rc = WIFEXITED(st) ? WEXITSTATUS(st) : -1;
	if (rc < 0 || rc == 77 || rc == 78 || rc == 79) { struct bb e = { 0 }; get_file("err", &e); ssize_t r = write(2, e.p, e.n < 3000 ? e.n : 3000); (void)r; CHECK(0, "the program crashes (status %x)", st); }
	bool okhs = okargs && (srv == 0 || srv == 3 || srv == 4 || srv == 5);
	if (!okargs) CHECK(got.n == 0 || bad == 8, "sends something in spite of bad arguments");
	if (srv == 1) CHECK(got.n == hs, "sends data although the content type was refused");
	bool ok = okhs && (srv == 0 || srv == 5);
	CHECK((rc == 0) == ok, "exit status %d, expected %s", rc, ok ? "0" : "a failure");
	if (ok) CHECK(got.n - hs == want.n, "only %zu of %zu bytes arrive", got.n - hs, want.n);
	(void)hung;
}
int main(int argc, char **argv)
{
	nat_init(argc, argv); const char *d = getenv("NAT_DIR"); if (d && chdir(d)) return 3;
	while (nat_more(300)) one();
	return nat_done();
}
