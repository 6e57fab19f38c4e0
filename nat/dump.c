/* fstrm_dump itself, on whole, truncated and damaged files, with full disks and missing files */
#include "nat.h"
#define main fstrm_dump_main
#include "src/fstrm_dump.c"
#undef main
#include "tool.h"
static char *av[5]; static int ac;
static int go(void) { return fstrm_dump_main(ac, av); }
static bool pr(uint8_t c) { return c >= 0x20 && c <= 0x7e; }
static struct in in; static struct bb want, got, wout;
static void one(void)
{
	nat_case(); static char ct[300]; size_t cl = rnd_n(rnd_1in(4) ? 257 : 20); for (size_t i = 0; i < cl; i++) ct[i] = rnd();
	in_gen(&in, ct, cl, rnd_1in(4) == 0);
	put_file("in", in.s.p, in.s.n); unlink("copy");
	bool noin = rnd_1in(15), full = rnd_1in(12), two = rnd_1in(3) != 0; const char *cp = !rnd_1in(8) ? "copy" : rnd_1in(2) ? "/dev/full" : "missing/copy"; int badargs = rnd_1in(25);
	av[0] = "fstrm_dump"; av[1] = noin ? "nofile" : "in"; av[2] = two ? (char *)cp : NULL; av[3] = NULL; ac = two ? 3 : 2;
	if (badargs) { if (rnd_1in(2)) { ac = 1; av[1] = NULL; } else { ac = 4; av[2] = "copy"; av[3] = "x"; av[4] = NULL; } }
	nat_note("args %d, input %s: %zu bytes, %zu frames, START %d, STOP %d, type %d of %zu bytes; copy to %s; stdout full %d\n", ac, av[1] ? av[1] : "-", in.s.n, in.nf, in.start, in.end, in.has, cl, two ? cp : "-", full);
	if (in.s.n < 700) nat_hex("input", in.s.p, in.s.n);
	want.n = 0; for (size_t i = 0; i < in.nf; i++) {
		bb_add(&want, " \"", 2);
		for (size_t j = 0; j < in.f[i].len; j++) { uint8_t c = in.s.p[in.f[i].off + j]; char t[8]; if (!pr(c)) { snprintf(t, 8, "\\x%c%c", "0123456789abcdef"[c / 16], "0123456789abcdef"[c % 16]); bb_add(&want, t, 4); } else { if (c == '"') bb_add(&want, "\\", 1); bb_add(&want, &c, 1); } }
		bb_add(&want, "\"\n", 2);
	}
	wout.n = 0; if (in.start) { bb_ctl(&wout, T_START, in.ct, in.cl, in.has); for (size_t i = 0; i < in.nf; i++) { bb_32(&wout, in.f[i].len); bb_add(&wout, in.s.p + in.f[i].off, in.f[i].len); } bb_ctl(&wout, T_STOP, NULL, 0, false); }
	bool crashed; int rc = child(go, full ? "/dev/full" : "out", &crashed);
	CHECK(!crashed, "the program crashes");
	bool readok = !badargs && !noin && in.start, copyok = !two || !strcmp(cp, "copy");
	bool ok = readok && in.end && copyok && !(full && want.n);
	CHECK((rc == 0) == ok, "exit status %d, expected %s", rc, ok ? "0" : "a failure");
	if (!full) {
		CHECK(get_file("out", &got), "output");
		if (readok && copyok) CHECK(got.n == want.n && !nat_cmp(got.p, want.p, got.n), "printed %zu bytes, expected %zu, or different ones", got.n, want.n);
		else CHECK(got.n <= want.n && !nat_cmp(got.p, want.p, got.n), "prints what it did not read");
	}
	if (readok && two && !strcmp(cp, "copy")) {
		CHECK(get_file("copy", &got), "no copy");
		CHECK(got.n == wout.n && !nat_cmp(got.p, wout.p, got.n), "the copy has %zu bytes, expected %zu, or different ones", got.n, wout.n);
	}
}
int main(int argc, char **argv)
{
	nat_init(argc, argv); const char *d = getenv("NAT_DIR"); if (d && chdir(d)) return 3;
	while (nat_more(300)) one();
	return nat_done();
}
