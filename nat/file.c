/* the file transport over simulated files: short reads, read errors, full disks, truncation */
#include "nat.h"
#include "mock.h"
static struct bb disk, want; static size_t wlimit, rerr; static unsigned live, nopen, nclose; static bool openfail, rd; static char expect[64];
struct ck { size_t pos; };
static ssize_t c_read(void *c, char *p, size_t n)
{
	struct ck *k = c; size_t av = disk.n - k->pos;
	if (k->pos >= rerr) { errno = EIO; return -1; }
	if (n > av) n = av; if (n > rerr - k->pos) n = rerr - k->pos; if (n > 1 && rnd_1in(2)) n = 1 + rnd_n(n);
	memcpy(p, disk.p + k->pos, n); k->pos += n; return n;
}
static ssize_t c_write(void *c, const char *p, size_t n)
{
	(void)c;
	if (disk.n >= wlimit) { errno = ENOSPC; return 0; }
	if (n > wlimit - disk.n) n = wlimit - disk.n;
	bb_add(&disk, p, n); return n;
}
static int c_close(void *c) { CHECK(live == 1, "closed twice"); live--; nclose++; __real_free(c); return 0; }
FILE *__wrap_fopen(const char *p, const char *m); FILE *__real_fopen(const char *, const char *);
FILE *__wrap_fopen(const char *p, const char *m)
{
	if (p[0] == '/' && strcmp(p, expect)) return __real_fopen(p, m);	/* the sanitizer's own */
	CHECK(!strcmp(p, expect), "opens %s instead of %s", p, expect);
	CHECK(m[0] == (rd ? 'r' : 'w') && strchr(m, '+') == NULL, "wrong mode %s", m);
	CHECK(live == 0, "opened while open");
	if (openfail) { errno = ENOENT; return NULL; }
	struct ck *k = __real_calloc(1, sizeof *k);
	cookie_io_functions_t f = { .read = rd ? c_read : NULL, .write = rd ? NULL : c_write, .close = c_close };
	if (!rd) disk.n = 0;
	live++; nopen++;
	FILE *fp = fopencookie(k, m, f);
	if (rnd_1in(2)) setvbuf(fp, NULL, rnd_1in(2) ? _IONBF : _IOFBF, 16 + rnd_n(100));
	return fp;
}
static bool own;	/* judge memory as well */
static void one(void)
{
	long live0 = nat_live; static uint8_t blob[1 << 16]; struct { size_t o, n; } fr[64]; int nf = 0; size_t tot = 0;
	nat_case(); want.n = disk.n = 0; live = nopen = nclose = 0; rerr = wlimit = (size_t)-1; rd = false; openfail = rnd_1in(12);
	for (int i = rnd_n(20); i >= 0; i--) expect[i] = 'a' + rnd_n(26);
	expect[21] = 0; if (!expect[0]) expect[0] = 'f';
	ct_gen_pool(); const struct ct *ct = rnd_1in(2) ? &ct_pool[rnd_n(12)] : NULL;
	struct fstrm_file_options *fo = fstrm_file_options_init(); struct fstrm_writer_options *wo = fstrm_writer_options_init(); struct fstrm_reader_options *ro = fstrm_reader_options_init();
	CHECK(fstrm_file_writer_init(fo, wo) == NULL, "a writer without a path");
	if (rnd_1in(3)) fstrm_file_options_set_file_path(fo, "other");
	{ char tmp[64]; strcpy(tmp, expect); fstrm_file_options_set_file_path(fo, tmp); memset(tmp, 'Z', sizeof tmp - 1); }
	if (ct) { fstrm_writer_options_add_content_type(wo, ct->d, ct->len); fstrm_reader_options_add_content_type(ro, ct->d, ct->len); }
	struct fstrm_writer *w = fstrm_file_writer_init(fo, wo); CHECK(w, "writer init"); struct fstrm_reader *r = fstrm_file_reader_init(fo, ro); CHECK(r, "reader init");
	fstrm_file_options_destroy(&fo); fstrm_writer_options_destroy(&wo); fstrm_reader_options_destroy(&ro);
	bb_ctl(&want, T_START, &ct, ct ? 1 : 0);
	for (int i = rnd_n(12); i >= 0 && nf < 60; i--) {
		int c = rnd_1in(5) ? rnd_n(20) : 1;
		for (int j = 0; j < c && nf < 60; j++) { size_t n = 1 + rnd_n(rnd_1in(4) ? 700 : 30); fr[nf].o = tot; fr[nf].n = n; for (size_t q = 0; q < n; q++) blob[tot + q] = rnd(); bb_32(&want, n); bb_add(&want, blob + tot, n); tot += n; nf++; }
	}
	bb_ctl(&want, T_STOP, NULL, 0);
	if (rnd_1in(3)) wlimit = rnd_n(want.n + 3);
	nat_note("%d frames, %zu bytes, disk limit %zd, open fails %d\n", nf, want.n, (ssize_t)wlimit, openfail);
	bool ok = fstrm_writer_open(w) == fstrm_res_success;
	if (openfail) CHECK(!ok, "opened a file that does not open");
	else if (wlimit >= want.n) CHECK(ok, "open fails");
	if (!ok) CHECK(live == 0, "a failed open leaves the file open");
	bool use_destroy = rnd_1in(4);
	if (ok) {
		for (int i = 0; i < nf && ok;) {
			int c = 1 + rnd_n(nf - i); if (rnd_1in(2)) c = 1;
			struct iovec v[64]; for (int j = 0; j < c; j++) { v[j].iov_base = blob + fr[i + j].o; v[j].iov_len = fr[i + j].n; }
			fstrm_res x = c == 1 && rnd_1in(2) ? fstrm_writer_write(w, v[0].iov_base, v[0].iov_len) : fstrm_writer_writev(w, v, c);
			if (x != fstrm_res_success) ok = false;
			i += c;
		}
		if (ok && !use_destroy) ok = fstrm_writer_close(w) == fstrm_res_success;
		if (wlimit >= want.n) CHECK(ok, "writing fails without cause");
		else if (!use_destroy) CHECK(!ok, "a full disk is not reported");
	}
	bool stillopen = ok && use_destroy; fstrm_res dres = fstrm_writer_destroy(&w);
	if (stillopen) CHECK((dres == fstrm_res_success) == (wlimit >= want.n), "destroy of an open writer gives %d, disk limit %zd", dres, (ssize_t)wlimit);
	CHECK(live == 0 && nopen == nclose, "the file is left open");
	CHECK(disk.n <= want.n && !nat_cmp(disk.p, want.p, disk.n), "the file is not a prefix of the stream");
	if (!openfail && wlimit >= want.n) CHECK(disk.n == want.n, "the file is not complete");
	/* read it back */
	rd = true; nopen = nclose = 0;
	if (rnd_1in(3) && disk.n) disk.n = rnd_n(disk.n);
	else if (rnd_1in(4)) rerr = rnd_n(disk.n + 1);
	if (openfail) openfail = rnd_1in(2);
	nat_note("file of %zu bytes, read error at %zd, open fails %d\n", disk.n, (ssize_t)rerr, openfail);
	ok = fstrm_reader_open(r) == fstrm_res_success;
	bool whole = disk.n == want.n && rerr >= disk.n && !openfail;
	if (whole) CHECK(ok, "the file is not readable"); if (openfail) CHECK(!ok, "opened a file that does not open");
	int got = 0; fstrm_res x = fstrm_res_failure;
	size_t hdr = 12 + (ct ? 8 + ct->len : 0), pos = hdr;
	if (ok) {
		CHECK(disk.n >= hdr && rerr >= hdr, "opened without a START frame");
		for (;;) {
			const uint8_t *p; size_t n;
			x = fstrm_reader_read(r, &p, &n);
			if (x != fstrm_res_success) break;
			CHECK(got < nf && n == fr[got].n && !nat_cmp(p, blob + fr[got].o, n), "frame %d differs", got);
			pos += 4 + n; CHECK(pos <= disk.n && pos <= rerr, "a frame that is not in the file");
			got++;
		}
		if (whole) CHECK(got == nf && x == fstrm_res_stop, "%d of %d frames, result %d", got, nf, x);
		if (rerr < want.n && rerr < disk.n) CHECK(x == fstrm_res_failure, "a read error is reported as %d", x);
		int can = 0; size_t q = hdr; while (can < nf && q + 4 + fr[can].n <= disk.n && q + 4 + fr[can].n <= rerr) { q += 4 + fr[can].n; can++; }
		CHECK(got == can, "%d frames delivered, the file has %d", got, can);
	}
	if (rnd_1in(2)) (void)fstrm_reader_close(r);
	fstrm_reader_destroy(&r);
	CHECK(live == 0 && nopen == nclose, "the file is left open");
	if (own) CHECK(nat_live == live0, "%ld heap blocks left", nat_live - live0);
}
/* "-": standard output and standard input, in a process of its own */
#include <sys/wait.h>
#include <sys/mman.h>
#include <fcntl.h>
static void std(void)
{
	nat_case(); uint8_t blob[3000]; size_t n[8]; int nf = rnd_n(8), full = rnd_1in(4); size_t tot = 0; want.n = 0;
	for (size_t i = 0; i < sizeof blob; i++) blob[i] = rnd();
	bb_ctl(&want, T_START, NULL, 0); for (int i = 0; i < nf; i++) { n[i] = 1 + rnd_n(300); bb_32(&want, n[i]); bb_add(&want, blob + tot, n[i]); tot += n[i]; } bb_ctl(&want, T_STOP, NULL, 0);
	nat_note("%d frames, %zu bytes, to standard output%s and from standard input\n", nf, want.n, full ? " on a full disk" : "");
	int fd = full ? open("/dev/full", O_WRONLY) : memfd_create("nat", 0); if (fd < 0) return;
	for (int part = 0; part < 2 && (part == 0 || !full); part++) {
		fflush(NULL); pid_t pid = fork();
		if (pid == 0) {
			int say = dup(1); struct fstrm_file_options *fo = fstrm_file_options_init(); fstrm_file_options_set_file_path(fo, "-"); int bad = 0;
			if (part == 0) {
				dup2(fd, 1); struct fstrm_writer *w = fstrm_file_writer_init(fo, NULL); bool ok = fstrm_writer_open(w) == fstrm_res_success; size_t o = 0;
				for (int i = 0; i < nf; i++) { ok = ok && fstrm_writer_write(w, blob + o, n[i]) == fstrm_res_success; o += n[i]; }
				if (ok) ok = fstrm_writer_close(w) == fstrm_res_success; fstrm_writer_destroy(&w);
				bad = ok == !full ? 0 : full ? 1 : 2;
			} else {
				lseek(fd, 0, SEEK_SET); dup2(fd, 0); struct fstrm_reader *r = fstrm_file_reader_init(fo, NULL); size_t o = 0; const uint8_t *p; size_t l;
				for (int i = 0; i < nf && !bad; i++) { if (fstrm_reader_read(r, &p, &l) != fstrm_res_success || l != n[i] || memcmp(p, blob + o, l)) bad = 3; o += n[i]; }
				if (!bad && fstrm_reader_read(r, &p, &l) != fstrm_res_stop) bad = 3; fstrm_reader_destroy(&r);
			}
			dup2(say, 1); _exit(40 + bad);
		}
		int st = 0; waitpid(pid, &st, 0); int b = WIFEXITED(st) ? WEXITSTATUS(st) - 40 : 9;
		CHECK(b != 1, "a full disk behind standard output is not reported"); CHECK(b != 2, "writing to standard output fails"); CHECK(b != 3, "standard input is not read as it was written"); CHECK(b == 0, "the process dies (status %x)", st);
		if (part == 0 && !full) { static uint8_t back[8192]; ssize_t r = pread(fd, back, sizeof back, 0); CHECK(r == (ssize_t)want.n && !memcmp(back, want.p, want.n), "standard output has %zd bytes, the stream has %zu", r, want.n); }
	}
	close(fd);
}
int main(int argc, char **argv) { nat_init(argc, argv); own = argc > 1 && !strcmp(argv[1], "own"); while (nat_more(2000)) { if (!own && nat_cases % 64 == 0) std(); else one(); } return nat_done(); }
