#include "nat.h"
#include "mock.h"

static struct bb sb, eb;	/* stream from the peer, expected output */
static bool own;
static bool inj;		/* inject transport failures */

static const struct ct *my[16]; static size_t nmy;
static void pick_types(unsigned max)
{
	nmy = rnd_n(max + 1);
	for (size_t i = 0; i < nmy; i++) my[i] = &ct_pool[rnd_n(12)];
	/* keep away from the frame limit itself */
	for (;;) {
		size_t L = 4;
		for (size_t i = 0; i < nmy; i++) L += 8 + my[i]->len;
		if (L <= 504) break;
		if (L > 512 && rnd_1in(2)) break;
		nmy--;
	}
}
static size_t types_size(void) { size_t L = 4; for (size_t i = 0; i < nmy; i++) L += 8 + my[i]->len; return L; }
static void add_ctl(uint32_t type, unsigned maxn)
{
	const struct ct *c[8]; size_t n = rnd_n(maxn + 1), L = 4, k = 0;
	for (size_t i = 0; i < n; i++) { const struct ct *x = nmy && rnd_1in(2) ? my[rnd_n(nmy)] : &ct_pool[rnd_n(12)]; if (L + 8 + x->len > 512) break; L += 8 + x->len; c[k++] = x; }
	if (rnd_1in(25)) type = 1 + rnd_n(5);
	if (rnd_1in(40)) type = rnd_n(9);
	bb_ctl(&sb, type, c, k);
	if (rnd_1in(40)) put32(sb.p + sb.n - L - 4, rnd_1in(2) ? rnd() : L + 1);
	if (rnd_1in(60)) put32(sb.p + sb.n - L - 8, rnd_n(3));
}
static size_t maxf;
static void add_data(void)
{
	size_t n = rnd_1in(12) ? maxf + 1 - rnd_n(3) + (rnd_1in(2) ? 0 : 1) : rnd_1in(4) ? rnd_n(600) : 1 + rnd_n(12);
	if (n == 0) n = 1;
	bb_32(&sb, n);
	uint8_t t[8192]; for (size_t i = 0; i < n; i++) t[i] = rnd_1in(3) ? 0 : rnd();
	bb_add(&sb, t, n);
}
static void note_types(void) { for (size_t i = 0; i < nmy; i++) nat_hex("own type", my[i]->d, my[i]->len); }
/* an earlier attempt must not be felt later */
static struct bb pre;
static void pre_stream(uint32_t t1, uint32_t t2)
{
	struct bb keep = sb; sb = pre; sb.n = 0;
	if (t1) add_ctl(t1, 4); if (t2) add_ctl(t2, 1);
	if (rnd_1in(3) && sb.n) sb.n = rnd_n(sb.n);
	pre = sb; sb = keep;
}
static void pre_done(struct mock *m, const uint8_t *in, size_t n, unsigned failat)
{
	CHECK(m->nopen == m->nclose && !m->opened && m->bad == 0, "an earlier attempt leaves the transport open");
	m->in = in; m->inlen = n; m->inpos = 0; m->outlen = 0; m->nopen = m->nclose = m->nread = m->nwrite = m->opcount = 0; m->failed = false; m->failat = failat;
}
static void leak(long live0, const char *w) { if (own) CHECK(nat_live == live0, "%s: %ld heap blocks left", w, nat_live - live0); }

static void rd_case(void)
{
	bool bidir = rnd_1in(2);
	struct mock m = { 0 };
	size_t maxfs[] = { 512, 513, 600, 4096 };
	nat_case(); ct_gen_pool(); pick_types(4);
	maxf = maxfs[rnd_n(4)];
	bool setmax = maxf != 4096 || rnd_1in(2); if (!setmax) maxf = 1048576;
	sb.n = 0; eb.n = 0;
	if (bidir && !rnd_1in(30)) add_ctl(T_READY, 4);
	if (!rnd_1in(30)) add_ctl(T_START, 1);
	unsigned nf = rnd_n(8);
	size_t savemax = maxf; if (!setmax) maxf = 3000;
	for (unsigned i = 0; i < nf; i++) {
		if (rnd_1in(4)) { int t = 1 + rnd_n(5); if (t != T_STOP) add_ctl(t, t == T_START ? 1 : t == T_FINISH ? 0 : 3); }
		else add_data();
	}
	if (!rnd_1in(6)) add_ctl(T_STOP, 0);
	if (rnd_1in(4)) add_data();
	maxf = savemax;
	if (rnd_1in(6) && sb.n) sb.n = rnd_n(sb.n);
	/* the stream in an exactly sized block */
	uint8_t *in = __real_malloc(sb.n + 1); if (sb.n) memcpy(in, sb.p, sb.n);
	m.in = in; m.inlen = sb.n; m.failat = inj && rnd_1in(2) ? 1 + rnd_n(20) : 0; m.partial = rnd_1in(2);
	nat_note("reader, %s transport, max frame %zu, failing operation %u\n", bidir ? "bidirectional" : "one-way", maxf, m.failat);
	note_types(); nat_hex("stream", in, sb.n);

	long live0 = nat_live;
	struct fstrm_reader_options *ro = fstrm_reader_options_init();
	for (size_t i = 0; i < nmy; i++) CHECK(fstrm_reader_options_add_content_type(ro, my[i]->d, my[i]->len) == fstrm_res_success, "add_content_type refused a type of %zu bytes", my[i]->len);
	static const size_t badmax[] = { 0, 1, 511, 0xffffffffu, 0x100000000u, (size_t)-1 };
	if (rnd_1in(3)) { size_t b = badmax[rnd_n(6)]; CHECK(fstrm_reader_options_set_max_frame_size(ro, b) == fstrm_res_failure, "a maximum frame size of %zu is accepted", b); }
	if (setmax) CHECK(fstrm_reader_options_set_max_frame_size(ro, maxf) == fstrm_res_success, "max frame size %zu refused", maxf);
	struct fstrm_rdwr *rw = mk_rdwr(&m, true, bidir);
	struct fstrm_reader *r = fstrm_reader_init(ro, &rw);
	CHECK(r != NULL && rw == NULL, "reader_init");
	if (setmax && rnd_1in(4)) fstrm_reader_options_set_max_frame_size(ro, 70000);	/* the reader has its own copy */
	fstrm_reader_options_destroy(&ro);

	/* what the handshake must do */
	size_t pos = 0, base, sbase = 0; struct ref rr, rs; bool open_ok = true; uint8_t *rdy = NULL; struct ref rrdy = { 0 };
	if (bidir) {
		if (!ref_ctl_at(in, sb.n, &pos, true, &rr, &base) || rr.type != T_READY) open_ok = false;
		else {
			const struct ct *acc[16]; size_t na = 0;
			for (size_t i = 0; i < nmy; i++) if (ref_match(in + base, &rr, my[i])) acc[na++] = my[i];
			size_t L = 4; for (size_t i = 0; i < na; i++) L += 8 + acc[i]->len;
			rdy = in + base; rrdy = rr;
			if (L > 504) open_ok = false; else bb_ctl(&eb, T_ACCEPT, acc, na);
		}
	}
	if (open_ok) {
		if (!ref_ctl_at(in, sb.n, &pos, true, &rs, &sbase) || rs.type != T_START) open_ok = false;
		else if (nmy) { bool any = false; for (size_t i = 0; i < nmy; i++) any |= ref_match(in + sbase, &rs, my[i]); open_ok = any; }
	}
	/* three ways to open */
	unsigned how = rnd_n(3); 
	if (rnd_1in(3)) {
		unsigned fa = m.failat; pre_stream(bidir ? T_READY : 0, T_START); m.in = pre.p; m.inlen = pre.n; m.failat = inj && rnd_1in(2) ? 1 + rnd_n(6) : 0;
		nat_hex("earlier stream", pre.p, pre.n);
		if (fstrm_reader_open(r) == fstrm_res_success) { how = 0; (void)fstrm_reader_close(r); }
		pre_done(&m, in, sb.n, fa);
	}
	fstrm_res res; const struct fstrm_control *c; const uint8_t *d = NULL; size_t dn = 0;
	nat_note("opened by %s\n", how == 0 ? "open" : how == 1 ? "get_control" : "read");
	bool opened = false, rfail = false;
	if (how == 0) { res = fstrm_reader_open(r); opened = res == fstrm_res_success; }
	else if (how == 1) { res = fstrm_reader_get_control(r, FSTRM_CONTROL_START, &c); opened = res == fstrm_res_success; }
	if (how < 2) {
		if (!m.failed) CHECK(opened == open_ok, "open %s where the protocol says %s", opened ? "succeeds" : "fails", open_ok ? "success" : "failure");
		else CHECK(!opened || open_ok, "open succeeds where it must not");
	}
	if (opened && !m.failed && rnd_1in(2)) {
		size_t o = m.outlen, ip = m.inpos; unsigned no = m.nopen;
		CHECK(fstrm_reader_open(r) == fstrm_res_failure && m.outlen == o && m.inpos == ip && m.nopen == no && m.opened, "opening an open reader does something");
	}
	if (how == 2 || opened) {
		unsigned nreads = 0; bool seen_stop = false, over = false, first = how == 2;
		unsigned lim = rnd_1in(4) ? 1 + rnd_n(4) : 100;
		while (nreads++ < lim) {
			d = NULL; dn = 12345;
			bool hadfail = m.failed;
			res = fstrm_reader_read(r, &d, &dn); if (res != fstrm_res_success) rfail = true;
			if (!m.failed && nreads == 1 && first) {
				if (!open_ok) { CHECK(res == fstrm_res_failure || res == fstrm_res_stop, "read gives %d on a stream that cannot be opened", res); CHECK(d == NULL, "data out of a stream that cannot be opened"); break; }
			}
			if (m.failed) { if (!hadfail || res == fstrm_res_success) CHECK(res != fstrm_res_success || open_ok, "data after a failed transport"); }
			if (m.failed && res != fstrm_res_success) break;
			if (m.failed) { CHECK(0, "read succeeds after the transport failed"); }
			if (first && nreads == 1) opened = true;
			/* expected next item */
			for (;;) {
				if (sb.n - pos < 4) { CHECK(res != fstrm_res_success, "data beyond the end of the input"); over = true; break; }
				uint32_t l = get32(in + pos); pos += 4;
				if (l == 0) {
					if (!ref_ctl_at(in, sb.n, &pos, false, &rr, &base)) { CHECK(res == fstrm_res_failure || (res == fstrm_res_stop && sb.n - pos < 4 + 512), "bad control frame: read gives %d", res); CHECK(res != fstrm_res_success, "data out of a bad control frame"); over = true; break; }
					if (rr.type == T_STOP) {
						CHECK(res == fstrm_res_stop, "STOP frame: read gives %d", res); over = true; seen_stop = true; rfail = false;
						CHECK(fstrm_reader_get_control(r, FSTRM_CONTROL_STOP, &c) == fstrm_res_success && c, "no STOP frame kept");
						fstrm_control_type ty = 0; CHECK(fstrm_control_get_type(c, &ty) == fstrm_res_success && ty == FSTRM_CONTROL_STOP, "STOP frame has another type");
						d = NULL; res = fstrm_reader_read(r, &d, &dn); CHECK(res != fstrm_res_success && d == NULL, "data after STOP");
						break;
					}
					continue;
				}
				if (l > maxf) { CHECK(res == fstrm_res_failure, "frame of %u bytes over the maximum of %zu: read gives %d", l, maxf, res); over = true; break; }
				if (sb.n - pos < l) { CHECK(res != fstrm_res_success, "truncated frame delivered"); over = true; break; }
				CHECK(res == fstrm_res_success, "frame of %u bytes: read gives %d", l, res);
				CHECK(dn == l && d && nat_cmp(d, in + pos, l) == 0, "wrong data frame delivered (length %zu for %u)", dn, l);
				pos += l;
				break;
			}
			if (over) { if (res != fstrm_res_stop || rr.type != T_STOP) { d = NULL; res = fstrm_reader_read(r, &d, &dn); CHECK(res != fstrm_res_success && d == NULL, "data after a failed read"); } break; }
		}
		for (int ty = 0; opened && ty < 8; ty++) {
			c = (void *)1; res = fstrm_reader_get_control(r, ty, &c);
			if (res == fstrm_res_success) {
				CHECK(c && c != (void *)1, "get_control(%d) succeeds without a frame", ty);
				CHECK(bidir || ty == T_START || ty == T_STOP, "a %d frame on a one-way stream", ty);
				fstrm_control_type t2 = 0; CHECK(fstrm_control_get_type(c, &t2) == fstrm_res_success && t2 == ty, "get_control(%d) gives a frame of type %d", ty, (int)t2);
				CHECK(ty != T_STOP || seen_stop, "a STOP frame that was never sent");
			} else CHECK(ty != T_STOP || !seen_stop, "the STOP frame is lost");
		}
		if (opened && how != 1 && rnd_1in(2) && !m.failed) {
			CHECK(fstrm_reader_get_control(r, FSTRM_CONTROL_START, &c) == fstrm_res_success && c, "no START frame");
		}
		if (opened && !m.failed && open_ok && fstrm_reader_get_control(r, FSTRM_CONTROL_START, &c) == fstrm_res_success && c) {
			size_t n = 99; CHECK(fstrm_control_get_num_field_content_type(c, &n) == fstrm_res_success && n == rs.n, "START frame has %zu types, sent %zu", n, rs.n);
			if (n) { const uint8_t *p; size_t l; CHECK(fstrm_control_get_field_content_type(c, 0, &p, &l) == fstrm_res_success && l == rs.len[0] && nat_cmp(p, in + sbase + rs.off[0], l) == 0, "START frame has another content type"); }
			if (bidir) {
				CHECK(fstrm_reader_get_control(r, FSTRM_CONTROL_READY, &c) == fstrm_res_success && c, "no READY frame");
				n = 99; CHECK(fstrm_control_get_num_field_content_type(c, &n) == fstrm_res_success && n == rrdy.n, "READY frame has %zu types, sent %zu", n, rrdy.n);
				for (size_t i = 0; i < n; i++) { const uint8_t *p; size_t l; CHECK(fstrm_control_get_field_content_type(c, i, &p, &l) == fstrm_res_success && l == rrdy.len[i] && nat_cmp(p, rdy + rrdy.off[i], l) == 0, "READY frame has another content type"); }
			}
		}
	}
	if (!m.failed) CHECK(m.outlen == eb.n && (eb.n == 0 || nat_cmp(m.out, eb.p, eb.n) == 0), "the reader wrote %zu bytes, the handshake has %zu", m.outlen, eb.n);
	else CHECK(m.outlen <= eb.n && (m.outlen == 0 || nat_cmp(m.out, eb.p, m.outlen) == 0), "after a failure, the reader's output is not a prefix of the handshake");
	if (!opened && how < 2) CHECK(!m.opened, "the transport stays open after a failed open");
	size_t out0 = m.outlen; bool failed0 = m.failed; bool expect_finish = false;
	if (rnd_1in(2)) {
		bool can = opened && !m.failed && m.opened;	/* still open: STOP seen or mid-stream */
		res = fstrm_reader_close(r);
		if (!m.failed) {
			if (can) {
				if (res == fstrm_res_success) { expect_finish = bidir; CHECK(!m.opened, "transport open after close"); }
			}
		}
		if (res == fstrm_res_success) CHECK(!m.opened, "transport open after a successful close");
		if (!failed0 && bidir && res == fstrm_res_success) CHECK(m.outlen == out0 + 12 && get32(m.out + out0) == 0 && get32(m.out + out0 + 4) == 4 && get32(m.out + out0 + 8) == T_FINISH, "close did not write FINISH");
		if (!bidir) CHECK(m.outlen == out0, "close wrote to a one-way transport");
		size_t o1 = m.outlen; unsigned nc = m.nclose;
		CHECK(fstrm_reader_close(r) == fstrm_res_failure && m.outlen == o1 && m.nclose == nc, "a second close does something");
		if (res == fstrm_res_success) { d = NULL; CHECK(fstrm_reader_read(r, &d, &dn) == fstrm_res_stop && d == NULL, "read after close does not stop"); }
	}
	(void)expect_finish;
	bool was = m.opened && opened && !rfail && !m.failed && bidir; size_t out1 = m.outlen;
	fstrm_reader_destroy(&r);
	if (was && !m.failed) CHECK(m.outlen == out1 + 12 && get32(m.out + out1 + 8) == T_FINISH, "destroying an open reader does not finish the stream");
	CHECK(r == NULL, "destroy leaves the handle");
	CHECK(m.ndestroy == 1, "transport destroyed %u times", m.ndestroy);
	CHECK(m.nopen == m.nclose && !m.opened, "transport opened %u times, closed %u times", m.nopen, m.nclose);
	CHECK(m.bad == 0, "transport used while not open (or closed twice)");
	CHECK(m.outlen <= eb.n + 12, "more output than handshake and FINISH");
	leak(live0, "reader");
	free(m.out); nat_live = live0;
	__real_free(in);
}

static void wr_case(void)
{
	bool bidir = rnd_1in(2);
	struct mock m = { 0 };
	nat_case(); ct_gen_pool(); pick_types(5);
	sb.n = 0; eb.n = 0;
	if (bidir && !rnd_1in(30)) add_ctl(T_ACCEPT, 5);
	size_t fin_at = sb.n;
	if (bidir && !rnd_1in(10)) add_ctl(T_FINISH, 0);
	if (rnd_1in(10) && sb.n) sb.n = rnd_n(sb.n);
	uint8_t *in = __real_malloc(sb.n + 1); if (sb.n) memcpy(in, sb.p, sb.n);
	m.in = in; m.inlen = sb.n; m.failat = inj && rnd_1in(2) ? 1 + rnd_n(14) : 0; m.partial = rnd_1in(2);
	nat_note("writer, %s transport, failing operation %u\n", bidir ? "bidirectional" : "one-way", m.failat);
	note_types(); nat_hex("from peer", in, sb.n);
	long live0 = nat_live;
	struct fstrm_writer_options *wo = fstrm_writer_options_init();
	for (size_t i = 0; i < nmy; i++) CHECK(fstrm_writer_options_add_content_type(wo, my[i]->d, my[i]->len) == fstrm_res_success, "add_content_type refused a type of %zu bytes", my[i]->len);
	struct fstrm_rdwr *rw = mk_rdwr(&m, bidir, true);
	struct fstrm_writer *w = fstrm_writer_init(wo, &rw);
	CHECK(w != NULL && rw == NULL, "writer_init");
	fstrm_writer_options_destroy(&wo);

	size_t pos = 0, base = 0; struct ref ra = { 0 }; bool open_ok = true; const struct ct *chosen = NULL; bool alt = false;
	if (bidir) {
		if (types_size() > 504) open_ok = false;
		else {
			bb_ctl(&eb, T_READY, my, nmy);
			if (!ref_ctl_at(in, sb.n, &pos, true, &ra, &base) || ra.type != T_ACCEPT) open_ok = false;
			else if (nmy) {
				for (size_t i = 0; i < nmy && !chosen; i++) if (ref_match(in + base, &ra, my[i])) chosen = my[i];
				if (!chosen) open_ok = false;
			}
		}
	} else if (nmy) chosen = my[0];
	if (open_ok) bb_ctl(&eb, T_START, &chosen, chosen ? 1 : 0);
	(void)alt; (void)fin_at;
	size_t hs = eb.n;
	fstrm_res res; bool opened = false;
	unsigned how = rnd_n(3); bool earlier = false;
	if (rnd_1in(3)) {
		unsigned fa = m.failat; pre_stream(bidir ? T_ACCEPT : 0, bidir ? T_FINISH : 0); m.in = pre.p; m.inlen = pre.n; m.failat = inj && rnd_1in(2) ? 1 + rnd_n(6) : 0;
		nat_hex("from the peer, earlier", pre.p, pre.n);
		if (fstrm_writer_open(w) == fstrm_res_success) { how = 0; earlier = true; if (rnd_1in(2)) (void)fstrm_writer_write(w, "abc", 3); (void)fstrm_writer_close(w); }
		pre_done(&m, in, sb.n, fa);
	}
	nat_note("opened by %s\n", how == 0 ? "open" : how == 1 ? "get_control" : "write");
	struct fstrm_control *c;
	if (how == 0) { res = fstrm_writer_open(w); opened = res == fstrm_res_success; if (opened && rnd_1in(2)) { size_t o = m.outlen; CHECK(fstrm_writer_open(w) == fstrm_res_success && m.outlen == o && m.nopen == 1, "opening an open writer does something"); } }
	else if (how == 1) { res = fstrm_writer_get_control(w, FSTRM_CONTROL_START, &c); opened = res == fstrm_res_success; }
	if (how < 2) {
		if (!m.failed) CHECK(opened == open_ok, "open %s where the protocol says %s", opened ? "succeeds" : "fails", open_ok ? "success" : "failure");
		else CHECK(!opened || open_ok, "open succeeds where it must not");
		if (!opened) CHECK(!m.opened, "the transport stays open after a failed open");
		else if (!m.failed) CHECK(m.outlen == eb.n && nat_cmp(m.out, eb.p, eb.n) == 0, "handshake bytes differ");
	}
	bool wfail = false;
	if (opened || how == 2) {
		unsigned nw = rnd_n(5) + (how == 2);
		for (unsigned k = 0; k < nw; k++) {
			int cnt = rnd_1in(10) ? 0 : rnd_1in(3) ? 1 : rnd_1in(4) ? 100 + rnd_n(400) : rnd_1in(4) ? (int)(128 * (1 + rnd_n(4)) - 1 + rnd_n(3)) : 1 + rnd_n(6);
			struct iovec *v = __real_malloc(sizeof(*v) * (cnt + 1)); uint8_t *blob = __real_malloc(cnt * 40 + 5000); size_t o = 0; bool bad = false;
			size_t eb0 = eb.n, out0 = m.outlen;
			int badat = rnd_1in(12) && cnt ? (int)rnd_n(cnt) : -1; bool toolong = rnd_1in(2);
			for (int i = 0; i < cnt; i++) {
				size_t n = cnt < 10 && rnd_1in(20) ? rnd_n(600) + 1 : 1 + rnd_n(24);
				if (i == badat) { bad = true; n = toolong ? 0x100000000ull + rnd_n(3) : 0; v[i].iov_base = blob; v[i].iov_len = n; continue; }
				for (size_t q = 0; q < n; q++) blob[o + q] = rnd();
				v[i].iov_base = blob + o; v[i].iov_len = n; bb_32(&eb, n); bb_add(&eb, blob + o, n); o += n;
			}
			nat_note("writev of %d frames%s%s\n", cnt, bad ? ", one of them unrepresentable" : "", m.failed ? " (transport failed before)" : "");
			bool failed0 = m.failed; bool wasopen = opened;
			if (cnt == 1 && rnd_1in(2)) res = fstrm_writer_write(w, v[0].iov_base, v[0].iov_len); else res = fstrm_writer_writev(w, v, cnt);
			if (cnt == 0) { CHECK(res == fstrm_res_success, "writev of nothing fails"); CHECK(m.outlen == out0 || !wasopen, "writev of nothing writes"); }
			else if (bad) { eb.n = eb0; CHECK(res == fstrm_res_failure, "an unrepresentable frame is accepted"); CHECK(m.outlen <= (wasopen ? out0 : hs), "data written although a frame cannot be represented"); if (m.outlen == hs && !wasopen && m.opened) opened = true; }
			else if (failed0) { CHECK(res != fstrm_res_success && m.outlen == out0, "write on a failed stream"); eb.n = eb0; }
			else if (!m.failed && (wasopen || open_ok)) {
				CHECK(res == fstrm_res_success, "writev fails (%d)", res); opened = true;
				CHECK(m.outlen == eb.n && nat_cmp(m.out, eb.p, eb.n) == 0, "the stream differs from the length-prefixed frames (%zu bytes, expected %zu)", m.outlen, eb.n);
			} else if (!m.failed) { CHECK(res != fstrm_res_success, "write on a stream that cannot be opened"); eb.n = eb0; m.outlen = 0; k = nw; }
			else { CHECK(res != fstrm_res_success || m.outlen == eb.n, "the transport failed, writev succeeds"); wfail = true;
				if (wasopen || open_ok) CHECK(m.outlen <= eb.n && nat_cmp(m.out, eb.p, m.outlen) == 0, "what was written before the failure is not a prefix of the stream");
				k = nw; }
			__real_free(v); __real_free(blob);
			if (!m.opened && how == 2 && !opened && cnt) break;
		}
	}
	if (opened && !m.failed && rnd_1in(2)) {
		CHECK(fstrm_writer_get_control(w, FSTRM_CONTROL_START, &c) == fstrm_res_success && c, "no START frame");
		size_t n = 99; CHECK(fstrm_control_get_num_field_content_type(c, &n) == fstrm_res_success && n == (chosen != NULL), "START has %zu types", n);
		for (int ty = 0; ty < 8; ty++) {
			if (earlier && ty == T_FINISH) continue;
			c = (void *)1; res = fstrm_writer_get_control(w, ty, &c); fstrm_control_type t2 = 0;
			if (res == fstrm_res_success) CHECK(c && c != (void *)1 && fstrm_control_get_type(c, &t2) == fstrm_res_success && t2 == ty, "get_control(%d) succeeds without that frame", ty);
			if (ty == T_FINISH || ty == T_STOP || (!bidir && ty != T_START)) CHECK(res != fstrm_res_success, "get_control(%d) gives a frame that was not exchanged", ty);
		}
		if (bidir) { CHECK(fstrm_writer_get_control(w, FSTRM_CONTROL_ACCEPT, &c) == fstrm_res_success && c, "no ACCEPT frame");
			n = 99; CHECK(fstrm_control_get_num_field_content_type(c, &n) == fstrm_res_success && n == ra.n, "ACCEPT has %zu types, received %zu", n, ra.n); }
	}
	size_t o1 = m.outlen; bool failed1 = m.failed; bool byclose = rnd_1in(2);
	if (opened && !failed1) bb_ctl(&eb, T_STOP, NULL, 0);
	if (byclose) {
		struct ref rf; bool fin_ok = !bidir || (ref_ctl_at(in, sb.n, &pos, true, &rf, &base) && rf.type == T_FINISH);
		res = fstrm_writer_close(w);
		nat_note("close gives %d\n", res);
		if (!opened) CHECK(res == fstrm_res_failure || m.failed || failed1, "closing a writer that is not open gives %d", res);
		if (opened && !m.failed) { CHECK((res == fstrm_res_success) == fin_ok, "close gives %d, FINISH %s", res, fin_ok ? "was received" : "is missing"); }
		if (opened && !m.failed && !failed1) CHECK(m.nclose == m.nopen, "closed %u times", m.nclose);
		CHECK(!m.opened, "transport open after close");
		size_t o2 = m.outlen; unsigned nc = m.nclose;
		CHECK(fstrm_writer_close(w) == fstrm_res_failure && m.outlen == o2 && m.nclose == nc, "a second close does something");
		CHECK(fstrm_writer_write(w, "x", 1) == fstrm_res_failure || !opened || failed1 || wfail, "write after close");
		if (opened && !failed1 && !wfail) CHECK(m.outlen == o2, "data written after close");
	}
	bool fin2 = false; { struct ref rf; size_t p2 = pos, b2; fin2 = !bidir || (ref_ctl_at(in, sb.n, &p2, true, &rf, &b2) && rf.type == T_FINISH); }
	bool was = opened && !byclose && !m.failed;
	res = fstrm_writer_destroy(&w);
	if (was && !m.failed) CHECK((res == fstrm_res_success) == fin2, "destroy of an open writer gives %d, FINISH %s", res, fin2 ? "was received" : "is missing");
	if (was && m.failed) CHECK(res != fstrm_res_success, "destroy of an open writer succeeds although the transport failed");
	CHECK(w == NULL, "destroy leaves the handle");
	if (opened && !m.failed) CHECK(m.outlen == eb.n && nat_cmp(m.out, eb.p, eb.n) == 0, "the whole stream (ending in one STOP) differs: %zu bytes, expected %zu", m.outlen, eb.n);
	if (failed1 && opened) CHECK(m.outlen == o1, "bytes follow a failed write");
	CHECK(m.ndestroy == 1, "transport destroyed %u times", m.ndestroy);
	CHECK(m.nopen == m.nclose && !m.opened, "transport opened %u times, closed %u times", m.nopen, m.nclose);
	CHECK(m.bad == 0, "transport used while not open (or closed twice)");
	leak(live0, "writer");
	free(m.out); nat_live = live0;
	__real_free(in);
}

/* gating by fstrm_rdwr: model of the opened flag */
static void gate_case(void)
{
	struct mock m = { 0 }; bool rd = !rnd_1in(5), wr = !rnd_1in(5), op = false;
	uint8_t in[64], d[64]; struct bb want = { 0 };
	nat_case();
	for (int i = 0; i < 64; i++) in[i] = rnd();
	m.in = in; m.inlen = rnd_n(65); m.partial = false;
	nat_note("transport with read=%d write=%d\n", rd, wr);
	long live0 = nat_live;
	struct fstrm_rdwr *r = mk_rdwr(&m, rd, wr);
	bool noopen = rnd_1in(20), noclose = rnd_1in(20) && noopen;
	if (noopen) fstrm_rdwr_set_open(r, NULL);
	if (noclose) fstrm_rdwr_set_close(r, NULL);
	unsigned n = rnd_n(14);
	for (unsigned k = 0; k < n; k++) {
		m.failat = rnd_1in(3) ? m.opcount + 1 : 0; m.failed = false;
		unsigned o0 = m.nopen, c0 = m.nclose, r0 = m.nread, w0 = m.nwrite; fstrm_res res; size_t inpos = m.inpos, out0 = m.outlen;
		switch (rnd_n(4)) {
		case 0: if (op) break;	/* opening twice is the transport's business */
			res = fstrm_rdwr_open(r); nat_note("open=%d\n", res);
			if (noopen) CHECK(res == fstrm_res_failure && m.nopen == o0, "open without an open method");
			else { CHECK((res == fstrm_res_success) == !m.failed, "open result"); op = res == fstrm_res_success; }
			break;
		case 1: res = fstrm_rdwr_close(r); nat_note("close=%d\n", res);
			if (noclose) { CHECK(res == fstrm_res_failure, "close without a close method"); break; }
			CHECK(m.nclose == c0 + (op ? 1 : 0), "close called %u times", m.nclose - c0);
			CHECK((res == fstrm_res_success) == !m.failed, "close result");
			op = false; break;
		case 2: { size_t cnt = 1 + rnd_n(20); memset(d, 0, sizeof d); res = fstrm_rdwr_read(r, d, cnt); nat_note("read(%zu)=%d\n", cnt, res);
			if (!op || !rd) CHECK(res == fstrm_res_failure && m.nread == r0, "read passes although %s", op ? "there is no read method" : "not open");
			else { CHECK(m.nread == r0 + 1, "read not passed on once"); bool ok = !m.failed && cnt <= m.inlen - inpos;
				CHECK((res == fstrm_res_success) == ok, "read result");
				if (ok) CHECK(nat_cmp(d, in + inpos, cnt) == 0, "read data"); else { CHECK(m.nclose == c0 + 1, "a failed read must close"); op = false; } }
			break; }
		default: { struct iovec v[2] = { { in, rnd_n(20) }, { in + 20, 1 + rnd_n(20) } }; int cnt = 1 + rnd_n(2); res = fstrm_rdwr_write(r, v, cnt); nat_note("write(%d)=%d\n", cnt, res);
			if (!op || !wr) CHECK(res == fstrm_res_failure && m.nwrite == w0 && m.outlen == out0, "write passes although %s", op ? "there is no write method" : "not open");
			else { CHECK(m.nwrite == w0 + 1, "write not passed on once"); CHECK((res == fstrm_res_success) == !m.failed, "write result");
				if (!m.failed) { for (int i = 0; i < cnt; i++) bb_add(&want, v[i].iov_base, v[i].iov_len); CHECK(m.outlen == want.n && nat_cmp(m.out, want.p, want.n) == 0, "written data"); }
				else { CHECK(m.nclose == c0 + 1, "a failed write must close"); op = false; } } }
		}
		CHECK(m.bad == 0, "the transport is used while not open");
		CHECK(noclose || m.opened == op, "transport open=%d, must be %d", m.opened, op);
	}
	m.failat = 0; m.dfail = rnd_1in(3);
	CHECK(fstrm_rdwr_destroy(&r) == (m.dfail ? fstrm_res_failure : fstrm_res_success), "the result of destroy is not that of the transport");
	CHECK(r == NULL && m.ndestroy == 1 && m.nopen == m.nclose && m.bad == 0, "destroy: destroyed %u, opened %u, closed %u", m.ndestroy, m.nopen, m.nclose);
	leak(live0, "rdwr");
	free(m.out); nat_live = live0; __real_free(want.p);
}

int main(int argc, char **argv)
{
	nat_init(argc, argv);
	const char *mode = argv[1];
	own = !strcmp(mode, "own");
	while (nat_more(3000)) {
		inj = nat_cases & 1;
		if (!strcmp(mode, "read")) rd_case();
		else if (!strcmp(mode, "write")) wr_case();
		else if (!strcmp(mode, "gate")) gate_case();
		else { if (rnd_1in(3)) gate_case(); else if (rnd_1in(2)) wr_case(); else rd_case(); }
	}
	return nat_done();
}
