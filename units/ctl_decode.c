/*
 * fstrm_control_decode() against the control frame grammar.
 *
 * The wire is an uninterpreted function over offsets: be(o) is the big-endian
 * word at offset o, byte_(o) the byte at offset o.  fs_load_be32(),
 * fs_load_bytes() and fstrm_control_reset() are used by contract (each is
 * verified against its real body in ctl_load.c and ctl_reset.c); the vector is
 * used by the contract of fs_bufvec_add() (vec.c).  A ghost recogniser of the
 * grammar runs in lockstep: it consumes one field each time a field is added.
 */
#include "vf.h"

uint32_t __CPROVER_uninterpreted_be(size_t);
uint8_t __CPROVER_uninterpreted_byte(size_t);
#define be	__CPROVER_uninterpreted_be
#define byte_	__CPROVER_uninterpreted_byte

static uint8_t w[540];			/* identity of the wire object; contents are be()/byte_() */
static uint8_t blob[540], blobk[540];	/* memory given out by malloc: blobk for the tracked field */
static size_t L;			/* length of the wire */
static size_t gk, gj;			/* tracked field, tracked byte of it */
static size_t gn, gpos;			/* recogniser: fields accepted so far, offset of the next field */
static size_t gklen, gkoff;		/* recogniser: length and offset of the tracked field's payload */
static uint8_t gbyte;			/* value of the tracked byte of blobk */
static size_t gmalloc;			/* size of the last allocation */
static size_t gmalloc_live;		/* allocations not yet owned by the vector or freed */

static void *vf_malloc(size_t n) { gmalloc = n; gmalloc_live++; return gn == gk ? blobk : blob; }
static void *vf_realloc(void *p, size_t n) { (void)n; return p; }
static void vf_free(void *p) { if (p == blob || p == blobk) { PROVE(gmalloc_live > 0, "free of live allocation"); gmalloc_live--; } }
#define malloc vf_malloc
#define realloc vf_realloc
#define free vf_free
#include "fstrm/fstrm-private.h"

static fs_buf gelem;			/* tracked element of the vector */

static void
vf_bufvec_add(fs_bufvec *v, fs_buf e)
{
	/* the recogniser takes the field at gpos, if it is well formed */
	PROVE(gpos <= L && L - gpos >= 8, "a field is added only if its type and length fit in the frame");
	PROVE(be(gpos) == 1, "only content type fields are added");
	uint32_t fl = be(gpos + 4);
	PROVE(fl <= L - gpos - 8, "a field is added only if its payload fits in the frame");
	PROVE(fl <= FSTRM_CONTROL_FIELD_CONTENT_TYPE_LENGTH_MAX, "a content type field is at most 256 bytes");
	PROVE(e.len == fl, "the added field has the length on the wire");
	PROVE(gmalloc_live == 1, "the added field is freshly allocated");
	if (gn == gk) {
		PROVE(e.data == blobk, "the added field owns its allocation");
		PROVE(IMPL(gj < fl, gbyte == byte_(gpos + 8 + gj)), "the added field has the bytes on the wire");
		gklen = fl; gkoff = gpos + 8;
		gelem = e;
	}
	gmalloc_live--;
	gn++; gpos += 8 + (size_t)fl;
	/* contract of fs_bufvec_add (vec.c) */
	v->_n++;
}
static _Bool
vf_load_be32(const uint8_t **buf, size_t *len, uint32_t *val)
{
	PROVE(SAME(*buf, w) && OFF(*buf) <= L && *len <= L - OFF(*buf), "fs_load_be32 within the frame");
	if (*len < 4) return 0;
	*val = be(OFF(*buf)); *len -= 4; *buf += 4;
	return 1;
}
static _Bool
vf_load_bytes(uint8_t *bytes, size_t n, const uint8_t **buf, size_t *len)
{
	PROVE(SAME(*buf, w) && OFF(*buf) <= L && *len <= L - OFF(*buf), "fs_load_bytes within the frame");
	if (*len < n) return 0;
	PROVE((bytes == blob || bytes == blobk) && n <= gmalloc, "fs_load_bytes target is large enough");
	if (bytes == blobk && gj < n) gbyte = byte_(OFF(*buf) + gj);
	*len -= n; *buf += n;
	return 1;
}
#ifndef VF_BOUNDED
# define fs_load_be32 vf_load_be32
# define fs_load_bytes vf_load_bytes
#else
# define fs_load_be32 vf_load_be32
# define fs_load_bytes vf_load_bytes
#endif
#define fs_bufvec_add vf_bufvec_add
#include "fstrm/control.c"

static _Bool
post(const struct fstrm_control *c, fstrm_res r, uint32_t flags)
{
	/* the grammar, from the specification */
	const _Bool hdr = (flags & FSTRM_CONTROL_FLAG_WITH_HEADER) != 0;
	const size_t o0 = hdr ? 8 : 0;
	_Bool ok = hdr ? (L >= 8 && be(0) == 0 && be(4) == L - 8 && L - 8 <= 512) : L <= 512;
	uint32_t ty = 0;
	if (ok && L - o0 < 4) ok = 0;
	if (ok) { ty = be(o0); if (ty < 1 || ty > 5) ok = 0; }
	if (ok) {
		/* the recogniser took gn fields, up to gpos; what comes next? */
		if (gpos < L) {
			/* the remaining suffix does not start with a well formed field */
			if (L - gpos >= 8 && be(gpos) == 1 && be(gpos + 4) <= L - gpos - 8 && be(gpos + 4) <= 256)
				return 0;
			ok = 0;
		} else if (ty == 2 && gn > 1) ok = 0;
		else if ((ty == 3 || ty == 5) && gn > 0) ok = 0;
	}
	if ((r == fstrm_res_success) != ok) return 0;
	if (r != fstrm_res_success && r != fstrm_res_failure) return 0;
	if (gmalloc_live != 0) return 0;	/* nothing leaked */
	if (c->content_types->_n != gn) return 0;
	if (gk < gn && (gelem.len != gklen || gelem.data != blobk)) return 0;
	if (gk < gn && gj < gklen && gbyte != byte_(gkoff + gj)) return 0;
	if (!ok) return 1;
	return c->type == ty;
}

void reset_c(struct fstrm_control *c)
__CPROVER_assigns(c->type, c->content_types->_n)
__CPROVER_ensures(c->type == 0 && c->content_types->_n == 0)
;
fstrm_res decode_c(struct fstrm_control *c, const void *control_frame, size_t len_control_frame, const uint32_t flags)
__CPROVER_requires(control_frame == w && len_control_frame == L && gn == 0 && gmalloc_live == 0 && gpos == ((flags & 1) ? 12 : 4))
__CPROVER_assigns(c->type, c->content_types->_n, gelem, gbyte, gn, gpos, gklen, gkoff, gmalloc, gmalloc_live)
__CPROVER_ensures(post(c, __CPROVER_return_value, flags))
;
void h(void)
{
	fs_bufvec v;
	struct fstrm_control cc = { nondet_u32(), &v }, *c = &cc;
	v._n = nondet_size();
	v._v = (fs_buf *)nondet_ptr();
	L = nondet_size();
#ifdef VF_BOUNDED
	ASSUME(L <= 8 + 4 + 5 * 8);
#endif
	uint32_t flags = nondet_u32();
	gk = nondet_size(); gj = nondet_size();
	gn = 0; gpos = (flags & 1) ? 12 : 4; gmalloc_live = 0;
	fstrm_res r = fstrm_control_decode(c, w, L, flags);
	COVER(r == fstrm_res_success && gn == 40, "accepts 40 fields");
	COVER(r == fstrm_res_success && gk == 1 && gn == 2 && gklen == 256, "accepts a 256 byte type");
	COVER(r == fstrm_res_success && L == 520 && (flags & 1), "accepts the longest frame");
	COVER(r == fstrm_res_failure && gn == 3, "rejects after three fields");
}
