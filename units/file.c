/* fstrm/file.c under contract; stdio by contract: fread/fwrite of one item is all or nothing, with an error or end-of-file flag. */
#include "vf.h"
#include "fstrm/fstrm-private.h"
#define COVER_(c) COVER(c, "c")
#undef stdin
#undef stdout
static FILE F_IN, F_OUT, F_REG;
static FILE *CUR; static _Bool live, dead, failed; static unsigned n_fopen, n_fclose, n_fread, n_fwrite;
static char mode_; static const char *path_; static _Bool fopen_ok, fclose_ok;
static _Bool dash;
#define stdin (&F_IN)
#define stdout (&F_OUT)
static FILE *vf_fopen(const char *p, const char *m)
{
	PROVE(!dash, "\"-\" is not a file name");
	PROVE(p == path_, "opens the configured path"); PROVE(m[0] == mode_ && m[1] == 0, "in the mode of this reader or writer");
	PROVE(!live, "not opened twice"); n_fopen++;
	if (!fopen_ok) return NULL;
	live = 1; CUR = &F_REG; return CUR;
}
static int vf_fclose(FILE *f) { PROVE(f == CUR && live && f, "closes the open file once"); n_fclose++; live = 0; CUR = NULL; return fclose_ok ? 0 : -1; }
static void *rd_p; static size_t rd_n; static _Bool rd_err, rd_eof, rd_ok;
static size_t vf_fread(void *p, size_t s, size_t n, FILE *f)
{
	PROVE(f == CUR && live, "reads the open file"); n_fread++;
	PROVE(s != 0 && n != 0 && s <= (size_t)-1 / n, "sane size"); rd_p = p; rd_n = s * n; if (n != 1) { PROVE(s == 1, "unit items"); }
	if (rd_ok) return n;
	size_t k = nondet_size(); ASSUME(k < n);
	return k;
}
static int vf_ferror(FILE *f) { PROVE(f == CUR && live, "asks about the open file"); return rd_err; }
static int vf_feof(FILE *f) { PROVE(f == CUR && live, "asks about the open file"); return rd_eof; }
/* write: tracked order */
static struct iovec *IOV; static int N; static size_t wcount; static int pf_fail;
static size_t vf_fwrite(const void *p, size_t s, size_t n, FILE *f)
{
	PROVE(f == CUR && live, "writes the open file"); PROVE(!failed, "nothing is written after a failure");
	PROVE(wcount < (size_t)N && p == IOV[wcount].iov_base && s * n == IOV[wcount].iov_len && (s == 1 || n == 1), "writes the next buffer, whole");
	if ((int)wcount == pf_fail) { failed = 1; size_t k = nondet_size(); ASSUME(k < n); return k; }
	wcount++;
	return n;
}
#define fopen vf_fopen
#define fclose vf_fclose
#define fread vf_fread
#undef ferror
#undef feof
#define ferror vf_ferror
#define feof vf_feof
#define fwrite vf_fwrite
static unsigned n_free; static void *fr[4];
static void vf_free(void *p) { if (n_free < 4) fr[n_free] = p; n_free++; free(p); }
static int vf_strcmp(const char *a, const char *b) { PROVE(a == path_ && b[0] == '-' && b[1] == 0, "compares the path with \"-\""); return dash ? 0 : nondet_bool() ? 1 : -1; }
#define strcmp vf_strcmp
#define free vf_free
static unsigned n_dup; static const char *dup_of[2]; static char *dup_is[2];
static char *vf_strdup(const char *s_) { char *p = __CPROVER_allocate(1, 0); dup_of[n_dup] = s_; dup_is[n_dup] = p; n_dup++; return p; }
#undef strdup
#define strdup vf_strdup
#define my_strdup vf_strdup
#include "fstrm/file.c"
#undef free
static struct fstrm__file *F;
static void mk(_Bool isopen)
{
	F = __CPROVER_allocate(sizeof *F, 0); ASSUME(F != NULL);
	path_ = F->file_path = __CPROVER_allocate(8, 0); mode_ = nondet_bool() ? 'r' : 'w';
	F->file_mode[0] = mode_; F->file_mode[1] = 0; F->fp = isopen ? &F_REG : NULL;
	live = isopen; CUR = isopen ? &F_REG : NULL;
	failed = 0; n_fopen = n_fclose = n_fread = n_fwrite = n_free = 0; wcount = 0;
	fopen_ok = nondet_bool(); fclose_ok = nondet_bool(); dash = nondet_bool();
	if (isopen && dash) { F->fp = CUR = mode_ == 'r' ? stdin : stdout; }
}
void h_open(void)
{
	mk(0);
	if (dash) { live = 1; CUR = mode_ == 'r' ? stdin : stdout; }
	fstrm_res r = fstrm__file_op_open(F);
	PROVE(n_fopen == !dash, "one fopen, none for \"-\"");
	PROVE(r == (dash || fopen_ok ? fstrm_res_success : fstrm_res_failure), "succeeds exactly if the file opens");
	PROVE(F->fp == CUR, "remembers the open file"); PROVE(IMPL(r != fstrm_res_success, !F->fp), "nothing open after a failure");
	PROVE(F->file_path == path_ && F->file_mode[0] == mode_ && F->file_mode[1] == 0 && !n_free && !n_fclose, "nothing else changes");
	COVER_(r == fstrm_res_success && dash); COVER_(r == fstrm_res_success && !dash); COVER_(r == fstrm_res_failure);
}
void h_close(void)
{
	_Bool o = nondet_bool();
	mk(o);
	fstrm_res r = fstrm__file_op_close(F);
	PROVE(n_fclose == o && !live && F->fp == NULL, "closes exactly once, and only if open");
	PROVE(r == (o && fclose_ok ? fstrm_res_success : fstrm_res_failure), "a failing close (unwritten data) is reported");
	COVER_(r == fstrm_res_success); COVER_(o && r != fstrm_res_success);
}
void h_read(void)
{
	_Bool o = nondet_bool(); size_t n = nondet_size(); char D[1];
	ASSUME(n > 0);	/* the reader asks for at least one byte: rd.* , rw.rcf */
	mk(o); rd_ok = nondet_bool(); rd_err = nondet_bool(); rd_eof = nondet_bool();
	FILE *f0 = F->fp;
	fstrm_res r = fstrm__file_op_read(F, D, n);
	PROVE(n_fread == o, "one read of the open file");
	PROVE(IMPL(o, rd_p == D && rd_n == n), "of exactly the bytes asked for");
	PROVE(IMPL(r == fstrm_res_success, o && rd_ok), "success only if all of them arrived");
	PROVE(IMPL(o && rd_ok, r == fstrm_res_success), "and then always");
	PROVE(IMPL(r == fstrm_res_stop, o && !rd_err && rd_eof), "stop only at the end of the file");
	PROVE(IMPL(o && !rd_ok && !rd_err && rd_eof, r == fstrm_res_stop), "and there always");
	PROVE(r == fstrm_res_success || r == fstrm_res_stop || r == fstrm_res_failure, "anything else is a failure");
	PROVE(F->fp == f0 && !n_fclose, "the file stays open");
	COVER_(r == fstrm_res_success); COVER_(r == fstrm_res_stop); COVER_(r == fstrm_res_failure && o);
}
void h_write(void)
{
	_Bool o = nondet_bool();
	mk(o); N = nondet_int(); ASSUME(N >= 0 && N <= 1024);	/* IOV_MAX; the writer passes at most 256 */
#ifdef VF_BOUNDED
	ASSUME(N <= 3);
#endif
	IOV = __CPROVER_allocate((size_t)N * sizeof(struct iovec), 0);
	pf_fail = nondet_int(); ASSUME(pf_fail >= -1 && pf_fail < N);
	fstrm_res r = fstrm__file_op_write(F, IOV, N);
	PROVE(IMPL(!o, r == fstrm_res_failure && wcount == 0 && !n_fclose), "needs an open file");
	PROVE(IMPL(o && pf_fail < 0, r == fstrm_res_success && wcount == (size_t)N && F->fp == CUR && live && !n_fclose), "every buffer is written once, in order");
	PROVE(IMPL(o && pf_fail >= 0, r == fstrm_res_failure && wcount == (size_t)pf_fail), "stops at the first failure and reports it");
	PROVE(F->fp == CUR && (F->fp != NULL) == (live != 0) && n_fclose <= 1, "the file is known to be open exactly while it is");
	COVER_(o && pf_fail < 0 && N > 2); COVER_(o && pf_fail > 1);
}
void h_destroy(void)
{
	mk(0); void *a = F->file_path, *b = F;
	fstrm_res r = fstrm__file_op_destroy(F);
	PROVE(r == fstrm_res_success && n_free == 2 && fr[0] == a && fr[1] == b && !n_fclose, "frees the path and the object, each once");
	COVER_(1);
}
static struct fstrm_rdwr *W; static unsigned n_ri, n_so, n_sc, n_sr, n_sw, n_sd, n_rd, n_wr; static void *ri_obj;
static fstrm_rdwr_open_func so; static fstrm_rdwr_close_func sc; static fstrm_rdwr_read_func sr; static fstrm_rdwr_write_func sw; static fstrm_rdwr_destroy_func sd;
static char tkw[1], tkr[1], tkwr[1];
struct fstrm_rdwr *fstrm_rdwr_init(void *o) { n_ri++; ri_obj = o; return (void *)tkw; }
void fstrm_rdwr_set_open(struct fstrm_rdwr *w, fstrm_rdwr_open_func f) { PROVE((void *)w == tkw, "own transport"); so = f; n_so++; }
void fstrm_rdwr_set_close(struct fstrm_rdwr *w, fstrm_rdwr_close_func f) { PROVE((void *)w == tkw, "own transport"); sc = f; n_sc++; }
void fstrm_rdwr_set_read(struct fstrm_rdwr *w, fstrm_rdwr_read_func f) { PROVE((void *)w == tkw, "own transport"); sr = f; n_sr++; }
void fstrm_rdwr_set_write(struct fstrm_rdwr *w, fstrm_rdwr_write_func f) { PROVE((void *)w == tkw, "own transport"); sw = f; n_sw++; }
void fstrm_rdwr_set_destroy(struct fstrm_rdwr *w, fstrm_rdwr_destroy_func f) { PROVE((void *)w == tkw, "own transport"); sd = f; n_sd++; }
static const void *opt_;
struct fstrm_reader *fstrm_reader_init(const struct fstrm_reader_options *o, struct fstrm_rdwr **w) { PROVE(o == opt_ && (void *)*w == tkw, "options and transport passed on"); n_rd++; *w = NULL; return (void *)tkr; }
struct fstrm_writer *fstrm_writer_init(const struct fstrm_writer_options *o, struct fstrm_rdwr **w) { PROVE(o == opt_ && (void *)*w == tkw, "options and transport passed on"); n_wr++; *w = NULL; return (void *)tkwr; }
void h_init(void)
{
	struct fstrm_file_options *o = fstrm_file_options_init();
	PROVE(o && o->file_path == NULL, "no path yet");
	char *s = __CPROVER_allocate(1, 0); _Bool has = nondet_bool(), rd = nondet_bool(); n_dup = 0;
	if (nondet_bool()) { char *t = __CPROVER_allocate(2, 0); t[1] = 0; o->file_path = t; }	/* an earlier path is replaced */
	void *old = o->file_path; n_free = 0;
	fstrm_file_options_set_file_path(o, has ? s : NULL);
	PROVE(IMPL(old, n_free == 1 && fr[0] == old), "an earlier path is freed");
	PROVE(IMPL(has, n_dup == 1 && dup_of[0] == s && o->file_path == dup_is[0]) && IMPL(!has, o->file_path == NULL), "the path is copied");
	int ch = nondet_int(); opt_ = &ch;
	n_ri = n_so = n_sc = n_sr = n_sw = n_sd = n_rd = n_wr = 0;
	void *x = rd ? (void *)fstrm_file_reader_init(o, opt_) : (void *)fstrm_file_writer_init(o, opt_);
	if (!has) PROVE(x == NULL && !n_ri && !n_rd && !n_wr, "no path: refused, nothing is made");
	else {
		PROVE(x == (rd ? (void *)tkr : (void *)tkwr) && n_ri == 1 && n_rd == rd && n_wr == !rd, "one transport, one reader or writer");
		struct fstrm__file *f = ri_obj;
		PROVE(f->fp == NULL && f->file_mode[0] == (rd ? 'r' : 'w') && f->file_mode[1] == 0, "closed, in its mode");
		PROVE(n_dup == 2 && dup_of[1] == o->file_path && f->file_path == dup_is[1], "with its own copy of the path");
		PROVE(so == fstrm__file_op_open && sc == fstrm__file_op_close && sd == fstrm__file_op_destroy && n_sr == rd && n_sw == !rd && IMPL(rd, sr == fstrm__file_op_read) && IMPL(!rd, sw == fstrm__file_op_write), "with the file methods, one-way");
	}
	void *p = o->file_path, *q = o; n_free = 0;
	fstrm_file_options_destroy(&o);
	PROVE(o == NULL && n_free == (p ? 2 : 2) && fr[0] == p && fr[1] == q, "options freed once");
	fstrm_file_options_destroy(&o); PROVE(n_free == 2, "destroying nothing does nothing");
	COVER_(has && rd); COVER_(has && !rd); COVER_(!has);
}
