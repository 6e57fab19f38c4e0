/* options, init and destroy of the socket transports (fstrm/unix_writer.c, or fstrm/tcp_writer.c with -DTCP) under contract */
#include "vf.h"
#define C1(c) COVER(c, "c")
#include <sys/types.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include <fcntl.h>
#include <unistd.h>
#include <errno.h>
#include <limits.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static char tk[8], EP[2]; static unsigned n_free, n_dup, n_ca; static void *fr[8]; static char *dup_is[4]; static const char *dup_of[4]; static void *ca[4];
static size_t PLEN; static char *PATH; static unsigned long PORT; static _Bool pf4, pf6; static char *ADDR, *PORTS; static const void *cpy_d; static size_t cpy_n; static unsigned n_cpy;
static void s_free(void *p) { if (p == NULL) return; for (unsigned i = 0; i < n_free && i < 8; i++) PROVE(fr[i] != p, "nothing is freed twice"); PROVE(n_free < 8, "few"); fr[n_free++] = p; }
static void *s_calloc(size_t a, size_t n) { void *p = __CPROVER_allocate(a * n, 1); PROVE(n_ca < 4, "few"); ca[n_ca++] = p; return p; }
static char *s_strdup(const char *s) { char *p = __CPROVER_allocate(1, 0); PROVE(n_dup < 4, "few"); dup_of[n_dup] = s; dup_is[n_dup++] = p; return p; }
static size_t s_strlen(const char *s) { PROVE(s == PATH, "the path"); return PLEN; }
static char *s_strncpy(char *d, const char *s, size_t n) { PROVE(s == PATH && __CPROVER_w_ok(d, n) && PLEN < 108, "the path, whole, into room enough"); cpy_d = d; cpy_n = n; n_cpy++; if (PLEN < n) d[PLEN] = 0; return d; }
static unsigned long s_strtoul(const char *s, char **e, int b) { PROVE(s == PORTS && b == 0, "the port"); *e = EP; return PORT; }
static int s_pton(int af, const char *s, void *d)
{
	PROVE(s == ADDR, "the address");
	if (af == AF_INET) { if (pf4) { *(uint32_t *)d = 0x01020304; return 1; } return 0; }
	PROVE(af == AF_INET6, "IPv4 or IPv6"); if (pf6) { ((uint8_t *)d)[0] = 0x20; ((uint8_t *)d)[15] = 0x99; return 1; } return 0;
}
#define free s_free
#define calloc s_calloc
#undef strdup
#define strdup s_strdup
#undef strlen
#define strlen s_strlen
#undef strncpy
#define strncpy s_strncpy
#define strtoul s_strtoul
#define inet_pton s_pton
#ifdef TCP
#include "fstrm/tcp_writer.c"
#define op(x) fstrm__tcp_writer_op_##x
#else
#include "fstrm/unix_writer.c"
#define op(x) fstrm__unix_writer_op_##x
#endif
static unsigned n_ri, n_so, n_sc, n_sr, n_sw, n_sd, n_wr; static void *ri_obj; static const void *wopt_;
static fstrm_rdwr_open_func so; static fstrm_rdwr_close_func sc; static fstrm_rdwr_read_func sr; static fstrm_rdwr_write_func sw; static fstrm_rdwr_destroy_func sd;
struct fstrm_rdwr *fstrm_rdwr_init(void *o) { n_ri++; ri_obj = o; return (void *)&tk[0]; }
#define OWN(w) PROVE((void *)(w) == &tk[0], "own transport")
void fstrm_rdwr_set_open(struct fstrm_rdwr *w, fstrm_rdwr_open_func f) { OWN(w); so = f; n_so++; }
void fstrm_rdwr_set_close(struct fstrm_rdwr *w, fstrm_rdwr_close_func f) { OWN(w); sc = f; n_sc++; }
void fstrm_rdwr_set_read(struct fstrm_rdwr *w, fstrm_rdwr_read_func f) { OWN(w); sr = f; n_sr++; }
void fstrm_rdwr_set_write(struct fstrm_rdwr *w, fstrm_rdwr_write_func f) { OWN(w); sw = f; n_sw++; }
void fstrm_rdwr_set_destroy(struct fstrm_rdwr *w, fstrm_rdwr_destroy_func f) { OWN(w); sd = f; n_sd++; }
struct fstrm_writer *fstrm_writer_init(const struct fstrm_writer_options *o, struct fstrm_rdwr **w) { PROVE((const void *)o == wopt_, "options passed on"); OWN(*w); n_wr++; *w = NULL; return (void *)&tk[1]; }
static void zero(void)
{
	n_free = n_dup = n_ca = n_cpy = n_ri = n_so = n_sc = n_sr = n_sw = n_sd = n_wr = 0; ri_obj = NULL; cpy_d = NULL; so = NULL; sc = NULL; sr = NULL; sw = NULL; sd = NULL; PATH = ADDR = PORTS = NULL;
	PLEN = nondet_size(); ASSUME(PLEN < 1 << 20); PORT = (unsigned long)nondet_long(); pf4 = nondet_bool(); pf6 = nondet_bool(); EP[0] = nondet_bool() ? 0 : 'x'; EP[1] = 0; wopt_ = nondet_bool() ? &tk[2] : NULL;
}
static void methods(struct fstrm_writer *w)
{
	PROVE((void *)w == &tk[1] && n_ri == 1 && n_wr == 1 && ri_obj == ca[1] && n_ca == 2 && n_free == 0, "one transport, one writer over it");
	PROVE(so == op(open) && sc == op(close) && sr == op(read) && sw == op(write) && sd == op(destroy), "with the socket methods, two-way");
}
/* a setter replaces what was set before, by a copy of its own */
#define SETTER(o, field, call, A) do { unsigned f0 = n_free, d0 = n_dup; char *old = (o)->field; const char *a = (A); call((o), a); \
	PROVE(n_free == f0 + (old != NULL) && IMPL(old, fr[f0] == old), "the earlier value is freed"); PROVE(n_dup == d0 + (a != NULL) && (o)->field == (a ? dup_is[d0] : NULL) && IMPL(a, dup_of[d0] == a), "replaced by a copy, or by nothing"); } while (0)
#ifdef TCP
void h_init(void)
{
	zero(); struct fstrm_tcp_writer_options *o = fstrm_tcp_writer_options_init(); PROVE(o == ca[0] && o->socket_address == NULL && o->socket_port == NULL, "nothing set");
	SETTER(o, socket_address, fstrm_tcp_writer_options_set_socket_address, nondet_bool() ? &tk[3] : NULL); SETTER(o, socket_port, fstrm_tcp_writer_options_set_socket_port, nondet_bool() ? &tk[4] : NULL);
	ADDR = o->socket_address; PORTS = o->socket_port; n_free = 0;
	struct fstrm_writer *w = fstrm_tcp_writer_init(o, wopt_);
	_Bool ok = ADDR && PORTS && (pf4 || pf6) && !EP[0] && PORT <= 65535;
	PROVE((w != NULL) == ok, "exactly a good address and port are accepted");
	if (!ok) { PROVE(n_ri == 0 && n_wr == 0 && n_free == n_ca - 1 && IMPL(n_ca == 2, fr[0] == ca[1]), "nothing is left behind"); C1(ADDR && PORTS); return; }
	methods(w); struct fstrm__tcp_writer *t = ri_obj; struct sockaddr_in *a = (struct sockaddr_in *)&t->ss; struct sockaddr_in6 *b = (struct sockaddr_in6 *)&t->ss; uint16_t np = (uint16_t)(PORT << 8 | (PORT >> 8 & 0xff));
	PROVE(!t->connected, "not connected");
	PROVE(pf4 ? a->sin_family == AF_INET && a->sin_port == np && a->sin_addr.s_addr == 0x01020304 && t->ss_len == sizeof *a : b->sin6_family == AF_INET6 && b->sin6_port == np && b->sin6_addr.s6_addr[0] == 0x20 && b->sin6_addr.s6_addr[15] == 0x99 && t->ss_len == sizeof *b, "connects to that address and port");
	C1(pf4 && PORT == 65535); C1(!pf4 && PORT == 1);
}
void h_destroy(void)
{
	zero(); struct fstrm_tcp_writer_options *o = fstrm_tcp_writer_options_init(); SETTER(o, socket_address, fstrm_tcp_writer_options_set_socket_address, nondet_bool() ? &tk[3] : NULL); SETTER(o, socket_port, fstrm_tcp_writer_options_set_socket_port, nondet_bool() ? &tk[4] : NULL);
	SETTER(o, socket_address, fstrm_tcp_writer_options_set_socket_address, nondet_bool() ? &tk[3] : NULL); SETTER(o, socket_port, fstrm_tcp_writer_options_set_socket_port, nondet_bool() ? &tk[4] : NULL);
	void *a = o->socket_address, *b = o->socket_port, *c = o; n_free = 0; unsigned n = (a != NULL) + (b != NULL) + 1;
	fstrm_tcp_writer_options_destroy(&o); PROVE(o == NULL && n_free == n && fr[n - 1] == c && IMPL(a, fr[0] == a || fr[1] == a) && IMPL(b, fr[0] == b || fr[1] == b), "everything is freed once");
	fstrm_tcp_writer_options_destroy(&o); PROVE(n_free == n, "destroying nothing does nothing");
	struct fstrm__tcp_writer *t = __CPROVER_allocate(sizeof *t, 1); n_free = 0; PROVE(op(destroy)(t) == fstrm_res_success && n_free == 1 && fr[0] == t, "the transport is freed once");
	C1(a && b);
}
#else
void h_init(void)
{
	zero(); struct fstrm_unix_writer_options *o = fstrm_unix_writer_options_init(); PROVE(o == ca[0] && o->socket_path == NULL, "nothing set");
	SETTER(o, socket_path, fstrm_unix_writer_options_set_socket_path, nondet_bool() ? &tk[3] : NULL); PATH = o->socket_path; n_free = 0;
	struct fstrm_writer *w = fstrm_unix_writer_init(o, wopt_);
	PROVE((w != NULL) == (PATH && PLEN <= 107), "exactly a path that fits is accepted");
	if (!w) { PROVE(n_ri == 0 && n_wr == 0 && n_free == n_ca - 1, "nothing is left behind"); C1(PATH != NULL); return; }
	methods(w); struct fstrm__unix_writer *u = ri_obj;
	PROVE(!u->connected && u->sa.sun_family == AF_UNIX && n_cpy == 1 && cpy_d == u->sa.sun_path && cpy_n > PLEN - (PLEN == 107) && u->sa.sun_path[PLEN] == 0, "connects to the whole path, terminated");
	C1(PLEN == 107); C1(PLEN == 0);
}
void h_destroy(void)
{
	zero(); struct fstrm_unix_writer_options *o = fstrm_unix_writer_options_init(); SETTER(o, socket_path, fstrm_unix_writer_options_set_socket_path, nondet_bool() ? &tk[3] : NULL); SETTER(o, socket_path, fstrm_unix_writer_options_set_socket_path, nondet_bool() ? &tk[4] : NULL);
	void *a = o->socket_path, *c = o; n_free = 0; unsigned n = (a != NULL) + 1;
	fstrm_unix_writer_options_destroy(&o); PROVE(o == NULL && n_free == n && fr[n - 1] == c && IMPL(a, fr[0] == a), "everything is freed once");
	fstrm_unix_writer_options_destroy(&o); PROVE(n_free == n, "destroying nothing does nothing");
	struct fstrm__unix_writer *t = __CPROVER_allocate(sizeof *t, 1); n_free = 0; PROVE(op(destroy)(t) == fstrm_res_success && n_free == 1 && fr[0] == t, "the transport is freed once");
	C1(a != NULL);
}
#endif
