/* libmy/argv.c: random option tables and command lines against a model of the documented parsing rules. */
#include "nat.h"
#include "libmy/argv.h"
#include <ctype.h>
#include <sys/stat.h>
#define MAXO 12
static const char *longs[] = { "alpha", "alpine", "beta", "better", "gamma", "gamut", "delta", "delphi", "outer", "outermost" };
struct var { unsigned char pre[16]; union { char c; char *s; short h; int i; long l; float f; double d; argv_array_t a; } v; unsigned char post[16]; };
struct opt { char letter; const char *lng; unsigned type; bool arr, mand; int kind /* 0 option, 1 MAND, 2 MAYBE */; int chain; };
struct val { bool set, bad; long i; double d; char *s; };
#define MAXV 400
struct mopt { bool used; int n; struct val v[MAXV]; };
static struct opt opts[MAXO]; static unsigned nopts; static int chain_xor[MAXO]; static struct mopt m[MAXO];
static struct var vars[MAXO]; static struct var orig[MAXO];
static argv_t grid[2 * MAXO + 1]; static int gidx[MAXO];
static bool ok; static int queue[4000], qh, qt;	/* -1: file argument */
static bool repeated, unspec;
static char *pool[6000]; static unsigned npool;
static char *keep(const char *s) { char *p = __real_malloc(strlen(s) + 1); strcpy(p, s); if (npool < 6000) pool[npool++] = p; return p; }

static bool noarg(unsigned t) { return t == ARGV_BOOL || t == ARGV_BOOL_NEG || t == ARGV_INCR || t == ARGV_BOOL_INT || t == ARGV_BOOL_INT_NEG; }
static bool yes(const char *s) { return *s && strchr("tTyY1", *s); }
static bool dec(const char *s, long *v) { char *e; if (!*s || strlen(s) > 9) return false; *v = strtol(s, &e, 10); return !*e && !isspace((unsigned char)*s); }
static bool inbase(const char *s, int base, long *v)
{
	const char *q = s; if (base == 16 && q[0] == '0' && (q[1] == 'x' || q[1] == 'X')) q += 2;
	if (!*q || strlen(q) > (base == 2 ? 20u : base == 8 ? 9u : 7u)) return false;
	for (const char *p = q; *p; p++) { int d = isdigit((unsigned char)*p) ? *p - '0' : isalpha((unsigned char)*p) ? tolower(*p) - 'a' + 10 : 99; if (d >= base) return false; }
	*v = strtol(q, 0, base); return true;
}
static void store(int o, const char *s)
{
	struct val x = { .set = true }; unsigned t = opts[o].type;
	switch (t)
	{
	case ARGV_BOOL: case ARGV_BOOL_INT: x.i = s ? yes(s) : 1; break;
	case ARGV_BOOL_NEG: case ARGV_BOOL_INT_NEG: x.i = s ? yes(s) : 0; break;
	case ARGV_BOOL_ARG: case ARGV_BOOL_INT_ARG: x.i = yes(s); break;
	case ARGV_CHAR: x.i = *s; break;
	case ARGV_CHAR_P: x.s = keep(s); break;
	case ARGV_SHORT: if (!dec(s, &x.i) || x.i < -32768 || x.i > 32767) x.bad = true; break;
	case ARGV_U_SHORT: if (!dec(s, &x.i) || x.i < 0 || x.i > 65535) x.bad = true; break;
	case ARGV_U_INT: case ARGV_U_LONG: if (!dec(s, &x.i) || x.i < 0) x.bad = true; break;
	case ARGV_INT: case ARGV_LONG: if (!dec(s, &x.i)) x.bad = true; break;
	case ARGV_FLOAT: case ARGV_DOUBLE: if (!dec(s, &x.i)) x.bad = true; x.d = x.i; break;
	case ARGV_BIN: x.bad = !inbase(s, 2, &x.i); break;
	case ARGV_OCT: x.bad = !inbase(s, 8, &x.i); break;
	case ARGV_HEX: x.bad = !inbase(s, 16, &x.i); break;
	case ARGV_INCR: if (!s) { x = m[o].v[0]; if (!x.set) { x.i = orig[o].v.i; x.set = true; } x.i++; } else if (!dec(s, &x.i)) x.bad = true; break;
	case ARGV_SIZE: case ARGV_U_SIZE:
		{ char b[64]; size_t n = strlen(s); long f = 1; if (!n || n > 7) { x.bad = true; break; } strcpy(b, s); char c = tolower(b[n - 1]);
		  if (c == 'k') f = 1024; else if (c == 'm') f = 1 << 20; else if (c == 'g') f = 1 << 30; else if (c != 'b') c = 0;
		  if (c) b[n - 1] = 0; if (!dec(b, &x.i) || x.i < 0) x.bad = true; x.i *= f; break; }
	default: x.bad = true;
	}
	if (opts[o].arr) { if (m[o].n < MAXV) m[o].v[m[o].n] = x; m[o].n++; }
	else { if (m[o].n && t == ARGV_CHAR_P) repeated = true; m[o].v[0] = x; m[o].n = 1; }
}
static char dir[64]; static FILE *nul;
static struct { char name[80]; char *line[40]; unsigned n; bool exists; } files[3];
static void list(char **a, unsigned n, int depth);
static void dofile(const char *name, int depth)
{
	if (!strcmp(name, "-")) return;	/* standard input: empty here */
	for (unsigned i = 0; i < 3; i++) if (files[i].exists && !strcmp(name, files[i].name)) { list(files[i].line, files[i].n, depth + 1); return; }
	struct stat st; if (!stat(name, &st)) unspec = true;	/* a directory, or some other file */
	ok = false;
}
static void apply(int o, const char *val)
{
	m[o].used = true;
	if (opts[o].chain >= 0) for (unsigned j = 0; j < nopts; j++) if ((int)j != o && opts[j].chain == opts[o].chain && m[j].used) ok = false;
	if (val) store(o, val);
	else if (noarg(opts[o].type)) store(o, 0);
	else queue[qh++] = o;
}
static bool numeric_front(void)
{
	if (qh <= qt || queue[qt] < 0) return false;
	unsigned t = opts[queue[qt]].type;
	return t == ARGV_SHORT || t == ARGV_INT || t == ARGV_LONG || t == ARGV_FLOAT || t == ARGV_DOUBLE;
}
static void list(char **a, unsigned n, int depth)
{
	bool last = false;
	for (unsigned k = 0; k < n; k++)
	{
		char s[1200]; snprintf(s, sizeof s, "%s", a[k]); char *val = 0;
		if (!last && !strcmp(s, "--")) { last = true; continue; }
		if (!last && !strncmp(s, "--", 2))
		{
			val = strchr(s, '='); if (val) *val++ = 0;
			if (!s[2]) { ok = false; continue; }
			int c = 0, w = -1; for (unsigned j = 0; j < nopts; j++) if (opts[j].kind == 0 && opts[j].lng && !strncmp(s + 2, opts[j].lng, strlen(s + 2))) { c++; w = j; }
			if (c > 1) ok = false;
			else if (c == 1) apply(w, val);
			else if (!strcmp(s, "--argv-file")) { if (val) dofile(val, depth); else queue[qh++] = -1; }
			else if (!strcmp(s, "--help") || !strcmp(s, "--usage") || !strcmp(s, "--version")) ;
			else ok = false;
			continue;
		}
		if (!last && s[0] == '-' && s[1])
		{
			val = strchr(s, '='); if (val) *val++ = 0;
			if (!s[1]) { ok = false; continue; }
			for (char *p = s + 1; *p; p++)
			{
				int w = -1; for (unsigned j = 0; j < nopts; j++) if (opts[j].kind == 0 && opts[j].letter && opts[j].letter == *p) w = j;
				if (w >= 0) { apply(w, val); continue; }
				if (*p == '?') continue;
				if (p == s + 1 && strspn(s, "0123456789+-.") == strlen(s) && numeric_front()) { store(queue[qt++], s); break; }
				ok = false;
			}
			continue;
		}
		if (nopts && qh > qt) { int o = queue[qt++]; if (o < 0) dofile(s, depth); else store(o, s); continue; }
		int w = -1;
		for (int kind = 1; kind <= 2 && w < 0; kind++) for (unsigned j = 0; j < nopts && w < 0; j++) if (opts[j].kind == kind && (!m[j].used || opts[j].arr)) w = j;
		if (w >= 0) { store(w, s); m[w].used = true; }
		else ok = false;
	}
}
static void finish(void)
{
	for (unsigned j = 0; j < nopts; j++) if (!m[j].used && (opts[j].kind == 1 || opts[j].mand)) ok = false;
	if (qh > qt) ok = false;
	for (int c = 0; c < MAXO; c++) { bool any = false, mem = false; for (unsigned j = 0; j < nopts; j++) if (opts[j].chain == c) { mem = true; any |= m[j].used; } if (mem && chain_xor[c] && !any) ok = false; }
}
static const char letters[] = "abcdefghuwxyzTKM";
static void mkgrid(void)
{
	unsigned g = 0; nopts = 0; memset(grid, 0, sizeof grid); int chain = -1, nchain = 0; unsigned n = rnd_n(7), l0 = rnd_n(10);
	memset(opts, 0, sizeof opts);
	for (unsigned i = 0; i < n; i++)
	{
		struct opt *o = &opts[nopts]; o->chain = -1;
		o->letter = rnd_1in(5) ? 0 : letters[(i * 3 + l0) % (sizeof letters - 1)]; if (rnd_n(4) || !o->letter) o->lng = longs[(i + l0) % 10];
		o->type = rnd_1in(3) ? ARGV_CHAR_P : rnd_1in(3) ? ARGV_INT : 1 + rnd_n(22);
		if (!noarg(o->type) && rnd_1in(4)) o->arr = true;
		if (rnd_1in(8)) o->mand = true;
		if (i && rnd_1in(3))
		{
			if (chain < 0) { chain = nchain++; chain_xor[chain] = rnd_1in(2); opts[nopts - 1].chain = chain; }
			grid[g++].ar_short_arg = chain_xor[chain] ? ARGV_XOR : ARGV_OR; o->chain = chain;
		}
		else chain = -1;
		gidx[nopts] = g++; nopts++;
	}
	bool arr = false; unsigned nm = rnd_1in(3) ? rnd_n(3) : 0, ny = rnd_1in(3) ? rnd_n(3) : 0;
	for (unsigned i = 0; i < nm + ny && !arr; i++)
	{
		struct opt *o = &opts[nopts]; o->chain = -1; o->kind = i < nm ? 1 : 2; o->type = rnd_n(2) ? ARGV_CHAR_P : rnd_n(2) ? ARGV_INT : ARGV_HEX; o->arr = arr = rnd_1in(4);
		gidx[nopts] = g++; nopts++;
	}
	for (unsigned i = 0; i < nopts; i++)
	{
		argv_t *a = &grid[gidx[i]]; struct opt *o = &opts[i]; for (unsigned b = 0; b < sizeof vars[i]; b++) ((unsigned char *)&vars[i])[b] = rnd();
		if (o->arr) { vars[i].v.a.aa_entry_n = rnd(); vars[i].v.a.aa_entries = (void *)1; }
		else if (o->type == ARGV_CHAR_P) vars[i].v.s = rnd_1in(2) ? NULL : "default";
		else if (o->type == ARGV_INCR) vars[i].v.i = rnd_n(100);
		orig[i] = vars[i];
		a->ar_short_arg = o->kind == 1 ? ARGV_MAND : o->kind == 2 ? ARGV_MAYBE : o->letter; a->ar_long_arg = o->lng; a->ar_type = o->type | (o->arr ? ARGV_FLAG_ARRAY : 0) | (o->mand ? ARGV_FLAG_MAND : 0) | (rnd_1in(3) ? 1 << 12 : 0);
		a->ar_variable = (void *)&vars[i].v; a->ar_var_label = rnd_n(3) ? "<V>" : NULL; a->ar_comment = rnd_n(5) ? "comment" : NULL;
		nat_note("  -%c --%s type %u%s%s kind %d chain %d%s\n", o->letter ? o->letter : ' ', o->lng ? o->lng : "", o->type, o->arr ? " array" : "", o->mand ? " mand" : "", o->kind, o->chain, o->chain >= 0 && chain_xor[o->chain] ? " one-of" : "");
	}
	grid[g].ar_short_arg = ARGV_LAST;
}
static const char *mkval(bool tame)
{
	static char b[1200]; unsigned k = rnd_n(tame ? 8 : 12);
	switch (k)
	{
	case 0: case 1: snprintf(b, sizeof b, "%d", (int)rnd_n(30000)); break;
	case 2: snprintf(b, sizeof b, "%lu", (unsigned long)rnd_n(100000000)); break;
	case 3: snprintf(b, sizeof b, "%x", (unsigned)rnd_n(1 << 24)); break;
	case 4: snprintf(b, sizeof b, "%u%c", (unsigned)rnd_n(900), "bkmgBKMG"[rnd_n(8)]); break;
	case 5: snprintf(b, sizeof b, "%s", (const char *[]){ "true", "no", "0x1fA", "101", "0777", "y", "file" }[rnd_n(7)]); break;
	case 6: { unsigned n = rnd_n(12); for (unsigned i = 0; i < n; i++) b[i] = "abcxyz/._019"[rnd_n(12)]; b[n] = 0; break; }
	case 7: { unsigned n = rnd_1in(20) ? 900 : 40; for (unsigned i = 0; i < n; i++) b[i] = 'a' + rnd_n(26); b[n] = 0; break; }
	case 8: snprintf(b, sizeof b, "-%d", (int)rnd_n(30000)); break;
	case 9: snprintf(b, sizeof b, "%s", rnd_n(2) ? "-" : "-1.5"); break;
	case 10: b[0] = 0; break;
	default: snprintf(b, sizeof b, "a=%u", (unsigned)rnd_n(10)); break;
	}
	return b;
}
static void optname(char *b, unsigned o, bool lng)
{
	if (lng) { const char *l = opts[o].lng; snprintf(b, 80, "--%.*s", (int)(rnd_n(3) ? strlen(l) : 1 + rnd_n(strlen(l))), l); }
	else snprintf(b, 80, "-%c", opts[o].letter);
}
static unsigned mkargs(char **out, unsigned max, bool env)
{
	unsigned n = 0, steps = rnd_n(4) ? rnd_n(6) : rnd_n(30); bool wild = rnd_1in(2); unsigned order[MAXO];
	for (unsigned i = 0; i < MAXO; i++) order[i] = i;
	for (unsigned i = 0; nopts && i < nopts; i++) { unsigned j = rnd_n(nopts), t = order[i]; order[i] = order[j]; order[j] = t; }
	unsigned total = steps + (rnd_n(2) ? nopts : 0);
	for (unsigned st = 0; st < total && n + 4 < max; st++)
	{
		char b[2600]; unsigned k = wild ? rnd_n(14) : rnd_n(6); int o = nopts ? (int)(st < nopts && rnd_n(4) ? order[st] : rnd_n(nopts)) : -1;
		if (o >= 0 && opts[o].kind) { if (!wild || rnd_n(2)) { out[n++] = keep(mkval(true)); continue; } o = -1; }
		if (k < 6)
		{
			if (o < 0) continue;
			bool lng = opts[o].lng && (rnd_n(2) || !opts[o].letter); optname(b, o, lng);
			bool na = noarg(opts[o].type);
			if (!na && rnd_n(3) == 0) { strcat(b, "="); strcat(b, mkval(true)); out[n++] = keep(b); }
			else { if (na && wild && rnd_1in(6)) { strcat(b, "="); strcat(b, mkval(true)); } out[n++] = keep(b); if (!na && (!wild || rnd_n(6))) out[n++] = keep(mkval(!wild)); }
		}
		else switch (k)
		{
		case 6: case 7: { b[0] = '-'; unsigned c = 1 + rnd_n(rnd_1in(6) ? 200 : 5), l = 1; for (unsigned i = 0; i < c; i++) { unsigned q = nopts ? rnd_n(nopts) : 0; if (nopts && opts[q].letter && !opts[q].kind) b[l++] = opts[q].letter; else if (rnd_1in(20)) b[l++] = '?'; } b[l] = 0; out[n++] = keep(b); if (rnd_n(2)) for (unsigned i = 1; i < l && n + 4 < max && i < 6; i++) out[n++] = keep(mkval(true)); break; }
		case 8: out[n++] = keep(mkval(false)); break;
		case 9: out[n++] = keep((const char *[]){ "--", "-", "--=x", "-=x", "--nosuch", "-Q", "--usage", "--version", "--help", "-?" }[rnd_n(10)]); break;
		case 10: if (!env) { unsigned f = rnd_n(3); if (rnd_n(2)) { snprintf(b, sizeof b, "--argv-file=%s", files[f].name); out[n++] = keep(b); } else { out[n++] = keep("--argv-file"); if (rnd_n(4)) out[n++] = keep(files[f].name); } } break;
		default: break;
		}
	}
	return n;
}
static bool plain(const char *s) { if (!*s) return false; for (; *s; s++) if (*s == ' ' || *s == '\t' || *s == '\n' || !isprint((unsigned char)*s)) return false; return true; }
static void compare(void)
{
	for (unsigned i = 0; i < nopts; i++)
	{
		struct opt *o = &opts[i]; struct var *v = &vars[i];
		CHECK(!memcmp(v->pre, orig[i].pre, 16) && !memcmp(v->post, orig[i].post, 16), "memory next to the variable of option %u changed", i);
		if (!ok) continue;
		if (!o->arr && !m[i].n) { CHECK(!memcmp(&v->v, &orig[i].v, sizeof v->v), "variable of option %u changed, though the option was not given", i); continue; }
		if (o->arr) CHECK(v->v.a.aa_entry_n == m[i].n, "array %u: %d values, not %d", i, v->v.a.aa_entry_n, m[i].n);
		for (int k = 0; k < m[i].n && k < MAXV; k++)
		{
			struct val *x = &m[i].v[k]; if (x->bad) continue;
#define EL(T) (o->arr ? ((T *)v->v.a.aa_entries)[k] : *(T *)(void *)&v->v)
			switch (o->type)
			{
			case ARGV_BOOL: case ARGV_BOOL_NEG: case ARGV_BOOL_ARG: case ARGV_CHAR: CHECK(EL(char) == (char)x->i, "option %u value %d is %d, not %ld", i, k, EL(char), x->i); break;
			case ARGV_CHAR_P: CHECK(EL(char *) && !strcmp(EL(char *), x->s), "option %u value %d is '%.80s', not '%.80s'", i, k, EL(char *) ? EL(char *) : "NULL", x->s); break;
			case ARGV_SHORT: case ARGV_U_SHORT: CHECK(EL(short) == (short)x->i, "option %u value %d is %d, not %ld", i, k, EL(short), x->i); break;
			case ARGV_LONG: case ARGV_U_LONG: case ARGV_SIZE: case ARGV_U_SIZE: CHECK(EL(long) == x->i, "option %u value %d is %ld, not %ld", i, k, EL(long), x->i); break;
			case ARGV_FLOAT: CHECK(EL(float) == (float)x->d, "option %u value %d is %f, not %f", i, k, EL(float), x->d); break;
			case ARGV_DOUBLE: CHECK(EL(double) == x->d, "option %u value %d is %f, not %f", i, k, EL(double), x->d); break;
			default: CHECK(EL(int) == (int)x->i, "option %u value %d is %d, not %ld", i, k, EL(int), x->i); break;
			}
		}
		if (!o->arr)	/* nothing but the variable itself is written */
		{
			unsigned t = o->type, sz = t == ARGV_CHAR_P || t == ARGV_LONG || t == ARGV_U_LONG || t == ARGV_SIZE || t == ARGV_U_SIZE || t == ARGV_DOUBLE ? 8 : t <= ARGV_CHAR ? 1 : t <= ARGV_U_SHORT ? 2 : 4;
			CHECK(!memcmp((char *)&v->v + sz, (char *)&orig[i].v + sz, sizeof v->v - sz), "bytes after the variable of option %u changed", i);
		}
	}
}
static void run(void)
{
	nat_case(); ok = true; qh = qt = 0; repeated = unspec = false; while (npool) __real_free(pool[--npool]);
	mkgrid(); memset(m, 0, sizeof m);
	char *args[400], *env[400]; unsigned na, ne = 0;
	for (unsigned f = 0; f < 3; f++)
	{
		snprintf(files[f].name, sizeof files[f].name, "%s/f%u", dir, f); unlink(files[f].name); files[f].exists = f < 2 && rnd_1in(2); files[f].n = 0;
		if (files[f].exists)
		{
			files[f].n = mkargs(files[f].line, 40, f == 0); FILE *s = fopen(files[f].name, "w"); unsigned w = 0; nat_note("  file f%u:", f);
			for (unsigned i = 0; i < files[f].n; i++) { char *l = files[f].line[i]; if (!*l || strlen(l) > 1000 || strstr(l, "f1") || strstr(l, "argv-file")) continue; files[f].line[w++] = l; if (rnd_1in(5)) fputs("\n", s); fprintf(s, "%s%s", l, i + 1 < files[f].n || rnd_n(2) ? "\n" : ""); nat_note(" [%s]", l); }
			files[f].n = w; fclose(s); nat_note("\n");
		}
	}
	static const char *prognames[] = { "prog", "/usr/bin/prog", "./x/prog", "prog" }; char longname[700]; const char *pn = prognames[rnd_n(4)];
	if (rnd_1in(40)) { memset(longname, 'q', 600); longname[600] = 0; if (rnd_n(2)) longname[10] = '/'; pn = longname; }
	args[0] = keep(pn); na = 1 + mkargs(args + 1, 390, false); nat_note("  args:"); for (unsigned i = 0; i < na; i++) nat_note(" [%s]", args[i]); nat_note("\n");
	unsetenv("ARGV_PROG");
	if (rnd_1in(4))
	{
		unsigned c = mkargs(env, 100, true); char *e = __real_malloc(200000); e[0] = 0; if (rnd_1in(4)) strcat(e, " ");
		for (unsigned i = 0; i < c; i++) if (plain(env[i]) && !strstr(env[i], "argv-file")) { env[ne++] = env[i]; strcat(e, env[i]); if (i + 1 < c || rnd_n(2)) strcat(e, rnd_1in(4) ? " \t " : " "); }
		setenv("ARGV_PROG", e, 1); nat_note("  env: [%s]\n", e); __real_free(e);
	}
	char *argv[402]; for (unsigned i = 0; i < na; i++) argv[i] = args[i]; argv[na] = NULL;
	char **copy = __real_malloc((na + 1) * sizeof *copy); for (unsigned i = 0; i < na; i++) { copy[i] = __real_malloc(strlen(args[i]) + 1); strcpy(copy[i], args[i]); } copy[na] = NULL;
	argv_env_after_b = rnd_1in(3); bool useenv = pn != longname && ne; bool envleak = useenv;
	if (useenv && !argv_env_after_b) list(env, ne, 0);
	list(args + 1, na - 1, 0);
	if (useenv && argv_env_after_b) list(env, ne, 0);
	finish();
	bool over = false; for (unsigned i = 0; i < nopts; i++) if (m[i].n > MAXV) over = true;
	(void)over; (void)envleak;
	long l0 = nat_live; if (rnd_1in(4)) argv_error_stream = NULL; else argv_error_stream = nul;
	int r = argv_process(grid, na, copy);
	{ const char *b = strrchr(pn, '/'); b = b ? b + 1 : pn; CHECK(strlen(b) > 256 || !strcmp(argv_program, b), "program name '%.300s'", argv_program); CHECK(strlen(argv_program) <= 256, "long program name"); }
	for (unsigned i = 0; i < na; i++) __real_free(copy[i]);
	__real_free(copy);
	if (unspec) ok = false; else CHECK((r == 0) == ok, "the command line is %s, but should be %s", r == 0 ? "accepted" : "rejected", ok ? "accepted" : "rejected");
	compare();
	for (unsigned i = 0; i < nopts; i++) if (opts[i].type == ARGV_CHAR_P && !opts[i].arr && m[i].used && !m[i].n) vars[i].v.s = NULL;	/* named, but no value: a default must not be freed */
	argv_cleanup(grid);
	for (unsigned i = 0; i < nopts; i++) if (opts[i].arr) CHECK(vars[i].v.a.aa_entry_n == 0 && !vars[i].v.a.aa_entries, "array %u is not empty after cleanup", i);
	if (!repeated && !(getenv("ARGV_PROG") && !ne)) CHECK(nat_live == l0, "%ld blocks left", nat_live - l0);
}
int main(int argc, char **argv)
{
	nat_init(argc, argv); snprintf(dir, sizeof dir, "/tmp/vfargvXXXXXX"); if (!mkdtemp(dir)) return 2;
	if (!freopen("/dev/null", "r", stdin)) return 2;
	nul = fopen("/dev/null", "w");
	unsetenv("GLOBAL_ARGV"); argv_interactive = 0;
	while (nat_more(3000)) run();
	for (unsigned f = 0; f < 3; f++) unlink(files[f].name);
	rmdir(dir);
	return nat_done();
}
