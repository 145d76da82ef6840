#include "engine.h"
#include <fcntl.h>
#include "strs.h"
#include "optparser.h"
const char vp_property[] = "C13";
static const char *AG[] = { "-f", "--f", "-foo", "--foo", "-foo=1", "--foo=22", "foo", "foo=3", "-fo", "--fooo", "-f=", "--f=7", "-fooo=x", "-", "--", "", "---foo", "-=", "-foo=a=b", "--foo=", "-o", "-of", "bar", "-F", "--=foo" };
#define NA VP_N(AG)
static const char *NM[] = { "f", "foo", "fo", "o", "fooo", "F", "of", "z", "zz", "z1", "z2" };
static const char *ag[1030]; static int n; static char *av[9]; static op_state st;
static stringptr *mk(const char *b) { size_t m = strlen(b); stringptr *s = vp_buf(sizeof *s); s->ptr = vp_copy(b, m); s->size = m; return s; }
static const char *strip(const char *a, size_t nl) { if(*a != '-') return 0; a++; if(nl > 1 && *a == '-') a++; return a; }
static void judge(void) {
	vp_buf_reset(); char **v = vp_buf(sizeof(char*) * (n + 1)); v[0] = vp_str("-foo=prog"); for(int i = 1; i <= n; i++) v[i] = vp_str(ag[i - 1]);
	op_init(&st, n + 1, v);
	for(int q = 0; q < VP_N(NM); q++) { size_t nl = strlen(NM[q]); stringptr *s = mk(NM[q]); const char *e = 0; int fl = 0;
		for(int i = 1; i <= n; i++) { const char *a = strip(ag[i - 1], nl); if(a && !strcmp(a, NM[q])) fl = 1; }
		for(int i = 1; i <= n && !e; i++) { const char *a = strip(ag[i - 1], nl); if(!a) continue; if(!strncmp(a, NM[q], nl) && a[nl] == '=') e = v[i] + (a - ag[i - 1]) + nl + 1; else if(!strcmp(a, NM[q]) && i < n) e = v[i + 1]; }
		char *r = op_get(&st, s); VP_CHECK(r == e, "option %s: %s, must be %s", NM[q], r ? vp_shows(r) : "absent", e ? vp_shows(e) : "absent");
		int h = op_hasflag(&st, s); VP_CHECK(!!h == fl, "flag %s: %d, must be %d", NM[q], h, fl); vp_trans(2); }
	if(vp_tracing) for(int i = 0; i < n; i++) vp_trace("argument %d: %s", i + 1, vp_shows(ag[i])); vp_states_add(1);
}
static long a_units(void) { return NA * NA; }
static void a_run(long u) { ag[0] = AG[u % NA]; ag[1] = AG[u / NA]; n = 2; judge(); for(int i = 0; i < NA; i++) { ag[2] = AG[i]; n = 3; judge(); if(vp_tier) for(int j = 0; j < NA; j++) { ag[3] = AG[j]; n = 4; judge(); } } if(u < NA) { n = 1; judge(); } if(!u) { n = 0; judge(); } }
static const char *SM[] = { "-foo", "--foo=1", "-f", "bar", "-fo=2", "--" };
static long b_units(void) { return 36; }
static void b_run(long u) { ag[0] = SM[u % 6]; ag[1] = SM[u / 6]; for(long i = 0; i < VP_T(216, 7776); i++) { long v = i; int k; n = VP_T(5, 7); for(k = 2; k < n; k++) { ag[k] = SM[v % 6]; v /= 6; } judge(); } }
/* every one-argument text to a length over an alphabet */
static const char AL[] = { '-', 'f', 'o', '=', 'x' };
static long c_units(void) { return 125; }
static void c_run(long u) { char t[12]; t[0] = AL[u % 5]; t[1] = AL[u / 5 % 5]; t[2] = AL[u / 25]; long tot = VP_T(625, 15625); int d = VP_T(4, 6); for(int len = 0; len <= d; len++) { long p = 1; for(int k = 0; k < len; k++) p *= 5; for(long i = 0; i < p; i++) { long v = i; for(int k = 0; k < len; k++) { t[3 + k] = AL[v % 5]; v /= 5; } t[3 + len] = 0; ag[0] = t; n = 1; judge(); ag[1] = "-foo"; n = 2; judge(); } } (void)tot; vp_trace("arguments starting with %.3s", t); }
/* printing all */
static long p_units(void) { return NA; }
static void p_run(long u) { char path[32]; snprintf(path, sizeof path, "p%d", (int)getpid()); for(int i = 0; i < NA; i++) { char e[200], b[300]; int m = snprintf(e, sizeof e, "%s\n%s\n", AG[u], AG[i]); char *v[] = { "prog", (char*)AG[u], (char*)AG[i] }; op_init(&st, 3, v); int f = open(path, O_RDWR | O_CREAT | O_TRUNC, 0600), sv = dup(1); dup2(f, 1); op_printall(&st); dup2(sv, 1); close(sv); int r = pread(f, b, sizeof b, 0); close(f); VP_CHECK(r == m && !memcmp(b, e, m), "printall printed %s, must be %s", vp_show(b, r), vp_show(e, m)); vp_trans(1); vp_states_add(1); } vp_trace("printall"); }
/* every byte value in names and values */
static long y_units(void) { return 255; }
static void y_run(long u) { char c = u + 1; static char nm[2][4], l[10][16]; if(c == '=' || c == '-') return;
	for(int len = 1; len < 4; len++) for(int p = 0; p < len; p++) { memcpy(nm[0], "fob", 4); nm[0][p] = c; nm[0][len] = 0; memcpy(nm[1], nm[0], 4); nm[1][p] = c ^ 0x20; if(!nm[1][p] || nm[1][p] == '=' || nm[1][p] == '-') nm[1][p] = 'y'; NM[9] = nm[0]; NM[10] = nm[1];
		sprintf(l[0], "-%s", nm[0]); sprintf(l[1], "--%s", nm[0]); sprintf(l[2], "-%s=%c", nm[0], c); sprintf(l[3], "--%s=%c%c", nm[0], c, c); sprintf(l[4], "-%s", nm[1]); sprintf(l[5], "-%s=2", nm[1]); sprintf(l[6], "%s", nm[0]); sprintf(l[7], "%c-%s=1", c, nm[0]); sprintf(l[8], "-%c%s=1", c, nm[0]); sprintf(l[9], "-%s%c", nm[0], c);
		for(int i = 0; i < 10; i++) { ag[0] = l[i]; n = 1; judge(); for(int j = 0; j < 10; j++) { ag[1] = l[j]; n = 2; judge(); } } } }
/* sizes around powers of two and ten as number of arguments and as length of names and values */
#define WHI VP_T(17, 18)
static long w_units(void) { return sizes_count(3, WHI) * 2; }
static void w_run(long u) {
	size_t N = sizes_get(3, WHI, u / 2), k = vp_buf_mark(); vp_buf_reset(); stringptr *F = mk("foo"), *G = mk("g"), *H = mk("hh");
	if(u % 2 == 0) { char **v = vp_buf(sizeof(char*) * N); static const char *at[] = { "-foo=1", "-foo", "--foo=", "--foo", "-hh", "--hh" }; v[0] = (char*)"prog";
		size_t pos[] = { 1, 2, N / 2, N - 2, N - 1, 127, 128, 255, 256, 257, 65535, 65536 };
		for(int i = 0; i < VP_N(pos); i++) if(pos[i] >= 1 && pos[i] < N) for(int t = 0; t < 6; t++) { for(size_t j = 1; j < N; j++) v[j] = (char*)"plain"; size_t p = pos[i]; v[p] = (char*)at[t]; op_init(&st, N, v); const char *e = t == 0 ? at[0] + 5 : t == 2 ? at[2] + 6 : t >= 4 || p + 1 == N ? 0 : v[p + 1];
			char *r = op_get(&st, F); VP_CHECK(r == e, "option at argument %zu of %zu: %s", p, N, r ? r : "absent"); VP_CHECK(!!op_hasflag(&st, F) == (t == 1 || t == 3), "flag at argument %zu of %zu", p, N); VP_CHECK(!!op_hasflag(&st, H) == (t >= 4) && !op_hasflag(&st, G) && !op_get(&st, G), "other flag at argument %zu of %zu", p, N);
			if(p + 1 < N) { v[N-1] = (char*)"-foo=last"; r = op_get(&st, F); if(p + 1 == N - 1 && (t == 1 || t == 3)) e = v[N-1]; VP_CHECK(r == (e ? e : v[N-1] + 5), "first of two options in %zu arguments", N); } vp_trans(5); } }
	else { char *nm = malloc(N + 1), *a = malloc(N + 12), *b = malloc(N + 12), *c = malloc(N + 12); stringptr *s = vp_buf(sizeof *s); for(size_t i = 0; i < N; i++) nm[i] = 'a' + (i * 3 + i / 256) % 26; nm[N] = 0; s->ptr = vp_copy(nm, N); s->size = N;
		for(int dash = 1; dash < 3; dash++) for(int t = 0; t < 4; t++) { /* nearly the name, then the name */
			memset(a, '-', dash); memcpy(a + dash, nm, N + 1); memcpy(b, a, N + dash + 1); b[dash + N - 1] ^= 1; strcpy(b + dash + N, "=no"); memcpy(c, a, N + dash); strcpy(c + dash + N, "x=no"); if(t & 1) strcpy(a + dash + N, "=yes"); if(t & 2) { memcpy(b, a, N + dash - 1); strcpy(b + dash + N - 1, "=no"); }
			char *v[] = { (char*)"prog", vp_str(b), vp_str(c), vp_str(a), (char*)"val" }; op_init(&st, 5, v); const char *e = t & 1 ? v[3] + dash + N + 1 : v[4]; char *r = op_get(&st, s); VP_CHECK(r == e, "option name of %zu characters: %s", N, r ? vp_shows(r) : "absent"); VP_CHECK(!!op_hasflag(&st, s) == !(t & 1), "flag name of %zu characters", N); op_init(&st, 3, v); VP_CHECK(!op_get(&st, s) && !op_hasflag(&st, s), "option name of %zu characters matches another", N); vp_trans(4); }
		for(int t = 0; t < 2; t++) { snprintf(a, N + 12, t ? "--foo=%s" : "-foo=%s", nm); char *v[] = { (char*)"prog", (char*)"-g", vp_str(a) }; op_init(&st, 3, v); char *r = op_get(&st, F); VP_CHECK(r == v[2] + 5 + t && !op_hasflag(&st, F), "value of %zu characters", N); r = op_get(&st, G); VP_CHECK(r == v[2] && op_hasflag(&st, G), "next argument of %zu characters", N); }
		memset(a, '-', N); strcpy(a + N, "foo=1"); { char *v[] = { (char*)"prog", vp_str(a) }; op_init(&st, 2, v); VP_CHECK(!op_get(&st, F) && !op_hasflag(&st, F), "option behind %zu dashes", N); }
		free(nm); free(a); free(b); free(c); }
	vp_trace("size %zu", N); vp_states_add(4); vp_buf_release(k);
}
/* names of 1..96 characters that differ at one position only */
static long x_units(void) { return VP_T(96, 300); }
static void x_run(long u) {
	size_t N = u + 1; char nm[310], a[330], b[330]; stringptr s = { nm, N };
	for(size_t i = 0; i < N; i++) nm[i] = 'a' + (i * 3 + i / 26) % 26; nm[N] = 0;
	for(size_t p = 0; p < N; p++) for(int bit = 0; bit < 2; bit++) for(int dash = 1; dash < 3; dash++) for(int val = 0; val < 2; val++) for(int both = 0; both < 2; both++) {
		if(N == 1 && dash == 2) continue;
		memset(a, '-', dash); memcpy(a + dash, nm, N + 1); a[dash + p] ^= bit ? 0x20 : 1; if(a[dash + p] == '=' || a[dash + p] == '-' || a[dash + p] == 0) a[dash + p] = '_'; if(val) strcpy(a + dash + N, "=no");
		memset(b, '-', dash); memcpy(b + dash, nm, N + 1); if(val) strcpy(b + dash + N, "=yes");
		char *v[] = { (char*)"prog", a, (char*)"other", b, (char*)"last" }; op_init(&st, both ? 5 : 3, v); char *r = op_get(&st, &s), *e = !both ? 0 : val ? b + dash + N + 1 : v[4];
		VP_CHECK(r == e, "option name of %zu characters, an argument that differs at %zu%s: %s", N, p, both ? " and then the option" : "", r ? vp_shows(r) : "absent"); VP_CHECK(!!op_hasflag(&st, &s) == (both && !val), "flag name of %zu characters, an argument that differs at %zu%s", N, p, both ? " and then the flag" : ""); vp_trans(2); vp_states_add(1); }
	vp_trace("names of %zu characters", N);
}
const vp_scenario vp_scenarios[] = {
	{ "vectors", a_units, a_run, "all argument vectors of up to 3 (4) from 25 look-alike arguments x 9 names" },
	{ "deep", b_units, b_run, "all vectors of 5 (7) from 6 arguments" },
	{ "texts", c_units, c_run, "all arguments of 3..7 (9) characters over {-,f,o,=,x}, alone and before -foo" },
	{ "printall", p_units, p_run, "all pairs of arguments printed" },
	{ "bytevalues", y_units, y_run, "every byte value at every place of names of 1..3 characters, next to names that differ in one bit: all pairs of 10 arguments" },
	{ "near", x_units, x_run, "names of 1..96 (300) characters next to arguments that differ from them at one position, every position" },
	{ "wide", w_units, w_run, "sizes around all powers of two and ten from 7 to 131074 (2^18 + 2) as number of arguments (the option at 12 positions, in 6 spellings) and as length of names and values" },
	{ 0 }
};
