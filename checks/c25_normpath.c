/* C25: normalizepath and normalizepath_cstr against a component-wise definition. */
#include "engine.h"
#include "strs.h"
#include <limits.h>
#include "filelib.h"
const char vp_property[] = "C25";
static char exp_[40000];
/* 1 and exp_ set, or 0 refused */
static int ref(const char *p, size_t n) {
	if(!n || p[0] != '/') return 0;
	size_t o = 0; /* exp_[0..o) is "" or "/x/y" */
	for(size_t i = 0; i < n;) {
		while(i < n && p[i] == '/') i++;
		size_t e = i; while(e < n && p[e] != '/') e++;
		size_t l = e - i;
		if(!l) break;
		if(l == 1 && p[i] == '.') ;
		else if(l == 2 && p[i] == '.' && p[i+1] == '.') { if(!o) return 0; do o--; while(exp_[o] != '/'); }
		else { exp_[o++] = '/'; memcpy(exp_ + o, p + i, l); o += l; }
		i = e;
	}
	if(!o) exp_[o++] = '/';
	exp_[o] = 0; return 1;
}
static void go(const char *s, size_t n) {
	size_t mk = vp_buf_mark(); int ok = ref(s, n); size_t el = ok ? strlen(exp_) : 0;
	/* in place */
	char *b = vp_buf(n + 1); memcpy(b, s, n); b[n] = 0; stringptr *sp = vp_buf(sizeof *sp); sp->ptr = b; sp->size = n;
	int r = normalizepath(sp), must = !ok || el >= PATH_MAX ? 0 : n < PATH_MAX ? 1 : -1; vp_trans(1);
	VP_CHECK(sp->ptr == b, "the pointer was changed");
	if(must == 0) VP_CHECK(!r, "normalizepath(%s) accepted: %s", vp_show(s, n), vp_shows(b));
	if(must == 1) VP_CHECK(r, "normalizepath(%s) refused, expected %s", vp_show(s, n), exp_);
	if(r) { VP_CHECK(r == 1, "returned %d", r); VP_CHECK(sp->size == el && !memcmp(b, exp_, el) && b[el] == 0, "normalizepath(%s): %s size %zu, expected %s", vp_show(s, n), vp_show(b, sp->size <= n ? sp->size : n), sp->size, exp_);
		r = normalizepath(sp); VP_CHECK(r && sp->size == el && !strcmp(b, exp_), "normalizing %s again changes it (%d, %s)", exp_, r, vp_shows(b)); vp_trans(1); }
	else VP_CHECK(sp->size == n && !memcmp(b, s, n) && b[n] == 0, "the refused path %s was changed to %s", vp_show(s, n), vp_show(b, n));
	/* copying variant: exactly strlen+1 output bytes */
	char *in = vp_buf(n + 1), *out = vp_buf(n + 1); memcpy(in, s, n); in[n] = 0; char *q = normalizepath_cstr(in, out); vp_trans(1);
	VP_CHECK(!memcmp(in, s, n) && !in[n], "normalizepath_cstr changed its input %s", vp_show(s, n));
	if(ok) { VP_CHECK(q == out, "normalizepath_cstr(%s) refused, expected %s", vp_show(s, n), exp_); VP_CHECK(!strcmp(q, exp_), "normalizepath_cstr(%s) = %s, expected %s", vp_show(s, n), vp_shows(q), exp_);
		char *in2 = vp_str(exp_), *o2 = vp_buf(el + 1); q = normalizepath_cstr(in2, o2); VP_CHECK(q && !strcmp(q, exp_), "normalizepath_cstr(%s) changes a normalized path: %s", exp_, vp_shows(q)); vp_trans(1); }
	else VP_CHECK(!q, "normalizepath_cstr(%s) accepted: %s", vp_show(s, n), vp_shows(q));
	vp_states_add(1); vp_buf_release(mk);
}
#define CH 512
static long a_n(void) { return strs_count(3, VP_T(12, 14)); }
static long a_units(void) { return (a_n() + CH - 1) / CH; }
static void a_run(long u) { char s[32]; for(long i = u * CH; i < (u + 1) * CH && i < a_n(); i++) { int n = strs_get(i, "/.a", 3, s); go(s, n); if(n < (int)sizeof s - 1) { memmove(s + 1, s, n); s[0] = '/'; go(s, n + 1); } } vp_trace("strings %ld.. over /.a", u * CH); }
static long b_n(void) { return strs_count(4, VP_T(8, 10)); }
static long b_units(void) { return (b_n() + CH - 1) / CH; }
static void b_run(long u) { char s[32]; for(long i = u * CH; i < (u + 1) * CH && i < b_n(); i++) { int n = strs_get(i, "/.a\xff", 4, s); go(s, n); } vp_trace("strings %ld.. over /.a\\xff", u * CH); }
/* sequences of components */
static const char *CO[] = { "", ".", "..", "...", "a", ".a", "a.", "..a", "a..", "a.b", "bc", "../", " " };
static long c_units(void) { return VP_N(CO) * VP_N(CO); }
static void c_run(long u) {
	char s[256]; int d = VP_T(5, 6), n = 0;
	for(int i = 0; i < d; i++) { const char *c = CO[i == 0 ? u % VP_N(CO) : i == 1 ? u / VP_N(CO) : vp_choose(VP_N(CO))]; s[n++] = '/'; memcpy(s + n, c, strlen(c)); n += strlen(c); }
	go(s, n); s[n++] = '/'; go(s, n);
	vp_trace("%s", vp_show(s, n));
}
/* around PATH_MAX */
static const struct { const char *pre, *rep, *post; } LP[] = { { "/", "a", "" }, { "", "/a", "" }, { "", "/.", "" }, { "", "/", "" }, { "", "/.", "/aaa" }, { "/aa/", "../aa/", "" }, { "/", "a", "/.." }, { "/", "a", "/../b" }, { "/", "bb/", "../.." }, { "//", "c", "//" }, { "/", "d", "/." }, { "", "/..", "" }, { "", "/", "x" }, { "/", ".", "" }, { "x", "a", "" } };
static long l_units(void) { return VP_N(LP) * VP_T(140, 400); }
static void l_run(long u) {
	static char s[20000]; int pat = u % VP_N(LP); long k = u / VP_N(LP); size_t L = k < 100 ? PATH_MAX - 50 + k : k < 120 ? 2 * PATH_MAX - 110 + k : k < 140 ? 4 * PATH_MAX + k : 3800 + (k - 140) * 3;
	size_t n = strlen(LP[pat].pre), rl = strlen(LP[pat].rep), pl = strlen(LP[pat].post); memcpy(s, LP[pat].pre, n); while(n + rl + pl <= L) { memcpy(s + n, LP[pat].rep, rl); n += rl; } memcpy(s + n, LP[pat].post, pl); n += pl;
	vp_trace("%s%s...%s, %zu bytes", LP[pat].pre, LP[pat].rep, LP[pat].post, n); go(s, n);
}
/* every byte value in components, every pair of byte values as a component */
static long y_units(void) { return 255; }
static void y_run(long u) { char c = u + 1, s[32]; static const char *P[] = { "/?", "?", "/?/", "/a?/b", "/?a/..", "/?/../?", "/??/.", "/.?", "/..?", "/?.", "/?..", "/?./x", "/?../x/..", "/./?/.", "//?//?" , "/x/..?/y", "/x/.?./y" };
	for(int i = 0; i < VP_N(P); i++) { int n = 0; for(const char *p = P[i]; *p; p++) s[n++] = *p == '?' ? c : *p; go(s, n); } for(int d = 1; d < 256; d++) { s[0] = '/'; s[1] = c; s[2] = d; go(s, 3); s[3] = '/'; s[4] = d; s[5] = c; go(s, 6); s[3] = '/'; s[4] = '.'; s[5] = '.'; s[6] = '/'; s[7] = d; go(s, 8); } vp_trace("byte %ld", u + 1); }
/* every length below PATH_MAX in the same shapes; deep paths climbed back by every number of steps; long components */
static long z_units(void) { return 4100; }
static void z_run(long u) {
	static char s[40000]; size_t L = u + 1, n;
	for(int pat = 0; pat < VP_N(LP); pat++) { size_t rl = strlen(LP[pat].rep), pl = strlen(LP[pat].post); n = strlen(LP[pat].pre); memcpy(s, LP[pat].pre, n); while(n + rl + pl <= L) { memcpy(s + n, LP[pat].rep, rl); n += rl; } memcpy(s + n, LP[pat].post, pl); n += pl; go(s, n); }
	/* u components, climbed back by 1, half, all but one, all, one more */
	size_t up[] = { 1, L / 2, L - 1, L, L + 1 }; if(L <= VP_T(700, 2000)) for(int i = 0; i < 5; i++) { n = 0; for(size_t k = 0; k < L; k++) { s[n++] = '/'; s[n++] = 'a' + k % 26; if(k % 7 == 0) s[n++] = 'z'; } for(size_t k = 0; k < up[i]; k++) { memcpy(s + n, "/..", 3); n += 3; } go(s, n); memcpy(s + n, "/q/.", 4); n += 4; go(s, n); }
	/* one component of u bytes, between others, removed again */
	static const char *F[] = { "/?", "/x/?/y", "/?/../z", "/a/?/../../b", "/?/?", "/?/.", "//?//" }; for(int f = 0; f < VP_N(F); f++) { n = 0; for(const char *p = F[f]; *p; p++) if(*p == '?') { for(size_t k = 0; k < L; k++) s[n++] = k % 5 ? 'k' : '.'; } else s[n++] = *p; go(s, n); }
	/* runs of u slashes and of u dots */
	n = 0; memset(s, '/', L); n = L; s[n++] = 'a'; memset(s + n, '/', L); n += L; s[n++] = 'b'; go(s, n); s[0] = '/'; memset(s + 1, '.', L); go(s, L + 1); memcpy(s + L + 1, "/x", 2); go(s, L + 3); vp_trace("length %zu", L);
}
/* raw paths longer than PATH_MAX whose result is just below, at and above it, by every way in which a path shrinks */
static long k_units(void) { return 24 * 6; }
static void k_run(long u) {
	static char s[30000]; static const char *sh[] = { "/", "/.", "/x/..", "//./", "/yy/../", "/.." }; size_t R = PATH_MAX - 16 + u / 6, n; const char *p = sh[u % 6]; size_t pl = strlen(p);
	size_t extra[] = { 0, pl, 2 * pl, 20 * pl, (size_t)PATH_MAX / pl * pl, (size_t)PATH_MAX / pl * pl + pl };
	for(int e = 0; e < VP_N(extra); e++) for(int where = 0; where < 3; where++) for(int one = 0; one < 2; one++) { if(where == 1 && u % 6 == 5 && extra[e] > 0) continue; n = 0; size_t body = 0, half = where == 0 ? 0 : where == 1 ? R / 2 : R;
		for(int part = 0; part < 2; part++) { size_t to = part ? R : half; while(body < to) { size_t k = to - body; if(!one && k > 60) k = 30; s[n++] = '/'; body++; if(k == 1) { s[n++] = 'q'; body++; } else for(size_t i = 1; i < k; i++) { s[n++] = 'k'; body++; } } if(!part) for(size_t x = 0; x < extra[e]; x += pl) { memcpy(s + n, p, pl); n += pl; } }
		if(where == 0 && extra[e] && s[n-1] == 0) n--; go(s, n); }
	vp_trace("result of about %zu bytes, shrinking by %s", R, p);
}
const vp_scenario vp_scenarios[] = {
	{ "strings", a_units, a_run, "all strings over {/,.,a} up to length 12 (14), also with a leading slash" },
	{ "strings4", b_units, b_run, "all strings over {/,.,a,0xff} up to length 8 (10)" },
	{ "components", c_units, c_run, "all sequences of 5 (6) components over 13, with and without trailing slash" },
	{ "limit", k_units, k_run, "results of PATH_MAX - 16 to PATH_MAX + 7 bytes from raw paths up to twice as long: 6 ways of shrinking x 6 amounts x at the start, in the middle, at the end" },
	{ "long", l_units, l_run, "15 shapes x 140 (400) lengths around PATH_MAX and above" },
	{ "bytevalues", y_units, y_run, "every byte value in 17 path shapes, every pair of byte values as a component" },
	{ "wide", z_units, z_run, "every length 1..4100 in 15 shapes; paths of up to 700 (2000) components climbed back; components, runs of slashes and of dots of every length to 4100" },
	{ 0 }
};
