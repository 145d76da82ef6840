/* C26: getpathdiff, getfilename, getFileExt against direct definitions. */
#include "engine.h"
#include "strs.h"
#include "filelib.h"
const char vp_property[] = "C26";
static int norm(const char *p, size_t n, char *o_) {
	if(!n || p[0] != '/') return 0;
	size_t o = 0;
	for(size_t i = 0; i < n;) { while(i < n && p[i] == '/') i++; size_t e = i; while(e < n && p[e] != '/') e++; size_t l = e - i; if(!l) break;
		if(l == 1 && p[i] == '.') ; else if(l == 2 && p[i] == '.' && p[i+1] == '.') { if(!o) return 0; do o--; while(o_[o] != '/'); } else { o_[o++] = '/'; memcpy(o_ + o, p + i, l); o += l; } i = e; }
	if(!o) o_[o++] = '/';
	o_[o] = 0; return 1;
}
static void diff(const char *a, size_t al, const char *b, size_t bl) {
	size_t mk = vp_buf_mark(); static char na[20000], nb[20000]; const char *exp = 0;
	if(norm(a, al, na) && norm(b, bl, nb)) { size_t l = strlen(na); if(l == 1) exp = nb; else if(!strncmp(na, nb, l) && (nb[l] == '/' || !nb[l])) exp = nb + l; }
	char *x = vp_buf(al + 1), *y = vp_buf(bl + 1), *w = vp_buf(bl + 1); memcpy(x, a, al); x[al] = 0; memcpy(y, b, bl); y[bl] = 0; stringptr *p = vp_buf(sizeof *p), *q = vp_buf(sizeof *q); p->ptr = x; p->size = al; q->ptr = y; q->size = bl;
	ssize_t r = getpathdiff(p, q, w); vp_trans(1);
	if(exp) VP_CHECK(r == (ssize_t)strlen(exp) && !memcmp(w, exp, r + 1), "getpathdiff(%s, %s) = %zd %s, expected %s", vp_show(a, al), vp_show(b, bl), r, r >= 0 && r <= (ssize_t)bl ? vp_show(w, r) : "", exp);
	else VP_CHECK(r == -1, "getpathdiff(%s, %s) = %zd %s, expected failure", vp_show(a, al), vp_show(b, bl), r, r >= 0 && r <= (ssize_t)bl ? vp_show(w, r) : "");
	/* the paths are afterwards either as given or normalized */
	VP_CHECK(p->ptr == x && ((p->size == al && !memcmp(x, a, al)) || (norm(a, al, na) && p->size == strlen(na) && !memcmp(x, na, p->size))), "getpathdiff(%s, %s) left the first path as %s", vp_show(a, al), vp_show(b, bl), vp_show(p->ptr, p->size > al ? al : p->size));
	VP_CHECK(q->ptr == y && ((q->size == bl && !memcmp(y, b, bl)) || (norm(b, bl, nb) && q->size == strlen(nb) && !memcmp(y, nb, q->size))), "getpathdiff(%s, %s) left the second path as %s", vp_show(a, al), vp_show(b, bl), vp_show(q->ptr, q->size > bl ? bl : q->size));
	vp_states_add(1); vp_buf_release(mk);
}
static int LA(void) { return VP_T(4, 5); } static int LB(void) { return VP_T(6, 7); }
static long d_units(void) { return strs_count(3, LA()); }
static void d_run(long u) { char a[20], b[20]; int al = strs_get(u, "/.a", 3, a); long nb = strs_count(3, LB()); for(long i = 0; i < nb; i++) { int bl = strs_get(i, "/.a", 3, b); diff(a, al, b, bl); } vp_trace("first path %s", vp_show(a, al)); }
/* both absolute over two letters */
static long e_units(void) { return strs_count(3, VP_T(5, 6)); }
static void e_run(long u) { char a[20] = "/", b[20] = "/"; int al = 1 + strs_get(u, "/ab", 3, a + 1); long nb = strs_count(3, VP_T(6, 7)); for(long i = 0; i < nb; i++) { int bl = 1 + strs_get(i, "/ab", 3, b + 1); diff(a, al, b, bl); } vp_trace("first path %s", vp_show(a, al)); }
static const char *CO[] = { "", ".", "..", "a", "ab", "b", "a.", "usr", "usrlocal" };
static long f_units(void) { return VP_N(CO) * VP_N(CO) * VP_N(CO); }
static void f_run(long u) { char a[64], b[64]; int al = 0, bl = 0, k[3] = { u % VP_N(CO), u / VP_N(CO) % VP_N(CO), u / VP_N(CO) / VP_N(CO) }; for(int i = 0; i < 3; i++) al += sprintf(a + al, "/%s", CO[k[i]]); int d = VP_T(4, 5); for(int i = 0; i < d; i++) bl += sprintf(b + bl, "/%s", CO[vp_choose(VP_N(CO))]); diff(a, al, b, bl); diff(a, al, a, al); vp_trace("%s %s", a, b); }
#define CH 256
static long n_n(void) { return strs_count(4, VP_T(8, 10)); }
static long n_units(void) { return (n_n() + CH - 1) / CH; }
static void n_run(long u) {
	for(long i = u * CH; i < (u + 1) * CH && i < n_n(); i++) {
		char s[20]; size_t mk = vp_buf_mark(); int n = strs_get(i, "/.a\xff", 4, s); char *e = vp_copy(s, n); int d = -1, l = -1; for(int j = 0; j < n; j++) { if(s[j] == '.') d = j; if(s[j] == '/') l = j; }
		char *r = getFileExt(e, n); VP_CHECK(r == (d < 0 ? 0 : e + d + 1), "getFileExt(%s) is at %td, expected %d", vp_show(s, n), r ? r - e : -1, d < 0 ? -1 : d + 1);
		stringptr *p = vp_buf(sizeof *p); p->ptr = e; p->size = n; r = getfilename(p); VP_CHECK(r == (l < 0 ? 0 : e + l + 1), "getfilename(%s) is at %td, expected %d", vp_show(s, n), r ? r - e : -1, l < 0 ? -1 : l + 1);
		VP_CHECK(!memcmp(e, s, n) && p->ptr == e && p->size == n, "input changed"); vp_trans(2); vp_states_add(1); vp_buf_release(mk);
	}
	vp_trace("names %ld..", u * CH);
}
/* every byte value in components and names */
static long y_units(void) { return 255; }
static void y_run(long u) { char c = u + 1, a[16], b[16]; static const char *P[] = { "/?", "/?/", "/a?", "/?a", "/?/b", "/b/?", "/a/../?", "/??" }; for(int d = 1; d < 256; d++) for(int i = 0; i < 8; i++) { int al = 0, bl = 0; for(const char *p = P[i]; *p; p++) a[al++] = *p == '?' ? c : *p; for(const char *p = P[i]; *p; p++) b[bl++] = *p == '?' ? d : *p; diff(a, al, b, bl); b[bl++] = '/'; b[bl++] = c; diff(a, al, b, bl); b[bl - 2] = c; diff(a, al, b, bl); }
	for(int d = 1; d < 256; d++) for(int k = 0; k < 6; k++) { static const char *Q[] = { "a?b", "?!", "!?!", "a.?!", "a/?!", "?a!b" }; char s[8]; int n = 0, dt = -1, sl = -1; for(const char *p = Q[k]; *p; p++) s[n++] = *p == '?' ? c : *p == '!' ? d : *p; for(int j = 0; j < n; j++) { if(s[j] == '.') dt = j; if(s[j] == '/') sl = j; } size_t mk = vp_buf_mark(); char *e = vp_copy(s, n); char *r = getFileExt(e, n); VP_CHECK(r == (dt < 0 ? 0 : e + dt + 1), "getFileExt(%s) is at %td, expected %d", vp_show(s, n), r ? r - e : -1, dt < 0 ? -1 : dt + 1); stringptr *p = vp_buf(sizeof *p); p->ptr = e; p->size = n; r = getfilename(p); VP_CHECK(r == (sl < 0 ? 0 : e + sl + 1), "getfilename(%s)", vp_show(s, n)); vp_trans(2); vp_states_add(1); vp_buf_release(mk); }
	vp_trace("byte %ld", u + 1); }
/* long components, many components, long names */
static long z_units(void) { return VP_T(2040, 4080); }
static void z_run(long u) {
	static char a[20000], b[20000]; size_t L = u + 1, n; static const char *F[][2] = { { "/?", "/?/x" }, { "/?", "/?" }, { "/?", "/?x" }, { "/?x", "/?" }, { "/?/", "/?/y/" }, { "/a/?", "/a/?/b/c" }, { "/", "/?" }, { "/?/../a", "/a/?" }, { "/q", "/?" }, { "/?a", "/?b" } };
	for(int f = 0; f < VP_N(F); f++) for(int how = 0; how < 2; how++) { size_t l[2]; for(int k = 0; k < 2; k++) { char *o = k ? b : a; n = 0; for(const char *p = F[f][k]; *p; p++) if(*p == '?') { if(how && (L < 3 || L > 1000)) { o[n++] = 'k'; continue; } for(size_t j = 0; j < L; j++) o[n++] = how && j % 2 ? '/' : 'k'; if(how) o[n++] = 'e'; } else o[n++] = *p; l[k] = n; } diff(a, l[0], b, l[1]); if(l[0] == l[1] && l[0] > 2) { b[l[0] / 2] ^= 1; diff(a, l[0], b, l[1]); b[l[0] / 2] ^= 1; b[l[0] - 2] ^= 1; diff(a, l[0], b, l[1]); } }
	vp_trace("size %zu", L);
}
static long w_units(void) { return sizes_count(4, VP_T(17, 20)); }
static void w_run(long u) { size_t n = sizes_get(4, VP_T(17, 20), u), pos[] = { 0, 1, n / 2, n - 2, n - 1, 127, 128, 255, 256, 65535, 65536, n }; size_t mk = vp_buf_mark(); char *e = vp_buf(n); memset(e, 'x', n); stringptr *p = vp_buf(sizeof *p); p->ptr = e; p->size = n;
	for(int i = 0; i < VP_N(pos); i++) for(int c = 0; c < 2; c++) if(pos[i] <= n) for(int two = 0; two < 2; two++) { ssize_t x = pos[i]; char k = c ? '/' : '.'; if(x < (ssize_t)n) e[x] = k; if(two && x) e[x / 2] = k; ssize_t ex = x < (ssize_t)n ? x : two ? x / 2 : -1; char *r = c ? getfilename(p) : getFileExt(e, n); VP_CHECK(r == (ex < 0 ? 0 : e + ex + 1), "%s of %zu bytes: found at %td, expected %zd", c ? "getfilename" : "getFileExt", n, r ? r - e : -1, ex + (ex >= 0)); memset(e, 'x', n); vp_trans(1); vp_states_add(1); } vp_trace("names of %zu bytes", n); vp_buf_release(mk); }
/* a dot and a slash at every pair of places in names of every length to 300 */
static long m_units(void) { return VP_T(300, 600); }
static void m_run(long u) { size_t n = u + 1, mk = vp_buf_mark(); char *e = vp_buf(n); stringptr *p = vp_buf(sizeof *p); p->ptr = e; p->size = n; int step = n > 120 ? 7 : 1; memset(e, 'x', n);
	for(size_t i = 0; i < n; i += i > 20 && i + 20 < n ? step : 1) for(size_t j = 0; j < n; j += j > 20 && j + 20 < n ? step : 1) if(i != j) { e[i] = '.'; e[j] = '/'; char *r = getFileExt(e, n), *f = getfilename(p); VP_CHECK(r == e + i + 1, "getFileExt of %zu bytes with the dot at %zu and a slash at %zu: %td", n, i, j, r ? r - e : -1); VP_CHECK(f == e + j + 1, "getfilename of %zu bytes with the slash at %zu and a dot at %zu: %td", n, j, i, f ? f - e : -1); e[i] = e[j] = 'x'; vp_trans(2); }
	vp_trace("names of %zu bytes", n); vp_states_add(1); vp_buf_release(mk); }
const vp_scenario vp_scenarios[] = {
	{ "diff", d_units, d_run, "all pairs of strings over {/,.,a}: first up to 4 (5), second up to 6 (7)" },
	{ "diff-abs", e_units, e_run, "all pairs of absolute paths over {/,a,b}: first up to 6 (7) bytes, second up to 7 (8)" },
	{ "diff-comp", f_units, f_run, "first of 3, second of 4 (5) components over 9; every path with itself" },
	{ "names", n_units, n_run, "all strings over {/,.,a,0xff} up to length 8 (10)" },
	{ "bytevalues", y_units, y_run, "every pair of byte values in 8 path shapes and 6 name shapes" },
	{ "wide", z_units, z_run, "components of every length to 2040 (4080) and paths of up to 500 components, in 10 pairs of shapes, with one differing byte" },
	{ "pairs", m_units, m_run, "a dot and a slash at every (above 120: every seventh and the 20 outermost) pair of places in names of 1..300 (600) bytes" },
	{ "longnames", w_units, w_run, "names of sizes around all powers of two and ten from 15 to 131074 (2^20 + 2), separator at 12 positions" },
	{ 0 }
};
