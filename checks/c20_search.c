#include "engine.h"
#include "strs.h"
#include "strlib.h"
const char vp_property[] = "C20";
static char up(char c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
static int lead(char c) { return c && strchr(" \t\n:,.;-", c) != 0; } static int trail(char c) { return !c || lead(c) || c == '\r'; }
static void go(const char *a, int n, const char *p, int m) {
	size_t k = vp_buf_mark(); char *h = vp_str(a), *q = vp_copy(p, m); int e[3] = { -1, -1, -1 };
	for(int i = 0; m && i + m <= n; i++) { int u = 1, s = 1; for(int j = 0; j < m; j++) { if(up(a[i + j]) != p[j]) u = 0; if(p[j] != '*' && p[j] != a[i + j]) s = 0; } if(u && e[0] < 0) e[0] = i; if(s && e[1] < 0) e[1] = i; if(u && e[2] < 0 && (i == 0 || lead(a[i - 1])) && trail(a[i + m])) e[2] = i; }
	char *r[3] = { strstr_uc(h, q, m), strstar(h, q, m), findword(h, q, m) }; static const char *nm[] = { "strstr_uc", "strstar", "findword" };
	for(int f = 0; f < 3; f++) VP_CHECK(r[f] == (e[f] < 0 ? 0 : h + e[f]), "%s(%s, %s) = %ld, must be %d", nm[f], vp_show(a, n), vp_show(p, m), r[f] ? (long)(r[f] - h) : -1L, e[f]);
	int x = n >= m && !memcmp(a + n - m, p, m); char *w = vp_buf(m + 1); memcpy(w, p, m); w[m] = 0; if((int)strlen(w) == m) VP_CHECK(!!strends(h, w) == x, "strends(%s, %s)", vp_show(a, n), vp_show(p, m));
	if(m == 1 && p[0]) VP_CHECK(!!containsChar(h, p[0]) == (memchr(a, p[0], n) != 0), "containsChar(%s, %d)", vp_show(a, n), p[0]);
	vp_trans(4); vp_states_add(1); vp_buf_release(k);
}
/* letters: overlapping partial matches */
static const char L2[] = { 'a', 'B' }, P3[] = { 'A', 'B', '*' };
static long a_units(void) { return strs_count(2, VP_T(9, 11)); }
static void a_run(long u) { char a[20], p[8]; int n = strs_get(u, L2, 2, a); a[n] = 0; for(long i = 0; i < strs_count(3, VP_T(5, 6)); i++) { int m = strs_get(i, P3, 3, p); go(a, n, p, m); } vp_trace("text %s", vp_show(a, n)); }
/* word boundaries, non-letters, bytes above 127 */
static const char T6[] = { 'a', ' ', 'A', '-', '\r', (char)0xE4 };
static long b_units(void) { return strs_count(6, VP_T(6, 7)); }
static void b_run(long u) { char a[20], p[8]; int n = strs_get(u, T6, 6, a); a[n] = 0; static const char P5[] = { 'A', ' ', (char)0xE4, '*', 'a' }; for(long i = 0; i < strs_count(5, 3); i++) { int m = strs_get(i, P5, 5, p); go(a, n, p, m); } vp_trace("text %s", vp_show(a, n)); }
static const char T4[] = { 'o', 'O', '.', 'x' };
static long c_units(void) { return strs_count(4, VP_T(8, 9)); }
static void c_run(long u) { char a[20]; int n = strs_get(u, T4, 4, a); a[n] = 0; static const char *W[] = { "O", "OO", "OX", "OOX", "XO", "O.O", "OOO", "X" }; for(int i = 0; i < 8; i++) go(a, n, W[i], strlen(W[i])); vp_trace("text %s", vp_show(a, n)); }
/* long texts, match at every position */
static long d_units(void) { return VP_T(100, 300); }
static void d_run(long u) { char a[400]; static const char *W[] = { "NEEDLE", "N*E", "AAAB", "X" }; for(int w = 0; w < 4; w++) { int m = strlen(W[w]); for(long i = 0; i + m <= u; i++) { memset(a, w == 2 ? 'a' : i % 3 ? 'n' : ' ', u); a[u] = 0; memcpy(a + i, W[w], m); if(w != 2 && i % 2) { for(int j = 0; j < m; j++) if(a[i + j] >= 'A' && a[i + j] <= 'Z') a[i + j] += 32; } go(a, u, W[w], m); if(i + m < u) { a[i + m] = ','; go(a, u, W[w], m); if(i) { a[i - 1] = ';'; go(a, u, W[w], m); } } } } vp_trace("texts of length %ld", u); }
/* every boundary character and every character class */
static long e_units(void) { return 256; }
static void e_run(long u) {
	char c = u, b; if(c) { char t[8] = { c, 'a', 'b', 0 }; go(t, 3, "AB", 2); char s[8] = { 'a', 'b', c, 0 }; go(s, 3, "AB", 2); char r[8] = { 'x', c, 'A', 'b', c, 'y', 0 }; go(r, 6, "AB", 2); char p[2] = { c, 0 }; for(int i = 1; i < 256; i++) { char g[4] = { i, c, i, 0 }; go(g, 3, p, 1); char pp[3] = { c, i, 0 }; go(g, 3, pp, 2); } }
	char *q = vp_buf(1); int l = c >= 'a' && c <= 'z', U = c >= 'A' && c <= 'Z', d = c >= '0' && c <= '9';
	*q = c; VP_CHECK(!!isLower(q) == l && !!isUpper(q) == U && !!isNumber(q) == d && !!isLetter(q) == (l || U) && !!isAlpha(q) == (l || U || d) && *q == c, "character class of %d: lower %d upper %d number %d letter %d alpha %d", c, isLower(q), isUpper(q), isNumber(q), isLetter(q), isAlpha(q));
	*q = c; makelower(q); b = U ? c + 32 : c; VP_CHECK(*q == b, "makelower(%d) = %d", c, *q); *q = c; makeupper(q); b = l ? c - 32 : c; VP_CHECK(*q == b, "makeupper(%d) = %d", c, *q);
	VP_CHECK(!containsChar(0, c), "containsChar(null)"); VP_CHECK(!strstr_uc(0, "A", 1) && !strstar(0, "A", 1) && !strstr_uc("A", 0, 1) && !strstar("A", 0, 1), "null arguments"); vp_trans(8); vp_states_add(1); vp_trace("character %ld", u); vp_buf_reset(); }
/* suffixes */
static long f_units(void) { return strs_count(2, 8); }
static void f_run(long u) { char a[12], p[12]; int n = strs_get(u, L2, 2, a); a[n] = 0; for(long i = 0; i < strs_count(2, 8); i++) { int m = strs_get(i, L2, 2, p); p[m] = 0; size_t k = vp_buf_mark(); int r = strends(vp_str(a), vp_str(p)); VP_CHECK(!!r == (n >= m && !memcmp(a + n - m, p, m)), "strends(%s, %s) = %d", a, p, r); vp_trans(1); vp_states_add(1); vp_buf_release(k); } vp_trace("suffixes of %s", a); }
/* periodic texts and patterns: period, pattern length, copies in front, what breaks the period; wildcards at every place, also the last */
static long p_units(void) { return VP_T(48, 90); }
static void p_run(long u) { int m = u + 1; char p[100], a[400];
	for(int per = 1; per <= 8 && per <= m; per++) for(int brk = 0; brk < 3; brk++) for(int n = m - 2 < 0 ? 0 : m - 2; n <= 3 * m + 2; n += n < m + 4 || m < 12 ? 1 : per + 1) {
		for(int i = 0; i < m; i++) p[i] = 'A' + i % per; if(brk == 1) p[m - 1] = 'Z'; if(brk == 2) p[m / 2] = '*';
		for(int i = 0; i < n; i++) a[i] = (i & 1 ? 'a' : 'A') + i % per; a[n] = 0; go(a, n, p, m);
		if(brk == 1 && n) { a[n - 1] = 'z'; go(a, n, p, m); a[n - 1] = 'Z'; go(a, n, p, m); } else if(n > 2) { a[n / 2] = 'Y'; go(a, n, p, m); a[1] = ' '; go(a, n, p, m); } }
	/* wildcards: all the places of up to two in the pattern, the text ending before, at and behind the pattern's end */
	for(int i = 0; i < m; i++) for(int j = i; j < m; j += m > 16 && j > 2 && j + 3 < m ? 3 : 1) for(int n = m - 1; n <= m + 2; n++) for(int off = 0; off < 2; off++) { for(int k = 0; k < m; k++) p[k] = 'A' + k % 23; for(int k = 0; k < n; k++) a[k] = k < off ? 'y' : 'A' + (k - off) % 23; a[n] = 0; p[i] = p[j] = '*'; go(a, n, p, m); }
	vp_trace("patterns of %d characters", m); }
#define WHI VP_T(17, 20)
static long w_units(void) { return sizes_count(7, WHI); }

/* the expected position is given: a quadratic reference is not needed */
static void at(const char *h0, const char *p, size_t m, ssize_t euc, ssize_t estar, ssize_t eword) { size_t k = vp_buf_mark(); char *h = vp_str(h0), *q = vp_copy(p, m), *r; size_t n = strlen(h0);
	r = strstr_uc(h, q, m); VP_CHECK(r == (euc < 0 ? 0 : h + euc), "strstr_uc in %zu characters for %zu: %zd, must be %zd", n, m, r ? r - h : -1, euc); r = strstar(h, q, m); VP_CHECK(r == (estar < 0 ? 0 : h + estar), "strstar in %zu characters for %zu: %zd, must be %zd", n, m, r ? r - h : -1, estar); r = findword(h, q, m); VP_CHECK(r == (eword < 0 ? 0 : h + eword), "findword in %zu characters for %zu: %zd, must be %zd", n, m, r ? r - h : -1, eword); vp_trans(3); vp_states_add(1); vp_buf_release(k); }
static void w_run(long u) { size_t n = sizes_get(7, WHI, u); char *a = malloc(n + 40), *p = malloc(n + 4); vp_trace("%zu characters", n);
	size_t pos[] = { 0, 1, n / 2, n - 3, n - 4, 255, 256, 65535, 65536 };
	for(int i = 0; i < VP_N(pos); i++) if(pos[i] + 3 <= n) for(int c = 0; c < 3; c++) { size_t x = pos[i]; memset(a, c == 0 ? 'x' : c == 1 ? ' ' : 'n', n); a[n] = 0; memcpy(a + x, c == 1 ? "NEE" : "nee", 3); int word = c == 1 || (x == 0 && n == 3); at(a, "NEE", 3, x, c == 1 ? (ssize_t)x : -1, word ? (ssize_t)x : -1); at(a, "n*e", 3, -1, c == 1 ? -1 : (ssize_t)(x - (c == 2 && x)), -1); at(a, "ZEE", 3, -1, -1, -1); size_t k = vp_buf_mark(); char *h = vp_str(a); VP_CHECK(containsChar(h, c == 1 ? 'N' : 'e') && !containsChar(h, 'Z'), "containsChar in %zu", n); vp_buf_release(k); }
	/* patterns of n characters */
	for(size_t i = 0; i < n; i++) p[i] = 'A' + (i * 5 + i / 255) % 25; p[0] = 'Z'; p[n] = 0;
	for(int pre = 0; pre < 3; pre++) { static const char *P[] = { "", "y,", "yy" }; strcpy(a, P[pre]); size_t l = strlen(a); for(size_t i = 0; i < n; i++) a[l+i] = pre == 1 ? p[i] + 32 : p[i]; strcpy(a + l + n, pre == 1 ? " tail" : ""); at(a, p, n, l, pre == 1 ? -1 : (ssize_t)l, pre == 2 ? -1 : (ssize_t)l); a[l + n - 1] = '?'; at(a, p, n, -1, -1, -1); a[l + n - 1] = p[n-1]; a[l + n / 2] = '?'; at(a, p, n, -1, -1, -1); a[l + n - 1] = 0; at(a, p, n, -1, -1, -1); }
	memcpy(a, p, n + 1); char sv = p[n/2]; p[n/2] = '*'; at(a, p, n, -1, 0, -1); p[n/2] = sv;
	/* suffixes of n characters */
	size_t k = vp_buf_mark(); char *h = malloc(n + 4); strcpy(h, "ab"); strcat(h, p); VP_CHECK(strends(vp_str(h), vp_str(p)) && strends(vp_str(p), vp_str(p)) && !strends(vp_str(p), vp_str(h)) && strends(vp_str(p), vp_str(p + n - 1)) && strends(vp_str(p), ""), "strends with %zu characters", n); size_t dp[] = { 0, n / 2, n - 1 }; for(int i = 0; i < 3; i++) { h[2 + dp[i]] = '?'; VP_CHECK(!strends(vp_str(h), vp_str(p)), "strends with %zu characters differing at %zu", n, dp[i]); h[2 + dp[i]] = p[dp[i]]; } free(h); vp_buf_release(k); vp_trans(8);
	free(a); free(p); }
const vp_scenario vp_scenarios[] = {
	{ "overlap", a_units, a_run, "all texts to 9 (11) over {a,B} x all patterns to 5 (6) over {A,B,*}: four searches" },
	{ "words", b_units, b_run, "all texts to 6 (7) over {a,blank,A,-,CR,0xE4} x patterns to 3 over {A,blank,0xE4,*,a}" },
	{ "words2", c_units, c_run, "all texts to 8 (9) over {o,O,.,x} x 8 words" },
	{ "position", d_units, d_run, "a match at every position of texts to 99 (299) characters, with and without boundaries" },
	{ "chars", e_units, e_run, "all 256 characters as text, boundary and pattern; classification and case conversion" },
	{ "suffix", f_units, f_run, "all pairs of texts to 8 over {a,B}" },
	{ "periods", p_units, p_run, "patterns of 1..48 (90) characters with periods 1..8, intact, broken at the end or with a wildcard, in periodic texts to three times the length; up to two wildcards at all places with the text ending around the end of the pattern" },
	{ "wide", w_units, w_run, "texts and patterns of sizes around all powers of two and ten from 127 to 131074 (2^20 + 2), the match at 9 positions; suffixes of these sizes" },
	{ 0 }
};
