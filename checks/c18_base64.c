#include "engine.h"
#include "strs.h"
#include "strlib.h"
const char vp_property[] = "C18";
static const char T[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static char ref[1500000];
static size_t refenc(const unsigned char *a, size_t n) { size_t o = 0; for(size_t i = 0; i < n; i += 3) { unsigned v = a[i] << 16 | (i + 1 < n ? a[i + 1] << 8 : 0) | (i + 2 < n ? a[i + 2] : 0); ref[o++] = T[v >> 18]; ref[o++] = T[v >> 12 & 63]; ref[o++] = i + 1 < n ? T[v >> 6 & 63] : '='; ref[o++] = i + 2 < n ? T[v & 63] : '='; } ref[o] = 0; return o; }
static const char *sh(const void *p, size_t n) { return vp_show(p, n > 60 ? 60 : n); }
static void enc(const unsigned char *a0, size_t n, int sizes) {
	size_t k = vp_buf_mark(), o = refenc(a0, n); unsigned char *a = vp_copy(a0, n); char *d = vp_buf(BASE64ENC_BUFSIZE(n));
	VP_CHECK(BASE64ENC_BUFSIZE(n) == o + 1 && BASE64ENC_BYTES(n) == o && BASE64DEC_BUFSIZE(o) >= n + 1, "documented sizes for %zu bytes", n);
	base64enc(d, a, n); VP_CHECK(!memcmp(d, ref, o + 1), "base64enc(%s) = %s, must be %s", sh(a, n), sh(d, o), sh(ref, o));
	size_t ds = BASE64DEC_BUFSIZE(o); char *t = vp_str(ref); size_t m = vp_buf_mark();
	for(size_t l = sizes ? 0 : ds; l <= ds + (sizes ? 3 : 0); l++) { unsigned char *b = vp_buf(l); memset(b, 0xEE, l); size_t r = base64dec(b, t, l); int must = l >= ds && n, no = l < n + 1; VP_CHECK(must ? r == n : no || !n ? r == 0 : r == 0 || r == n, "base64dec(%s, size %zu) returned %zu for %zu bytes", sh(ref, o), l, r, n); if(r) VP_CHECK(!memcmp(b, a, n) && b[n] == 0, "base64dec(%s, size %zu) gives %s, must be %s", sh(ref, o), l, sh(b, n + 1), sh(a, n)); else if(!n && l) VP_CHECK(b[0] == 0, "base64dec of the empty text: no terminator"); vp_trans(1); vp_buf_release(m); }
	if(!memchr(a, 0, n)) { unsigned char *s = vp_buf(n + 1); memcpy(s, a, n); s[n] = 0; m = vp_buf_mark(); for(size_t l = sizes ? 0 : o; l <= o + 1 + (sizes ? 3 : 0); l++) { char *b = vp_buf(l); int r = base64enc_str(b, s, l); VP_CHECK(!!r == (l >= o + 1), "base64enc_str(%s, size %zu) returned %d, needs %zu", sh(a, n), l, r, o + 1); if(r) VP_CHECK(!memcmp(b, ref, o + 1), "base64enc_str(%s) = %s", sh(a, n), sh(b, o)); else VP_CHECK(!l || memchr(b, 0, l), "base64enc_str(%s, size %zu) leaves the destination unterminated", sh(a, n), l); vp_trans(1); vp_buf_release(m); } }
	vp_trans(1); vp_states_add(1); vp_buf_release(k);
}
static long a_units(void) { return 256; }
static void a_run(long u) { unsigned char a[3]; a[0] = u; if(!u) enc(a, 0, 1); enc(a, 1, 1); for(int i = 0; i < 256; i++) { a[1] = i; enc(a, 2, 1); for(int j = 0; j < 256; j++) { a[2] = j; enc(a, 3, 0); } } vp_trace("byte strings starting with %ld", u); }
static long b_units(void) { return VP_T(200, 600); }
static void b_run(long u) { unsigned char a[700]; for(int p = 0; p < 6; p++) { for(long i = 0; i < u; i++) a[i] = p == 0 ? 0 : p == 1 ? 255 : p == 2 ? i : p == 3 ? i * 73 + u : p == 4 ? 'a' + i % 26 : 0x80 >> (i % 8); enc(a, u, 1); } vp_trace("length %ld", u); }
static long c_units(void) { return VP_T(64, 200); }
static void c_run(long u) { unsigned char a[220]; for(long i = 0; i < u; i++) for(int bit = 0; bit < 8; bit++) { memset(a, 0, u); a[i] = 1 << bit; enc(a, u, 0); memset(a, 255, u); a[i] ^= 1 << bit; enc(a, u, 0); } vp_trace("single bits in %ld bytes", u); }
/* decoding arbitrary texts */
static int val(char c) { const char *p = c ? strchr(T, c) : 0; return p ? p - T : -1; }
static long refdec(const char *s, size_t n, unsigned char *o, int *canon) { *canon = 1; if(!n || n % 4) return n ? -1 : 0; size_t pad = 0; while(pad < 2 && s[n - 1 - pad] == '=') pad++; long m = 0; for(size_t i = 0; i < n; i += 4) { int v[4]; for(int k = 0; k < 4; k++) { if(i + k >= n - pad) v[k] = 0; else if((v[k] = val(s[i + k])) < 0) return -1; } unsigned w = v[0] << 18 | v[1] << 12 | v[2] << 6 | v[3]; o[m++] = w >> 16; o[m++] = w >> 8; o[m++] = w; } for(size_t i = 0; i < pad; i++) if(o[m - 1 - i]) *canon = 0; return m - pad; }
static void dec(const char *s, size_t n) {
	static unsigned char e[1200000]; int canon; long m = refdec(s, n, e, &canon); size_t k = vp_buf_mark(); char *t = vp_str(s); size_t ds = BASE64DEC_BUFSIZE(n), mk = vp_buf_mark();
	for(size_t l = 0; l <= ds + 2; l++) { unsigned char *b = vp_buf(l); size_t r = base64dec(b, t, l); vp_trans(1);
		if(m <= 0) VP_CHECK(r == 0, "base64dec(%s, size %zu) returned %zu for malformed input", sh(s, n), l, r);
		else { int ok = l >= ds ? (canon ? r == (size_t)m : r == (size_t)m || r == 0) : l < (size_t)m + 1 ? r == 0 : r == 0 || r == (size_t)m; VP_CHECK(ok, "base64dec(%s, size %zu) returned %zu, decodes to %ld bytes", sh(s, n), l, r, m); if(r) VP_CHECK(!memcmp(b, e, m) && b[m] == 0, "base64dec(%s) gives %s, must be %s and a zero byte", sh(s, n), sh(b, m + 1), sh(e, m)); }
		vp_buf_release(mk); }
	vp_states_add(1); vp_buf_release(k);
}
static const char AL[] = { 'A', '=', 'R', '/', 'z', '*', '-' };
static long d_units(void) { return 343; }
static void d_run(long u) { char s[16]; s[0] = AL[u % 7]; s[1] = AL[u / 7 % 7]; s[2] = AL[u / 49]; for(int L = 3; L <= VP_T(7, 8); L++) { int na = L >= 7 ? 5 : 7; if(L == 8) na = 4; long p = 1; for(int i = 3; i < L; i++) p *= na; for(long i = 0; i < p; i++) { long v = i; for(int j = 3; j < L; j++) { s[j] = AL[v % na]; v /= na; } s[L] = 0; dec(s, L); } } for(int L = 0; L < 3; L++) { char q[4]; memcpy(q, s, L); q[L] = 0; dec(q, L); } vp_trace("texts starting with %.3s", s); }
/* every byte value at every position of valid texts */
static long e_units(void) { return 12; }
static void e_run(long u) { char s[16] = "QUJDREVGR0hJ"; for(int L = 4; L <= 12; L += 4) if(u < L) for(int c = 1; c < 256; c++) for(int pad = 0; pad < 3; pad++) { char q[16]; memcpy(q, s, 12); q[L] = 0; for(int i = 0; i < pad; i++) q[L - 1 - i] = '='; q[u] = c; dec(q, L); } vp_trace("every byte at position %ld", u); }
static long f_units(void) { return VP_T(80, 300); }
static void f_run(long u) { char s[400]; long n = u; for(long i = 0; i < n; i++) s[i] = T[(i * 11) % 64]; s[n] = 0; if(n <= 130) dec(s, n); for(long i = 0; i < n && n <= 130; i++) { char c = s[i]; s[i] = '='; dec(s, n); s[i] = '!'; dec(s, n); s[i] = c; } vp_trace("texts of length %ld", n); }
/* every byte value at every position of longer texts, decoded into a fitting destination */
static long g_units(void) { return 256; }
static void g_run(long u) { if(!u) return; static char s[2100]; static unsigned char e[2100];
	for(int q = 0; q < 14; q++) { static const int Q[] = { 16, 20, 32, 60, 64, 68, 72, 96, 128, 132, 256, 260, 1024, 1028 }; size_t n = Q[q]; if(n > 300 && u % 16 && !vp_tier) continue; size_t k = vp_buf_mark(); char *t = vp_buf(n + 1); size_t ds = BASE64DEC_BUFSIZE(n); unsigned char *b = vp_buf(ds);
		for(size_t i = 0; i < n; i++) s[i] = T[(i * 11 + i / 64) % 64]; s[n] = 0; memcpy(t, s, n + 1);
		for(size_t i = 0; i < n; i++) { t[i] = s[i] = u; int canon; long m = refdec(s, n, e, &canon); size_t r = base64dec(b, t, ds); VP_CHECK(m <= 0 ? r == 0 : r == (size_t)m || (!canon && !r), "base64dec of %zu characters with byte %ld at %zu returned %zu, must be %ld", n, u, i, r, m <= 0 ? 0 : m); if(r) VP_CHECK(!memcmp(b, e, m) && !b[m], "base64dec of %zu characters with byte %ld at %zu: content", n, u, i); t[i] = s[i] = T[(i * 11 + i / 64) % 64]; vp_trans(1); }
		vp_states_add(n); vp_buf_release(k); }
	vp_trace("byte %ld in longer texts", u); }
#define WHI VP_T(17, 20)
static long w_units(void) { return sizes_count(7, WHI); }

static void decw(const char *s, size_t n) { static unsigned char e[1200000]; int canon; long m = refdec(s, n, e, &canon); size_t k = vp_buf_mark(), ds = BASE64DEC_BUFSIZE(n), L[] = { 0, 1, ds / 2, ds - 3, ds - 1, ds, ds + 1, ds + 1000 }; char *t = vp_str(s);
	for(int i = 0; i < VP_N(L); i++) { size_t l = L[i], mk = vp_buf_mark(); unsigned char *b = vp_buf(l); size_t r = base64dec(b, t, l); int ok = m <= 0 ? r == 0 : l >= ds ? r == (size_t)m || (!canon && !r) : l < (size_t)m + 1 ? r == 0 : r == 0 || r == (size_t)m; VP_CHECK(ok, "base64dec of %zu characters into %zu bytes returned %zu, decodes to %ld", n, l, r, m); if(r) VP_CHECK(!memcmp(b, e, m) && b[m] == 0, "base64dec of %zu characters: wrong bytes", n); vp_trans(1); vp_buf_release(mk); } vp_states_add(1); vp_buf_release(k); }
static void w_run(long u) { size_t n = sizes_get(7, WHI, u), k = vp_buf_mark(); unsigned char *a = malloc(n + 1);
	for(int p = 0; p < 3; p++) { for(size_t i = 0; i < n; i++) a[i] = p == 0 ? (i * 73 + (i >> 8)) : p == 1 ? 'a' + (i * 3 + i / 255) % 26 : 255; enc(a, n, 0); size_t o = refenc(a, n); if(p == 1) { a[n] = 0; unsigned char *s = (void*)vp_str((char*)a); size_t L[] = { 0, 1, o / 2, o - 4, o - 1, o, o + 1, o + 2 }; for(int i = 0; i < 8; i++) { size_t mk = vp_buf_mark(); char *b = vp_buf(L[i]); int r = base64enc_str(b, s, L[i]); VP_CHECK(!!r == (L[i] > o), "base64enc_str of %zu bytes into %zu: %d", n, L[i], r); if(r) VP_CHECK(!memcmp(b, ref, o + 1), "base64enc_str of %zu bytes", n); else VP_CHECK(!L[i] || memchr(b, 0, L[i]), "base64enc_str of %zu bytes into %zu leaves the destination unterminated", n, L[i]); vp_buf_release(mk); vp_trans(1); } }
		if(p == 0) { char *t = malloc(o + 8); memcpy(t, ref, o + 1); decw(t, o); size_t pos[] = { 0, o / 2, o - 5, o - 1, o - 2, 255, 256, 65535, 65536 }; for(int i = 0; i < VP_N(pos); i++) if(pos[i] < o) { char c = t[pos[i]]; t[pos[i]] = '!'; decw(t, o); t[pos[i]] = '='; decw(t, o); t[pos[i]] = 0x80; decw(t, o); t[pos[i]] = c; } strcat(t, "="); decw(t, o + 1); t[o] = 0; t[o-1] = 0; decw(t, o - 1); free(t); } }
	free(a); vp_trace("%zu bytes", n); vp_buf_release(k); }
/* the size macros with the length given as an expression */
static long z_units(void) { return 260; }
static void z_run(long u) { size_t n = u, e = (n + 2) / 3 * 4, d = n / 4 * 3; int y = 1;
	for(size_t a = 0; a <= n; a++) { size_t b = n - a, c = n + a, k = vp_buf_mark(); VP_CHECK(BASE64ENC_BYTES(a + b) == e && BASE64ENC_BUFSIZE(a + b) == e + 1 && BASE64ENC_BYTES(c - a) == e && BASE64ENC_BUFSIZE(y ? n : a) == e + 1 && BASE64ENC_BYTES(y ? n : a) == e && BASE64ENC_BYTES(n & 1023) == e && BASE64ENC_BUFSIZE(n | 0) == e + 1, "encoded size of %zu = %zu + %zu bytes", n, a, b);
		VP_CHECK(BASE64DEC_BYTES(a + b) == d && BASE64DEC_BUFSIZE(a + b) == d + 1 && BASE64DEC_BYTES(c - a) == d && BASE64DEC_BUFSIZE(y ? n : a) == d + 1 && BASE64DEC_BYTES(y ? n : a) == d && BASE64DEC_BYTES(n & 1023) == d && BASE64DEC_BUFSIZE(n | 0) == d + 1, "decoded size of %zu = %zu + %zu characters", n, a, b);
		unsigned char *src = vp_buf(n); memset(src, a, n); size_t o = BASE64ENC_BUFSIZE(y ? n : a); char *t = vp_buf(o); base64enc(t, src, a + b); VP_CHECK(strlen(t) == e, "encoding %zu bytes", n); vp_buf_release(k); vp_trans(15); }
	vp_trace("length %ld", u); vp_states_add(u + 1); }
const vp_scenario vp_scenarios[] = {
	{ "bytes", a_units, a_run, "all byte strings of length 0..2 at every destination size, all 2^24 of length 3" },
	{ "lengths", b_units, b_run, "lengths 0..199 (599) x 6 patterns x every destination size" },
	{ "sizes", z_units, z_run, "the size macros for lengths 0..259 given as sums, differences, conditionals and bit operations" },
	{ "bits", c_units, c_run, "every single bit set or clear in every length to 63 (199)" },
	{ "texts", d_units, d_run, "decoding all texts to length 7 (8) over {A,=,R,/,z[,*,-]} at every destination size" },
	{ "everybyte", e_units, e_run, "every byte value at every position of texts of 4, 8, 12 characters with 0..2 padding" },
	{ "corrupt", f_units, f_run, "texts of every length to 79 (130), '=' and '!' at every position" },
	{ "everybyte2", g_units, g_run, "every byte value at every position of texts of 16..260 (every 16th value also 1024, 1028) characters" },
	{ "wide", w_units, w_run, "sizes around all powers of two and ten from 127 to 131074 (2^20 + 2) bytes: encoding, decoding at 8 destination sizes, corruption at 9 positions" },
	{ 0 }
};
