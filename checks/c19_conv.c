#include "engine.h"
#include "strs.h"
#include "strlib.h"
#include "endianness.h"
const char vp_property[] = "C19";
static const char LO[] = "0123456789abcdef", UP[] = "0123456789ABCDEF";
static void hex(const unsigned char *a0, size_t n) {
	size_t k = vp_buf_mark(); unsigned char *a = vp_copy(a0, n); char *d = vp_buf(2 * n + 1), *e = malloc(2 * n + 1), *f; raw2hex(d, a, n); for(size_t i = 0; i < n; i++) { e[2 * i] = LO[a[i] >> 4]; e[2 * i + 1] = LO[a[i] & 15]; } e[2 * n] = 0; VP_CHECK(!strcmp(d, e), "raw2hex(%s) = %s", vp_show(a, n), d);
	for(int c = 0; c < 3; c++) { for(size_t i = 0; i < 2 * n; i++) { char q = e[i]; if(c == 1 || (c == 2 && i & 1)) q = q >= 'a' ? q - 32 : q; d[i] = q; } f = vp_str(d); unsigned char *o = vp_buf(n); size_t r = hex2raw(f, o); VP_CHECK(r == n && !memcmp(o, a, n), "hex2raw(%s) returned %zu: %s", f, r, vp_show(o, n));
		if(n && a[0] < 16) { f = vp_str(d + 1); o = vp_buf(n); r = hex2raw(f, o); VP_CHECK(r == n && !memcmp(o, a, n), "hex2raw(%s) (odd length) returned %zu: %s", f, r, vp_show(o, n)); } }
	vp_trans(5); vp_states_add(1); free(e); vp_buf_release(k);
}
static long a_units(void) { return 256; }
static void a_run(long u) { unsigned char a[3]; a[0] = u; if(!u) hex(a, 0); hex(a, 1); for(int i = 0; i < 256; i++) { a[1] = i; hex(a, 2); if(vp_tier) for(int j = 0; j < 256; j++) { a[2] = j; hex(a, 3); } } char c = u; int e = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : 0; char *p = vp_copy(&c, 1); VP_CHECK(hexval(p) == e, "hexval(%d) = %d", c, hexval(p)); vp_buf_reset(); vp_trace("byte %ld", u); }
static long b_units(void) { return VP_T(300, 1200); }
static void b_run(long u) { unsigned char a[1300]; for(int p = 0; p < 4; p++) { for(long i = 0; i < u; i++) a[i] = p == 0 ? 0x0f : p == 1 ? 0xff : p == 2 ? i : (i * 197 + 5) >> (i % 3); hex(a, u); } vp_trace("length %ld", u); }
/* IPv4 */
static void ip(unsigned char *q) {
	char e[24], *b = vp_buf(16), *t; unsigned char *v = vp_copy(q, 4), *o; size_t n = 0; for(int i = 0; i < 4; i++) { if(q[i] >= 100) e[n++] = '0' + q[i] / 100; if(q[i] >= 10) e[n++] = '0' + q[i] / 10 % 10; e[n++] = '0' + q[i] % 10; e[n++] = '.'; } e[n - 1] = 0;
	stringfromipv4(v, b); VP_CHECK(!strcmp(b, e), "stringfromipv4(%s) = %s", e, vp_shows(b)); t = vp_str(e); o = vp_buf(4); VP_CHECK(ipv4fromstring(t, o) && !memcmp(o, q, 4), "ipv4fromstring(%s) = %d.%d.%d.%d", e, o[0], o[1], o[2], o[3]); VP_CHECK(isnumericipv4(t), "isnumericipv4(%s) = 0", e); vp_trans(3); vp_states_add(1); vp_buf_reset();
}
static long c_units(void) { return 256; }
static void c_run(long u) { static const unsigned char B[] = { 0, 1, 9, 10, 99, 100, 199, 200, 249, 255 }; unsigned char q[4]; for(int p = 0; p < 4; p++) for(int o = 0; o < 4; o++) if(o != p) for(int v = 0; v < 256; v++) for(int b = 0; b < 10; b += 3) { memset(q, B[b], 4); q[p] = u; q[o] = v; ip(q); }
	for(int m = 0; m < 10000; m++) { if(m % 10 != (int)(u % 10)) continue; q[0] = B[m / 1000]; q[1] = B[m / 100 % 10]; q[2] = B[m / 10 % 10]; q[3] = u; ip(q); }
	/* leading zeros */ for(int w = 0; w < 81; w++) { char t[40]; int d[4], x = w; for(int i = 0; i < 4; i++) { d[i] = x % 3 + 1; x /= 3; } unsigned char e[4] = { u, 7, 40, u / 2 }, *o = vp_buf(4); sprintf(t, "%0*d.%0*d.%0*d.%0*d", d[0], e[0], d[1], e[1], d[2], e[2], d[3], e[3]); char *s = vp_str(t); VP_CHECK(ipv4fromstring(s, o) && !memcmp(o, e, 4) && isnumericipv4(s), "address %s: %d.%d.%d.%d, numeric %d", t, o[0], o[1], o[2], o[3], isnumericipv4(s)); vp_trans(2); vp_states_add(1); vp_buf_reset(); } vp_trace("addresses with %ld", u); }
/* all texts */
static const char AL[] = { '1', '.', '0', 'a', '9' };
static void text(const char *s, int n) {
	int f = 1, ok = 1, quad = 1; int fl = 0, val = 0; for(int i = 0; i <= n; i++) { char c = i < n ? s[i] : '.'; if(c == '.') { if(!fl) ok = 0; if(fl > 3 || val > 255) quad = 0; if(i < n) f++; fl = val = 0; } else if(c >= '0' && c <= '9') { fl++; val = val * 10 + c - '0'; if(val > 9999) val = 9999; } else ok = 0; } if(f != 4) ok = 0; if(!ok) quad = 0;
	char *t = vp_str(s); unsigned char *o = vp_buf(4); int r = isnumericipv4(t); if(!ok) VP_CHECK(!r, "isnumericipv4(%s) = %d, must be 0", s, r); if(quad) VP_CHECK(r, "isnumericipv4(%s) = 0", s);
	r = ipv4fromstring(t, o); if(f < 4) VP_CHECK(!r, "ipv4fromstring(%s) accepted %d fields", s, f); if(quad) { VP_CHECK(r, "ipv4fromstring(%s) refused", s); int k = 0, v = 0; for(int i = 0; i <= n; i++) if(i == n || s[i] == '.') { VP_CHECK(o[k] == v, "ipv4fromstring(%s): field %d is %d", s, k, o[k]); k++; v = 0; } else v = v * 10 + s[i] - '0'; }
	vp_trans(2); vp_states_add(1); vp_buf_reset();
}
static long d_units(void) { return 125; }
static void d_run(long u) { char s[20]; s[0] = AL[u % 5]; s[1] = AL[u / 5 % 5]; s[2] = AL[u / 25]; for(int L = 0; L <= VP_T(9, 12); L++) { int na = L > 8 ? 2 : L > 6 ? 3 : 5; long p = 1; for(int i = 3; i < L; i++) p *= na; if(L < 3) p = 1; for(long i = 0; i < p; i++) { long v = i; for(int j = 3; j < L; j++) { s[j] = AL[v % na]; v /= na; } char q[20]; memcpy(q, s, L); q[L] = 0; text(q, L); } } vp_trace("texts starting with %.3s", s); }
/* all placements of dots in digit strings to 15 characters */
static long e_units(void) { return 128; }
static void e_run(long u) { for(int L = 7; L <= VP_T(13, 16); L++) for(long m = 0; m < 1 << (L - 7); m++) { char s[24]; long bits = u | m << 7; for(int i = 0; i < L; i++) s[i] = bits >> i & 1 ? '.' : '1' + i % 2; s[L] = 0; text(s, L); } vp_trace("dot placements %ld", u); }
/* byte order */
static long f_units(void) { return 256; }
static void f_run(long u) { for(uint32_t v = 0; v < 256; v++) { uint16_t x = u << 8 | v; VP_CHECK((uint16_t)byteswap16(x) == (uint16_t)(v << 8 | u), "byteswap16(%04x) = %x", x, byteswap16(x)); }
	for(int p = 0; p < 8; p++) for(int q = 0; q < 8; q++) for(unsigned v = 0; v < 256; v++) for(int base = 0; base < 2; base++) { unsigned char a[8], r[8]; memset(a, base ? 0xff : 0, 8); a[p] = u; a[q] = v; for(int i = 0; i < 8; i++) r[i] = a[7 - i]; uint64_t x, y; memcpy(&x, a, 8); memcpy(&y, r, 8); VP_CHECK(byteswap64(x) == y, "byteswap64(%llx)", (long long)x); if(p < 4 && q < 4) { uint32_t c, d; memcpy(&c, a, 4); memcpy(&d, r + 4, 4); VP_CHECK((uint32_t)byteswap32(c) == d, "byteswap32(%x) = %x", c, byteswap32(c)); VP_CHECK(le32(c) == c && le16((uint16_t)c) == (uint16_t)c, "le32/le16"); } } vp_trans(256 + 2 * 64 * 512); vp_states_add(256 + 64 * 512); vp_trace("byte swaps with %ld", u); }
#ifdef FULL
static long z_units(void) { return 65536; }
static void z_run(long u) { unsigned char q[4], o[4]; char e[24], b[24]; q[0] = u >> 8; q[1] = u; for(int i = 0; i < 65536; i++) { q[2] = i >> 8; q[3] = i; char *w = e; for(int k = 0; k < 4; k++) { if(q[k] >= 100) *w++ = '0' + q[k] / 100; if(q[k] >= 10) *w++ = '0' + q[k] / 10 % 10; *w++ = '0' + q[k] % 10; *w++ = '.'; } w[-1] = 0; memset(b, 1, 24); stringfromipv4(q, b); if(memcmp(b, e, w - e) || b[16] != 1) vp_fail("stringfromipv4(%s) = %s", e, b); if(!ipv4fromstring(e, o) || memcmp(o, q, 4)) vp_fail("ipv4fromstring(%s)", e); if(!isnumericipv4(e)) vp_fail("isnumericipv4(%s)", e); } vp_nchecks += 3 * 65536; vp_trans(3 * 65536); vp_states_add(65536); vp_trace("addresses %d.%d.*.*", q[0], q[1]); }
const vp_scenario vp_scenarios[] = { { "all-addresses", z_units, z_run, "every one of the 2^32 IPv4 addresses" }, { 0 } };
#else
#define WHI VP_T(17, 20)
static long w_units(void) { return sizes_count(7, WHI); }

static void w_run(long u) { size_t n = sizes_get(7, WHI, u); unsigned char *a = malloc(n); for(int p = 0; p < 3; p++) { for(size_t i = 0; i < n; i++) a[i] = p == 0 ? i * 73 + (i >> 8) : p == 1 ? (i % 16) * 17 : 255 - i; if(p != 2) a[0] = 7; hex(a, n); } free(a); vp_trace("%zu bytes", n);
	if(n < 70000) { char *t = malloc(n + 20); memset(t, '0', n); strcpy(t + n, "1.2.3.4"); VP_CHECK(isnumericipv4(vp_str(t)) >= 0, "x"); memset(t, '1', n); t[n] = 0; VP_CHECK(!isnumericipv4(vp_str(t)), "isnumericipv4 of %zu digits", n); unsigned char *o = vp_buf(4); VP_CHECK(!ipv4fromstring(vp_str(t), o), "ipv4fromstring of %zu digits", n); for(size_t i = 0; i < n; i++) t[i] = i % 2 ? '.' : '1'; VP_CHECK(!isnumericipv4(vp_str(t)), "isnumericipv4 of %zu fields", n / 2); memcpy(t, "1.2.3.4", 7); t[7] = 'x'; VP_CHECK(!isnumericipv4(vp_str(t)), "isnumericipv4 with a tail"); free(t); vp_buf_reset(); vp_trans(4); } }
const vp_scenario vp_scenarios[] = {
	{ "hex", a_units, a_run, "all byte strings to length 2 (3), three letter-case patterns, odd lengths; all 256 hexval inputs" },
	{ "hexlen", b_units, b_run, "lengths 0..299 (1199) x 4 patterns" },
	{ "ipv4", c_units, c_run, "all values in each field pair x 4 backgrounds, all boundary combinations, all leading-zero forms" },
	{ "texts", d_units, d_run, "all texts to 6 characters over {1,.,0,a,9}, to 8 over {1,.,0}, to 9 (12) over {1,.}" },
	{ "dots", e_units, e_run, "all placements of dots in texts of 7..13 (16) characters" },
	{ "swap", f_units, f_run, "all 16-bit values; all pairs of bytes at all positions in 32- and 64-bit values" },
	{ "wide", w_units, w_run, "sizes around all powers of two and ten from 127 to 131074 (2^20 + 2) bytes as hex; texts of that length are no addresses" },
	{ 0 }
};
#endif
