#include "engine.h"
#include <limits.h>
#include "strlib.h"
const char vp_property[] = "C16";
static void back32(const char *t, size_t n, int v) { char *p = vp_copy(t, n); int r = strtoint(p, n); VP_CHECK(r == v, "strtoint(%s) = %d", vp_show(t, n), r); int64_t q = strtoint64(p, n); VP_CHECK(q == v, "strtoint64(%s) = %lld", vp_show(t, n), (long long)q); }
static void v32(uint32_t v) {
	char e[24], *b, *r; size_t n, k = vp_buf_mark();
	n = sprintf(e, "%d", (int)v);
	b = vp_buf(12); r = itoa(v, b); VP_CHECK(r == b && !strcmp(r, e), "itoa(%d) = %s", (int)v, vp_shows(r));
	b = vp_buf(12); r = intToString(v, b); VP_CHECK(r >= b && r < b + 12 && !strcmp(r, e), "intToString(%d) = %s", (int)v, vp_shows(r));
	back32(e, n, v);
	n = sprintf(e, "%u", v);
	b = vp_buf(11); r = utoa(v, b); VP_CHECK(r == b && !strcmp(r, e), "utoa(%u) = %s", v, vp_shows(r));
	b = vp_buf(11); r = uintToString(v, b); VP_CHECK(r >= b && r < b + 11 && !strcmp(r, e), "uintToString(%u) = %s", v, vp_shows(r));
	{ char *p = vp_copy(e, n); int64_t q = strtoint64(p, n); VP_CHECK(q == v, "strtoint64(%s) = %lld", e, (long long)q); }
	vp_trans(6); vp_states_add(1); vp_buf_release(k);
}
static void win(uint32_t c, uint32_t w) { for(uint32_t i = 0; i <= 2 * w; i++) v32(c - w + i); vp_trace("all values around %u", c); }
static long a_units(void) { return 64 + VP_T(128, 1024); }
static void a_run(long u) { if(u < 64) { win(1u << (u % 32), u < 32 ? 300 : 0); if(u == 40) win(INT_MAX, 3000); if(u == 41) win(0, 5000); } else { uint32_t s = VP_T(1 << 13, 1 << 14); for(uint32_t i = 0; i < s; i++) v32(0u - (s * VP_T(64, 512)) + s * (u - 64) + i); vp_trace("block %ld", u); } }
/* multiples of powers of ten */
static long b_units(void) { return 10; }
static void b_run(long u) { uint64_t p = 1; for(long i = 0; i < u; i++) p *= 10; for(uint64_t d = 1; d * p < (1ull << 32) + 10 && d < 2000; d++) { for(int j = -3; j <= 3; j++) { v32(d * p + j); v32(0 - (uint32_t)(d * p + j)); } } vp_trace("multiples of 10^%ld", u); }
static long c_units(void) { return 32; }
static void c_run(long u) { for(int j = 0; j < 32; j++) for(int k = 0; k < 32; k++) { v32((1u << u) | (1u << j) | (1u << k)); v32(~((1u << u) | (1u << j) | (1u << k))); v32((1u << u) - (1u << j) + k); } vp_trace("bit patterns"); }
/* 64 bit */
static void v64(uint64_t v) {
	char e[40], *b, *r; size_t n, k = vp_buf_mark(); long long s = v;
	n = sprintf(e, "%lld", s); b = vp_buf(s < 0 ? n + 1 : n + 2); r = int64ToString(s, b); VP_CHECK(!strcmp(r, e), "int64ToString(%lld) = %s", s, vp_shows(r));
	{ char *p = vp_copy(e, n); int64_t q = strtoint64(p, n); VP_CHECK(q == s, "strtoint64(%s) = %lld", e, (long long)q); }
	for(int z = 1; z < 26; z += 8) { char t[80]; int m = sprintf(t, "%s%0*d%s", s < 0 ? "-" : "", z, 0, e + (s < 0)); char *p = vp_copy(t, m); int64_t q = strtoint64(p, m); VP_CHECK(q == s, "strtoint64(%s) = %lld", t, (long long)q); if(s >= INT_MIN && s <= INT_MAX) { int g = strtoint(p, m); VP_CHECK(g == s, "strtoint(%s) = %d", t, g); } }
	n = sprintf(e, "%llu", (unsigned long long)v); b = vp_buf(n + 1); r = uint64ToString(v, b); VP_CHECK(!strcmp(r, e), "uint64ToString(%llu) = %s", (unsigned long long)v, vp_shows(r));
	vp_trans(8); vp_states_add(1); vp_buf_release(k);
}
static long d_units(void) { return 64 + 20; }
static void d_run(long u) { vp_trace("64 bit values, set %ld", u);
	if(u < 64) { for(int j = 0; j < 64; j++) { v64((1ull << u) + (1ull << j)); v64((1ull << u) - (1ull << j)); v64(0 - ((1ull << u) + (1ull << j))); v64(~((1ull << u) ^ (1ull << j))); } for(int d = -20; d <= 20; d++) v64((1ull << u) + d); }
	else { uint64_t p = 1; for(long i = 64; i < u; i++) p *= 10; for(uint64_t d = 1; d < 1000 && d <= UINT64_MAX / p; d++) for(int j = -2; j <= 2; j++) { v64(d * p + j); v64(0 - (d * p + j)); } for(uint64_t q = 1, i = 0; i < 20; i++, q *= 10) for(int d1 = 1; d1 < 10; d1++) for(int d2 = 0; d2 < 10; d2++) v64(d1 * p + d2 * q); } }
/* general conversion */
static const char ALPHA[] = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz";
static void gen(uint64_t v, unsigned base, size_t maxlen, int flags) {
	char e[200], *p; size_t n = 0, k = vp_buf_mark(); int neg = (flags & NTS_SIGNED_TYPE) && (int64_t)v < 0; uint64_t m = neg ? 0 - v : v; char dig[80]; int nd = 0;
	do { int d = m % base; dig[nd++] = (flags & NTS_LOWERCASE_CHARS) && base <= 36 && d >= 10 ? 'a' + d - 10 : ALPHA[d]; m /= base; } while(m && (!maxlen || nd < (int)maxlen));
	if(maxlen) { if(flags & NTS_PAD) while(nd < (int)maxlen) dig[nd++] = '0'; else while(nd > 1 && dig[nd - 1] == '0') nd--; }
	if(neg) e[n++] = '-'; while(nd) e[n++] = dig[--nd]; e[n] = 0;
	size_t bs = maxlen ? maxlen + !!(flags & NTS_SIGNED_TYPE) + 1 : n + 1; char *b = vp_buf(bs); char *r = numberToString(v, base, b, maxlen, flags); vp_trans(1);
	VP_CHECK(r && r >= b && r < b + bs && !strcmp(r, e), "numberToString(%llu, base %u, maxlen %zu, flags %d) = %s, must be %s", (unsigned long long)v, base, maxlen, flags, r ? vp_shows(r) : "null", e);
	vp_states_add(1); vp_buf_release(k);
}
static long g_units(void) { return 31 * 8; }
static void g_run(long u) {
	unsigned base = 2 + u / 8 * 2; int flags = u % 8; size_t ML = VP_T(0, 66); vp_trace("numberToString base %u flags %d", base, flags);
	static const size_t MLS[] = { 0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 20, 31, 32, 63, 64, 65, 66 };
	for(int mi = 0; mi < (ML ? (int)ML : VP_N(MLS)); mi++) { size_t ml = ML ? (size_t)mi : MLS[mi];
		for(uint64_t v = 0; v < base * 2u + 3; v++) { gen(v, base, ml, flags); gen(0 - v, base, ml, flags); }
		uint64_t p = 1; for(;;) { for(int d = -1; d <= 1; d++) { gen(p + d, base, ml, flags); gen(0 - (p + d), base, ml, flags); gen(p * (base - 1) + d, base, ml, flags); gen(p * 10 % base * p + d, base, ml, flags); } if(p > UINT64_MAX / base) break; p *= base; }
		for(int i = 0; i < 64; i++) { gen(1ull << i, base, ml, flags); gen((1ull << i) - 1, base, ml, flags); gen(0x0123456789abcdefull >> i, base, ml, flags); gen(0xfedcba9876543210ull >> i, base, ml, flags); }
		gen(INT64_MAX, base, ml, flags); gen(INT64_MIN, base, ml, flags); gen(UINT64_MAX, base, ml, flags); }
}
/* all digit strings: every leading-zero text */
static long z_units(void) { return 8; }
static void z_run(long u) { long p = 1; for(long i = 0; i < (u > 5 ? 5 : u); i++) p *= 10; for(long v = 0; v < p; v++) { char t[20]; int n = sprintf(t, "%0*ld", (int)u, v); if(u == 0) n = 0; size_t k = vp_buf_mark(); char *q = vp_copy(t, n); VP_CHECK(strtoint(q, n) == v && strtoint64(q, n) == v, "parsing %s", vp_show(t, n)); if(n) { memmove(t + 1, t, n); t[0] = '-'; q = vp_copy(t, n + 1); VP_CHECK(strtoint(q, n + 1) == -v && strtoint64(q, n + 1) == -v, "parsing %s", vp_show(t, n + 1)); } vp_trans(4); vp_states_add(1); vp_buf_release(k); } VP_CHECK(strtoint(0, 3) == 0 && strtoint64(0, 3) == 0, "null text"); vp_trace("all texts of %ld digits", u); }
#ifdef FULL
/* every 32 bit value; oracle: increment the decimal text */
static long full_units(void) { return 4096; }
static int inc(char *t, int n) { int i = n - 1; while(i >= 0 && t[i] == '9') t[i--] = '0'; if(i >= 0) { t[i]++; return n; } memmove(t + 1, t, n); t[0] = '1'; return n + 1; }
static void full_run(long u) {
	uint32_t v = (uint32_t)u << 20; char t[16], b[32]; int n = sprintf(t, "%u", v); vp_hang_limit(VP_T(240, 300));
	for(uint32_t i = 0; i < 1u << 20; i++, v++) {
		char *r; t[n] = 0; int dn; const char *d; char neg[16];
		memset(b, 0x7f, sizeof b); r = utoa(v, b + 8); if(memcmp(r, t, n + 1) || r != b + 8 || b[7] != 0x7f || b[8 + 11] != 0x7f) vp_fail("utoa(%u) = %s", v, r);
		memset(b, 0x7f, sizeof b); r = uintToString(v, b + 8); if(memcmp(r, t, n + 1) || b[7] != 0x7f || b[8 + 11] != 0x7f) vp_fail("uintToString(%u) = %s", v, r);
		if(strtoint64(t, n) != v) vp_fail("strtoint64(%s)", t);
		/* the signed value with this magnitude */
		if(v <= 0x7fffffffu) { memset(b, 0x7f, sizeof b); r = itoa(v, b + 8); if(memcmp(r, t, n + 1) || b[7] != 0x7f || b[8 + 12] != 0x7f) vp_fail("itoa(%u) = %s", v, r); r = intToString(v, b + 8); if(memcmp(r, t, n + 1)) vp_fail("intToString(%u) = %s", v, r); if(strtoint(t, n) != (int)v) vp_fail("strtoint(%s)", t); }
		if(v <= 0x80000000u) { neg[0] = '-'; memcpy(neg + 1, t, n + 1); int s = (int)(0u - v); if(v) { memset(b, 0x7f, sizeof b); r = itoa(s, b + 8); if(memcmp(r, neg, n + 2) || b[7] != 0x7f || b[8 + 12] != 0x7f) vp_fail("itoa(%d) = %s", s, r); r = intToString(s, b + 8); if(memcmp(r, neg, n + 2)) vp_fail("intToString(%d) = %s", s, r); } if(strtoint(neg, n + 1) != s) vp_fail("strtoint(%s)", neg); }
		n = inc(t, n);
		if(!(i & 0xfffff)) vp_beat();
	}
	vp_nchecks += 6u << 20; vp_trans(6ull << 20); vp_states_add(1 << 20); vp_trace("all values from %u to %u", (uint32_t)u << 20, v - 1);
}
const vp_scenario vp_scenarios[] = { { "all32", full_units, full_run, "every 32-bit value: utoa, uintToString, itoa, intToString, strtoint, strtoint64" }, { 0 } };
#else
const vp_scenario vp_scenarios[] = {
	{ "ints", a_units, a_run, "all values below 2^19 (2^23) in magnitude, all within 300 of a power of two or 3000 of INT_MAX/INT_MIN" },
	{ "tens", b_units, b_run, "all multiples d*10^k (d<2000) +-3, both signs" },
	{ "bits", c_units, c_run, "all values with up to 3 set or clear bits, all runs of ones" },
	{ "int64", d_units, d_run, "64-bit: sums/differences of two powers of two, d*10^k+-2, two-digit decimals, up to 25 leading zeros" },
	{ "general", g_units, g_run, "31 bases x 8 flag sets x maximum lengths (17; thorough 0..65) x ~700 digit-boundary values" },
	{ "texts", z_units, z_run, "all decimal texts of up to 5 digits, longer ones zero-padded" },
	{ 0 }
};
#endif
