/* C24: CRC-32 and CRC-32C against a bit-by-bit definition (checked on the published check values). */
#include "engine.h"
#include "strs.h"
#include <sys/mman.h>
#include "crc32.h"
#include "crc32c.h"
const char vp_property[] = "C24";
static uint32_t bits(uint32_t s, unsigned char b, int v) { s ^= b; for(int i = 0; i < 8; i++) s = s >> 1 ^ (s & 1 ? (v ? 0x82f63b78u : 0xedb88320u) : 0); return s; }
static uint32_t rtab[2][256];
static uint32_t step(uint32_t s, unsigned char b, int v) { if(!rtab[0][1]) for(int k = 0; k < 2; k++) for(int i = 0; i < 256; i++) rtab[k][i] = bits(0, i, k); return s >> 8 ^ rtab[v][(s ^ b) & 255]; }
static uint32_t rcrc(const unsigned char *p, size_t n, int v) { uint32_t s = ~0u; for(size_t i = 0; i < n; i++) s = step(s, p[i], v); return ~s; }
static void tabs(int v) { if(v) CRC32C_InitTables(); else CRC32_InitTables(); }
static void init(CRC32_CTX *c, int v) { int r = v ? CRC32C_Init(c) : CRC32_Init(c); VP_CHECK(r == 0, "Init returned %d", r); }
static void up(CRC32_CTX *c, const unsigned char *p, size_t n, int v) { if(v) CRC32C_Update(c, p, n); else CRC32_Update(c, p, n); vp_trans(1); }
static uint32_t fin(CRC32_CTX *c, int v) { size_t k = vp_buf_mark(); unsigned char *o = vp_buf(4); if(v) CRC32C_Final(o, c); else CRC32_Final(o, c); uint32_t r = o[0] | o[1] << 8 | o[2] << 16 | (uint32_t)o[3] << 24; vp_buf_release(k); vp_trans(1); return r; }
static CRC32_CTX *mk(void) { return vp_buf(sizeof(CRC32_CTX)); }
static const char *nm(int v) { return v ? "CRC32C" : "CRC32"; }
static void one(const unsigned char *m, size_t n, int v, const char *what) { size_t k = vp_buf_mark(); CRC32_CTX *c = mk(); init(c, v); up(c, m, n, v); uint32_t g = fin(c, v), e = rcrc(m, n, v); VP_CHECK(g == e, "%s of %s %s (%zu bytes): %08x, expected %08x", nm(v), what, vp_show(m, n > 40 ? 40 : n), n, g, e); vp_states_add(1); vp_buf_release(k); }
static void fill(unsigned char *m, size_t n, int pat) { for(size_t i = 0; i < n; i++) m[i] = pat == 0 ? i * 7 + (i >> 8) * 13 + 3 : pat == 1 ? 0 : pat == 2 ? 255 : i * 151 + (i * i >> 3); }
#ifndef LONG
static long v_units(void) { return 1; }
static void v_run(long u) { tabs(0); tabs(1); if(rcrc((void*)"123456789", 9, 0) != 0xcbf43926 || rcrc((void*)"123456789", 9, 1) != 0xe3069283) { fprintf(stderr, "reference crc wrong\n"); _exit(78); } for(int v = 0; v < 2; v++) one(vp_copy("123456789", 9), 9, v, "vector"); vp_trace("published check values"); }
/* all messages of up to 2 bytes, fresh tables */
static long s_units(void) { return 256; }
static void s_run(long u) { unsigned char *m1 = vp_buf(1), *m2 = vp_buf(2), *m3 = vp_buf(3); for(int v = 0; v < 2; v++) { tabs(v); m1[0] = u; if(u == 0) one(m1, 0, v, "empty"); one(m1, 1, v, "message"); for(int i = 0; i < 256; i++) { m2[0] = u; m2[1] = i; one(m2, 2, v, "message"); if(vp_tier) for(int j = 0; j < 256; j++) { m3[0] = u; m3[1] = i; m3[2] = j; one(m3, 3, v, "message"); } } } vp_trace("messages starting with %ld", u); }
static long b_units(void) { return VP_T(40, 100); }
static void b_run(long u) { tabs(0); tabs(1); for(int n = u + 1; n <= u + 9; n++) { size_t k = vp_buf_mark(); unsigned char *m = vp_buf(n); for(int bg = 0; bg < 2; bg++) for(int b = 0; b < 256; b++) { memset(m, bg ? 255 : 0, n); m[u] = b; for(int v = 0; v < 2; v++) one(m, n, v, "single-byte message"); } vp_buf_release(k); } vp_trace("byte %ld", u); }
static long l_units(void) { return VP_T(300, 1200); }
static void l_run(long u) { tabs(1); tabs(0); for(int pat = 0; pat < 4; pat++) for(int al = 0; al < 16; al++) { size_t k = vp_buf_mark(); unsigned char *m = (unsigned char*)vp_buf(u + al) + al; fill(m, u, pat); unsigned char *cp = vp_copy(m, u); for(int v = 0; v < 2; v++) one(m, u, v, "pattern"); VP_CHECK(!memcmp(m, cp, u), "the message was changed"); vp_buf_release(k); } vp_trace("length %ld", u); }
static long c_units(void) { return VP_T(41, 90); }
static void c_run(long u) {
	unsigned char M[100]; fill(M, 100, 3); int n = u; tabs(0); tabs(1);
	for(int v = 0; v < 2; v++) { uint32_t e = rcrc(M, n, v); for(int a = 0; a <= n; a++) for(int b = a; b <= n; b++) for(int al = 0; al < 4; al++) { size_t k = vp_buf_mark(); CRC32_CTX *c = mk(); unsigned char *x = (unsigned char*)vp_buf(a + al) + al, *y = (unsigned char*)vp_buf(b - a + (al ^ 1)) + (al ^ 1), *z = (unsigned char*)vp_buf(n - b + (al ^ 2)) + (al ^ 2); memcpy(x, M, a); memcpy(y, M + a, b - a); memcpy(z, M + b, n - b); init(c, v); up(c, x, a, v); up(c, y, b - a, v); up(c, z, n - b, v); uint32_t g = fin(c, v); VP_CHECK(g == e, "%s: %d bytes cut at %d and %d, alignment %d: %08x, expected %08x", nm(v), n, a, b, al, g, e); vp_states_add(1); vp_buf_release(k); } }
	vp_trace("%d bytes, all cuts", n);
}
/* two contexts of every variant pair, table initialisation anywhere, all interleavings */
static long i_units(void) { return 4 * 4; }
static void i_run(long u) {
	int v[2] = { u & 1, u >> 1 & 1 }, sz = u >> 2, n[2] = { 0, 0 }, extra = VP_T(1, 2); static const int SZ[4][3] = { { 1, 4, 3 }, { 5, 0, 8 }, { 3, 3, 2 }, { 7, 16, 1 } }; CRC32_CTX *c[2] = { mk(), mk() }; uint32_t r[2];
	tabs(0); tabs(1);
	while(n[0] < 5 || n[1] < 5) {
		int a = vp_choose(n[0] < 5 && n[1] < 5 ? 2 + (extra ? 2 : 0) : 1 + (extra ? 2 : 0)), t;
		int act = n[0] < 5 && n[1] < 5 ? 2 : 1; if(a >= act) { tabs(a - act); extra--; vp_trace("%s_InitTables again", nm(a - act)); vp_trans(1); continue; }
		t = act == 2 ? a : n[0] < 5 ? 0 : 1; int i = n[t]++;
		if(i == 0) { init(c[t], v[t]); r[t] = ~0u; } else if(i < 4) { int z = SZ[sz][(i + t) % 3]; size_t k = vp_buf_mark(); unsigned char *m = vp_buf(z); for(int j = 0; j < z; j++) { m[j] = j * 91 + i * 17 + t * 5; r[t] = step(r[t], m[j], v[t]); } up(c[t], m, z, v[t]); vp_buf_release(k); vp_trace("%s context %d: %d bytes", nm(v[t]), t, z); }
		else { uint32_t g = fin(c[t], v[t]); VP_CHECK(g == ~r[t], "%s context %d used alternately with a %s one: %08x, expected %08x", nm(v[t]), t, nm(v[!t]), g, ~r[t]); vp_trace("context %d: final", t); }
		vp_state(vp_mix(u, n[0] * 6 + n[1] + extra * 100));
	}
}
/* update lengths around powers of two and ten */
static long z_units(void) { return sizes_count(7, VP_T(20, 24)); }
static void z_run(long u) {
	size_t n = sizes_get(7, VP_T(20, 24), u); static const int PRE[] = { 0, 1, 3 }; unsigned char *m = vp_buf(n + 20); fill(m, n + 20, 0); tabs(0); tabs(1);
	for(int v = 0; v < 2; v++) for(int p = 0; p < VP_N(PRE); p++) { size_t k = vp_buf_mark(); unsigned char *x = m + PRE[p]; CRC32_CTX *c = mk(); init(c, v); up(c, m, PRE[p], v); up(c, x, n, v); uint32_t s = ~0u; for(size_t i = 0; i < PRE[p] + n; i++) s = step(s, m[i], v); CRC32_CTX sv = *c; uint32_t g = fin(c, v); VP_CHECK(g == ~s, "%s of %d and %zu bytes: %08x, expected %08x", nm(v), PRE[p], n, g, ~s); *c = sv; up(c, x + n, 5, v); for(int i = 0; i < 5; i++) s = step(s, x[n + i], v); g = fin(c, v); VP_CHECK(g == ~s, "%s of %d, %zu and 5 bytes: %08x, expected %08x", nm(v), PRE[p], n, g, ~s); vp_states_add(2); vp_buf_release(k); }
	vp_trace("%zu bytes", n);
}
const vp_scenario vp_scenarios[] = {
	{ "vectors", v_units, v_run, "published check values (also validate the reference)" },
	{ "short", s_units, s_run, "all messages of 0, 1 and 2 (thorough: 3) bytes, both variants" },
	{ "bytes", b_units, b_run, "every byte value at every position 0..39 (99), 0..8 bytes following, on zero and one background" },
	{ "lengths", l_units, l_run, "lengths 0..299 (1199) x 4 patterns x 16 alignments" },
	{ "cuts", c_units, c_run, "lengths 0..40 (89), all cuts into three updates x 4 alignments" },
	{ "contexts", i_units, i_run, "all interleavings of two contexts (every variant pair) with 1 (2) further table initialisations anywhere" },
	{ "wide", z_units, z_run, "updates of lengths around all powers of two and ten from 127 to 2^20 + 2 (2^24 + 2), after 0, 1, 3 bytes and before 5" },
	{ 0 }
};
#else
/* the effect of n zero bytes on the register: the n-th power of a 32 x 32 bit matrix */
static uint32_t app(const uint32_t *m, uint32_t v) { uint32_t r = 0; for(int i = 0; i < 32; i++) if(v >> i & 1) r ^= m[i]; return r; }
static uint32_t zerobytes(uint32_t s, size_t n, int var) { uint32_t m[32], q[32]; for(int i = 0; i < 32; i++) m[i] = step(1u << i, 0, var); for(; n; n >>= 1) { if(n & 1) s = app(m, s); for(int i = 0; i < 32; i++) q[i] = app(m, m[i]); memcpy(m, q, sizeof m); } return s; }
static long o_units(void) { return 4; }
static void o_run(long u) {
	vp_hang_limit(VP_T(240, 600)); size_t n = (1ull << (u & 2 ? 34 : 32)) + 7; u &= 1; CRC32_CTX c; tabs(0); tabs(1);
	vp_trace("one update of %zu bytes", n);
	unsigned char *p = mmap(0, n, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if(p == MAP_FAILED) { perror("mmap"); _exit(78); }
	init(&c, u); up(&c, p, n, u); uint32_t g = fin(&c, u), s = ~0u; vp_beat(); for(size_t i = 0; i < 5000; i++) { VP_CHECK(zerobytes(~0u, i, u) == s, "reference"); s = step(s, 0, u); } s = zerobytes(~0u, n, u);
	VP_CHECK(g == ~s, "%s of one update of %zu bytes: %08x, expected %08x", nm(u), n, g, ~s); munmap(p, n); vp_states_add(1);
}
const vp_scenario vp_scenarios[] = { { "oneshot", o_units, o_run, "one update of more than 2^32 and of more than 2^34 bytes, both variants" }, { 0 } };
#endif
