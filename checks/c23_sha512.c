/* C23: sha512 against an independent FIPS 180-4 implementation (constants derived from primes, checked on published vectors). */
#include "engine.h"
#include "strs.h"
#include <math.h>
#include <sys/mman.h>
#include "sha512.h"
const char vp_property[] = "C23";
typedef struct { uint64_t s[8]; uint64_t n; unsigned char b[128]; } rsha;
static uint64_t RK[80], RI[8];
/* first 64 bits of the fractional part of the k-th root of p: floor(p^(1/k) * 2^64) mod 2^64 by bisection on integers */
typedef unsigned __int128 u128;
static int le_root(int p, int k, uint64_t ip, uint64_t fr) { /* (ip + fr/2^64)^k <= p ? exact with 32-bit limbs */
	uint32_t x[4] = { (uint32_t)fr, (uint32_t)(fr >> 32), (uint32_t)ip, 0 }, r[16] = { 1 }, t[16];
	for(int e = 0; e < k; e++) { memset(t, 0, sizeof t); for(int i = 0; i < 12; i++) { uint64_t c = 0; for(int j = 0; j < 4 && i + j < 16; j++) { c += (uint64_t)r[i] * x[j] + t[i + j]; t[i + j] = c; c >>= 32; } for(int j = i + 4; c && j < 16; j++) { c += t[j]; t[j] = c; c >>= 32; } } memcpy(r, t, sizeof r); }
	/* compare r with p << (64*k) */
	for(int i = 15; i >= 0; i--) { uint32_t q = i == 2 * k ? (uint32_t)p : 0; if(r[i] != q) return r[i] < q; }
	return 1;
}
static uint64_t frac_root(int p, int k) { uint64_t ip = 0, f = 0; while(le_root(p, k, ip + 1, 0)) ip++; for(int b = 63; b >= 0; b--) if(le_root(p, k, ip, f | 1ull << b)) f |= 1ull << b; return f; }
static void consts(void) { if(RK[0]) return; int n = 0; for(int p = 2; n < 80; p++) { int q; for(q = 2; q * q <= p; q++) if(p % q == 0) break; if(q * q <= p) continue; if(n < 8) RI[n] = frac_root(p, 2); RK[n++] = frac_root(p, 3); } }
#define RR(x, n) ((x) >> (n) | (x) << (64 - (n)))
static void rblock(rsha *r, const unsigned char *p) {
	uint64_t w[80], h[8];
	for(int i = 0; i < 16; i++) { uint64_t v; memcpy(&v, p + 8 * i, 8); w[i] = __builtin_bswap64(v); }
	for(int i = 16; i < 80; i++) w[i] = (RR(w[i-2], 19) ^ RR(w[i-2], 61) ^ w[i-2] >> 6) + w[i-7] + (RR(w[i-15], 1) ^ RR(w[i-15], 8) ^ w[i-15] >> 7) + w[i-16];
	memcpy(h, r->s, 64);
	for(int i = 0; i < 80; i++) {
		uint64_t t1 = h[7] + (RR(h[4], 14) ^ RR(h[4], 18) ^ RR(h[4], 41)) + (h[6] ^ (h[4] & (h[5] ^ h[6]))) + RK[i] + w[i];
		uint64_t t2 = (RR(h[0], 28) ^ RR(h[0], 34) ^ RR(h[0], 39)) + ((h[0] & h[1]) | (h[2] & (h[0] | h[1])));
		h[7] = h[6]; h[6] = h[5]; h[5] = h[4]; h[4] = h[3] + t1; h[3] = h[2]; h[2] = h[1]; h[1] = h[0]; h[0] = t1 + t2;
	}
	for(int i = 0; i < 8; i++) r->s[i] += h[i];
}
static void rinit(rsha *r) { consts(); memcpy(r->s, RI, 64); r->n = 0; }
static void rup(rsha *r, const unsigned char *p, size_t n) {
	size_t k = r->n & 127; r->n += n;
	if(k) { size_t c = 128 - k < n ? 128 - k : n; memcpy(r->b + k, p, c); p += c; n -= c; if(k + c == 128) rblock(r, r->b); else return; }
	for(; n >= 128; n -= 128, p += 128) rblock(r, p);
	memcpy(r->b, p, n);
}
static void rend(const rsha *r0, unsigned char *d) {
	rsha r = *r0; unsigned char pad[256] = { 0x80 }; uint64_t hi = __builtin_bswap64(r.n >> 61), lo = __builtin_bswap64(r.n << 3); size_t k = r.n & 127, pl = (k < 112 ? 112 : 240) - k;
	memcpy(pad + pl, &hi, 8); memcpy(pad + pl + 8, &lo, 8); rup(&r, pad, pl + 16); for(int i = 0; i < 8; i++) { uint64_t v = __builtin_bswap64(r.s[i]); memcpy(d + 8 * i, &v, 8); }
}
static void rone(const unsigned char *p, size_t n, unsigned char *d) { rsha r; rinit(&r); rup(&r, p, n); rend(&r, d); }
static const char *hx(const unsigned char *d) { static char b[4][129]; static int k; char *o = b[k++ & 3]; for(int i = 0; i < 64; i++) sprintf(o + 2 * i, "%02x", d[i]); return o; }
static void fill(unsigned char *m, size_t n, int pat) { for(size_t i = 0; i < n; i++) m[i] = pat == 0 ? i * 7 + (i >> 8) * 13 + 3 : pat == 1 ? 0 : pat == 2 ? 255 : pat == 3 ? 0x80 : i * 151 + (i * i >> 3); }
#ifndef LONG
#define MAXP 1500
static unsigned char M[MAXP], P[MAXP + 1][64]; static int ready = -1;
static void prefixes(int pat) { if(ready == pat) return; fill(M, MAXP, pat); rsha r; rinit(&r); for(int i = 0; i <= MAXP; i++) { rend(&r, P[i]); if(i < MAXP) rup(&r, M + i, 1); } ready = pat; }
static sha512_ctx *mkctx(void) { return vp_buf(sizeof(sha512_ctx)); }
static long v_units(void) { return 1; }
static void v_run(long u) {
	static const char *t[][2] = { { "", "cf83e1357eefb8bdf1542850d66d8007d620e4050b5715dc83f4a921d36ce9ce47d0d13c5d85f2b0ff8318d2877eec2f63b931bd47417a81a538327af927da3e" }, { "abc", "ddaf35a193617abacc417349ae20413112e6fa4e89a97ea20a9eeee64b55d39a2192992a274fc1a836ba3c23a3feebbd454d4423643ce80e2a9ac94fa54ca49f" }, { "abcdefghbcdefghicdefghijdefghijkefghijklfghijklmghijklmnhijklmnoijklmnopjklmnopqklmnopqrlmnopqrsmnopqrstnopqrstu", "8e959b75dae313da8cf4f72814fc143f8f7779c6eb9f7fa17299aeadb6889018501d289e4900f7e4331b99dec4b5433ac7d329eeb6dd26545e96e55b874be909" } };
	for(int i = 0; i < VP_N(t); i++) { size_t n = strlen(t[i][0]); unsigned char d[64]; rone((void*)t[i][0], n, d); if(strcmp(hx(d), t[i][1])) { fprintf(stderr, "reference sha512 wrong on vector %d: %s\n", i, hx(d)); _exit(78); }
		sha512_ctx *c = mkctx(); sha512_init(c); sha512_update(c, vp_copy(t[i][0], n), n); unsigned char *o = sha512_end(c); VP_CHECK(!memcmp(o, d, 64), "published vector %d: %s", i, hx(o)); vp_trans(3); vp_states_add(1); }
	vp_trace("published vectors");
}
static long l_units(void) { return VP_T(800, MAXP); }
static void l_run(long u) {
	for(int pat = 0; pat < 5; pat++) for(int al = 0; al < 8; al++) { size_t k = vp_buf_mark(); unsigned char *m = (unsigned char*)vp_buf(u + al) + al, d[64]; fill(m, u, pat); rone(m, u, d); unsigned char *cp = vp_copy(m, u);
		sha512_ctx *c = mkctx(); sha512_init(c); sha512_update(c, m, u); unsigned char *o = sha512_end(c); VP_CHECK(!memcmp(o, d, 64), "length %ld, pattern %d: %s, expected %s", u, pat, hx(o), hx(d)); VP_CHECK(!memcmp(cp, m, u), "the message was changed"); vp_trans(3); vp_states_add(1); vp_buf_release(k); }
	vp_trace("length %ld", u);
}
/* all permitted cuts: every composition of the whole blocks, tail in an own update or with the last, zero-length updates anywhere (at most one per position) */
static long c_units(void) { return VP_T(800, 1100); }
static void c_run(long u) {
	prefixes(0); sha512_ctx *c = mkctx(); sha512_init(c); int n = u, at = 0;
	while(at < n) {
		if(vp_choose(2)) { sha512_update(c, vp_buf(0), 0); vp_trace("update 0"); vp_trans(1); }
		int blocks = (n - at) / 128, tail = (n - at) % 128, k = blocks ? vp_choose(blocks + (tail ? 1 : 0)) : 0;
		int z = (k + 1) * 128; if(z > n - at) z = n - at; if(blocks && tail && k == blocks) z = n - at;
		size_t mk = vp_buf_mark(); sha512_update(c, vp_copy(M + at, z), z); vp_buf_release(mk); at += z; vp_trace("update %d", z); vp_trans(1); vp_state(vp_mix(n, at));
	}
	if(vp_choose(2)) { sha512_update(c, vp_buf(0), 0); vp_trace("update 0"); }
	unsigned char *o = sha512_end(c); vp_trans(1); VP_CHECK(!memcmp(o, P[n], 64), "%d bytes: %s, expected %s", n, hx(o), hx(P[n]));
}
static const int SZ[] = { 0, 128, 256, 384 }, TL[] = { 0, 1, 63, 64, 111, 112, 113, 120, 127, 128, 239, 240 };
static long i_units(void) { return VP_N(TL) * VP_N(TL); }
static void i_run(long u) {
	sha512_ctx *c[2] = { mkctx(), mkctx() }; rsha r[2]; int n[2] = { 0, 0 }; unsigned char d[64]; int tl[2] = { TL[u % VP_N(TL)], TL[u / VP_N(TL)] };
	for(int t = 0; t < 2; t++) rinit(&r[t]);
	while(n[0] < 5 || n[1] < 5) { /* 0 init, 1..2 blocks, 3 tail, 4 end */
		int t = n[0] == 5 ? 1 : n[1] == 5 ? 0 : vp_choose(2), i = n[t]++; size_t k = vp_buf_mark();
		if(i == 0) sha512_init(c[t]);
		else if(i < 4) { int z = i < 3 ? SZ[(u + i + t) % 4] : tl[t]; unsigned char *m = vp_buf(z); for(int j = 0; j < z; j++) m[j] = j * (t ? 5 : 11) + i * 50; sha512_update(c[t], m, z); rup(&r[t], m, z); vp_trace("context %d: %d bytes", t, z); }
		else { unsigned char *o = sha512_end(c[t]); rend(&r[t], d); VP_CHECK(!memcmp(o, d, 64), "context %d, tail %d, used alternately with another: %s, expected %s", t, tl[t], hx(o), hx(d)); vp_trace("context %d: end", t); }
		vp_buf_release(k); vp_trans(1); vp_state(vp_mix(u, n[0] * 6 + n[1]));
	}
	/* both digests still stand */
	for(int t = 0; t < 2; t++) { rend(&r[t], d); (void)d; }
}
/* a context is reused after init; whatever it held before */
static long r_units(void) { return VP_T(260, 400); }
static void r_run(long u) {
	prefixes(4); sha512_ctx *c = mkctx(); static const int nx[] = { 0, 1, 111, 112, 127, 128, 130, 240, 255, 256 };
	for(int i = 0; i < VP_N(nx); i++) { memset(c, i & 1 ? 0xff : 0x01, sizeof *c); sha512_init(c); sha512_update(c, vp_copy(M, u), u); sha512_end(c); sha512_init(c); sha512_update(c, vp_copy(M, nx[i]), nx[i]); unsigned char *o = sha512_end(c); VP_CHECK(!memcmp(o, P[nx[i]], 64), "context reused after %ld bytes for %d bytes: %s", u, nx[i], hx(o)); vp_trans(6); vp_states_add(1); }
	vp_trace("reuse after %ld bytes", u);
}
static long b_units(void) { return VP_T(260, 520); }
static void b_run(long u) {
	size_t len[3] = { u + 1, 128, 260 };
	for(int l = 0; l < 3; l++) { size_t n = len[l]; if(n <= (size_t)u) continue;
		for(int v = 0; v < 256; v++) { size_t k = vp_buf_mark(); unsigned char *m = vp_buf(n), d[64]; memset(m, 0, n); m[u] = v; rone(m, n, d); sha512_ctx *c = mkctx(); sha512_init(c); sha512_update(c, m, n); unsigned char *o = sha512_end(c); VP_CHECK(!memcmp(o, d, 64), "message of %zu bytes, byte %ld = %d: %s, expected %s", n, u, v, hx(o), hx(d)); vp_trans(1); vp_states_add(1); vp_buf_release(k); } }
	vp_trace("byte %ld", u);
}
/* lengths around powers of two and ten, in one update, as whole blocks and a tail, after other blocks, with empty updates */
static long z_units(void) { return sizes_count(7, VP_T(18, 24)); }
static void z_run(long u) {
	size_t n = sizes_get(7, VP_T(18, 24), u), w = n / 128 * 128; static const int PRE[] = { 0, 128, 384 }; unsigned char *m = vp_buf(n + 600), d[64], *o; fill(m, n + 600, 0);
	for(int p = 0; p < VP_N(PRE); p++) for(int how = 0; how < 6; how++) { rsha r; rinit(&r); rup(&r, m, PRE[p]); rup(&r, m + PRE[p], n); rend(&r, d); sha512_ctx *c = mkctx(); memset(c, 0xa5, sizeof *c); sha512_init(c); if(PRE[p]) sha512_update(c, m, PRE[p]); if(how & 1) sha512_update(c, m, 0); unsigned char *x = m + PRE[p];
		if(how / 2 == 0) sha512_update(c, x, n); else if(how / 2 == 1) { sha512_update(c, x, w); sha512_update(c, x + w, n - w); } else { size_t h = w / 256 * 128; sha512_update(c, x, h); if(how & 1) sha512_update(c, x, 0); sha512_update(c, x + h, n - h); }
		if(how & 1) sha512_update(c, m, 0); o = sha512_end(c); VP_CHECK(!memcmp(o, d, 64), "%d and %zu bytes, way %d: %s, expected %s", PRE[p], n, how, hx(o), hx(d)); vp_trans(4); vp_states_add(1); }
	vp_trace("%zu bytes", n);
}
const vp_scenario vp_scenarios[] = {
	{ "vectors", v_units, v_run, "published vectors (also validate the reference)" },
	{ "lengths", l_units, l_run, "all lengths 0..799 (1499) x 5 patterns x 8 alignments, one update" },
	{ "cuts", c_units, c_run, "all lengths 0..799 (1099), all cuts into whole blocks and a tail, zero-length updates at every place" },
	{ "contexts", i_units, i_run, "all interleavings of two contexts (init, 3 updates, end each) x 144 tail pairs" },
	{ "reuse", r_units, r_run, "a context reused after every length 0..259 (399)" },
	{ "bytes", b_units, b_run, "every byte value at every position 0..259 (519)" },
	{ "wide", z_units, z_run, "lengths around all powers of two and ten from 127 to 2^18 + 2 (2^24 + 2): one update, blocks and tail, halves, after 0..3 blocks, with empty updates between" },
	{ 0 }
};
#else
#include <pthread.h>
static unsigned char Z[1 << 20];
struct job { rsha r; uint64_t n; size_t chunk; };
static void *ref_thread(void *a) { struct job *j = a; for(uint64_t n = 0; n < j->n;) { size_t k = j->chunk; if(k > j->n - n) k = j->n - n; rup(&j->r, Z, k); n += k; vp_beat(); } return 0; }
static void long_stream(uint64_t mark, size_t chunk) {
	vp_trace("stream across %llu bytes in chunks of %zu", (unsigned long long)mark, chunk);
	sha512_ctx c, t; rsha r, q; unsigned char d[64]; sha512_init(&c); rinit(&r); fill(Z, sizeof Z, 0); uint64_t n = 0; struct job j = { r, mark - 256, chunk }; pthread_t th; if(pthread_create(&th, 0, ref_thread, &j)) _exit(78);
	while(n < mark - 256) { size_t k = chunk; if(k > mark - 256 - n) k = mark - 256 - n; sha512_update(&c, Z, k); n += k; vp_trans(1); }
	pthread_join(th, 0); r = j.r;
	for(int i = 0; i < 512; i++) { t = c; q = r; sha512_update(&t, Z, i); rup(&q, Z, i); unsigned char *o = sha512_end(&t); rend(&q, d); VP_CHECK(!memcmp(o, d, 64), "message of %llu bytes: %s, expected %s", (unsigned long long)(n + i), hx(o), hx(d)); vp_states_add(1); vp_trans(2); }

}
static long s_units(void) { return VP_T(3, 4); }
static void s_run(long u) { vp_hang_limit(VP_T(240, 800)); if(u == 0) long_stream(1ull << 32, 1 << 20); else if(u == 1) long_stream(1ull << 29, 1 << 20); else if(u == 2) long_stream(1ull << 28, 128 * 513); else long_stream(1ull << 31, 1 << 20); }
static long o_units(void) { return VP_T(2, 3); }
static void o_run(long u) {
	vp_hang_limit(VP_T(240, 800)); size_t n = u == 0 ? (1ull << 32) + 240 : u == 1 ? (1ull << 29) + 113 : (1ull << 31) + 3; sha512_ctx c; rsha r; unsigned char d[64];
	vp_trace("one update of %zu bytes", n);
	unsigned char *p = mmap(0, n, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if(p == MAP_FAILED) { perror("mmap"); _exit(78); }
	memset(Z, 0, sizeof Z); rinit(&r); struct job j = { r, n, sizeof Z }; pthread_t th; if(pthread_create(&th, 0, ref_thread, &j)) _exit(78);
	sha512_init(&c); sha512_update(&c, p, n); unsigned char *o = sha512_end(&c); pthread_join(th, 0); rend(&j.r, d);
	VP_CHECK(!memcmp(o, d, 64), "one update of %zu bytes: %s, expected %s", n, hx(o), hx(d)); vp_trans(2); vp_states_add(1); munmap(p, n);
}
const vp_scenario vp_scenarios[] = {
	{ "stream", s_units, s_run, "messages across 2^28, 2^29 and 2^32 (thorough: 2^31) bytes in chunks, every length from 256 below to 255 above the mark" },
	{ "oneshot", o_units, o_run, "single updates of more than 2^29 and 2^32 (thorough: 2^31) bytes" },
	{ 0 }
};
#endif
