/* C22: md5 against an independent RFC 1321 implementation (table from sin(), checked on published vectors). */
#include "engine.h"
#include "strs.h"
#include <math.h>
#include <sys/mman.h>
#include "md5.h"
const char vp_property[] = "C22";
typedef struct { uint32_t s[4]; uint64_t n; unsigned char b[64]; } rmd;
static uint32_t RK[64];
static void rblock(rmd *r, const unsigned char *p) {
	static const unsigned char sh[4][4] = { { 7, 12, 17, 22 }, { 5, 9, 14, 20 }, { 4, 11, 16, 23 }, { 6, 10, 15, 21 } };
	if(!RK[0]) for(int i = 0; i < 64; i++) RK[i] = (uint32_t)floor(fabs(sin(i + 1.0)) * 4294967296.0);
	uint32_t w[16], a = r->s[0], b = r->s[1], c = r->s[2], d = r->s[3];
	memcpy(w, p, 64);
	for(int i = 0; i < 64; i++) {
		uint32_t f; int g;
		switch(i >> 4) {
			case 0: f = (b & c) | (~b & d); g = i; break;
			case 1: f = (d & b) | (~d & c); g = (5 * i + 1) & 15; break;
			case 2: f = b ^ c ^ d; g = (3 * i + 5) & 15; break;
			default: f = c ^ (b | ~d); g = (7 * i) & 15;
		}
		uint32_t t = a + f + RK[i] + w[g]; int s = sh[i >> 4][i & 3];
		a = d; d = c; c = b; b = b + (t << s | t >> (32 - s));
	}
	r->s[0] += a; r->s[1] += b; r->s[2] += c; r->s[3] += d;
}
static void rinit(rmd *r) { r->s[0] = 0x67452301; r->s[1] = 0xefcdab89; r->s[2] = 0x98badcfe; r->s[3] = 0x10325476; r->n = 0; }
static void rup(rmd *r, const unsigned char *p, size_t n) {
	size_t k = r->n & 63; r->n += n;
	if(k) { size_t c = 64 - k < n ? 64 - k : n; memcpy(r->b + k, p, c); p += c; n -= c; if(k + c == 64) rblock(r, r->b); else return; }
	for(; n >= 64; n -= 64, p += 64) rblock(r, p);
	memcpy(r->b, p, n);
}
static void rend(const rmd *r0, unsigned char *d) {
	rmd r = *r0; unsigned char pad[128] = { 0x80 }; uint64_t bits = r.n * 8; size_t k = r.n & 63, pl = (k < 56 ? 56 : 120) - k;
	memcpy(pad + pl, &bits, 8); rup(&r, pad, pl + 8); memcpy(d, r.s, 16);
}
static void rone(const unsigned char *p, size_t n, unsigned char *d) { rmd r; rinit(&r); rup(&r, p, n); rend(&r, d); }
static const char *hx(const unsigned char *d) { static char b[4][33]; static int k; char *o = b[k++ & 3]; for(int i = 0; i < 16; i++) sprintf(o + 2 * i, "%02x", d[i]); return o; }
static void fill(unsigned char *m, size_t n, int pat) { for(size_t i = 0; i < n; i++) m[i] = pat == 0 ? i * 7 + (i >> 8) * 13 + 3 : pat == 1 ? 0 : pat == 2 ? 255 : pat == 3 ? 0x80 : i * 151 + (i * i >> 3); }
static void digest(md5_ctx *c, unsigned char *d) { memset(d, 0x55, 16); md5_end(c, d); vp_trans(1); }
#ifndef LONG
#define MAXP 1200
static unsigned char M[MAXP], P[MAXP + 1][16]; static int ready = -1;
static void prefixes(int pat) { if(ready == pat) return; fill(M, MAXP, pat); rmd r; rinit(&r); for(int i = 0; i <= MAXP; i++) { rend(&r, P[i]); if(i < MAXP) rup(&r, M + i, 1); } ready = pat; }
static md5_ctx *mkctx(void) { return vp_buf(sizeof(md5_ctx)); }

static long v_units(void) { return 1; }
static void v_run(long u) {
	static const char *t[][2] = { { "", "d41d8cd98f00b204e9800998ecf8427e" }, { "a", "0cc175b9c0f1b6a831c399e269772661" }, { "abc", "900150983cd24fb0d6963f7d28e17f72" }, { "message digest", "f96b697d7cb7938d525a2f31aaf161d0" }, { "abcdefghijklmnopqrstuvwxyz", "c3fcd3d76192e4007dfb496cca67e13b" }, { "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789", "d174ab98d277d9f5a5611c2c9f419d9f" }, { "12345678901234567890123456789012345678901234567890123456789012345678901234567890", "57edf4a22be3c955ac49da2e2107b67a" } };
	for(int i = 0; i < VP_N(t); i++) {
		size_t n = strlen(t[i][0]); unsigned char d[16]; rone((void*)t[i][0], n, d);
		if(strcmp(hx(d), t[i][1])) { fprintf(stderr, "reference md5 wrong on vector %d\n", i); _exit(78); }
		char *o = vp_buf(33); md5str(o, vp_copy(t[i][0], n), n); VP_CHECK(!strcmp(o, t[i][1]), "md5str(%s) = %s, published %s", t[i][0], vp_show(o, 33), t[i][1]);
		vp_trans(1); vp_states_add(1);
	}
	vp_trace("published vectors");
}
static long l_units(void) { return VP_T(700, MAXP); }
static void l_run(long u) {
	for(int pat = 0; pat < 5; pat++) for(int al = 0; al < 8; al++) {
		size_t k = vp_buf_mark(); unsigned char *m = (unsigned char*)vp_buf(u + al) + al, d[16]; fill(m, u, pat); rone(m, u, d);
		md5_ctx *c = mkctx(); unsigned char *o = vp_buf(16); md5_init(c); md5_update(c, m, u); digest(c, o);
		VP_CHECK(!memcmp(o, d, 16), "length %ld, pattern %d: %s, expected %s", u, pat, hx(o), hx(d));
		char *s = vp_buf(33); md5str(s, m, u); VP_CHECK(s[32] == 0 && !strcmp(s, hx(d)), "md5str, length %ld, pattern %d: %s, expected %s", u, pat, vp_show(s, 33), hx(d));
		md5_end(c, o); VP_CHECK(!memcmp(o, d, 16), "second digest of length %ld differs", u);
		vp_trans(3); vp_states_add(1); vp_buf_release(k);
	}
	vp_trace("length %ld", u);
}
static long w_units(void) { return 5; }
static void w_run(long u) {
	prefixes(u); md5_ctx *c = mkctx(); unsigned char *o = vp_buf(16); md5_init(c);
	for(int i = 0; i <= MAXP; i++) { digest(c, o); VP_CHECK(!memcmp(o, P[i], 16), "fed byte by byte with a digest at every prefix: wrong at %d bytes", i); if(i < MAXP) { size_t k = vp_buf_mark(); md5_update(c, vp_copy(M + i, 1), 1); vp_buf_release(k); } vp_states_add(1); vp_trans(2); }
	vp_trace("%d bytes one by one", MAXP);
}
/* every cut into at most three updates, digest optionally taken in between */
static long c_units(void) { return VP_T(200, 330); }
static void c_run(long u) {
	int n = u; prefixes(0); md5_ctx *c = mkctx(), *z = mkctx(); unsigned char *o = vp_buf(16); size_t k = vp_buf_mark();
	for(int a = 0; a <= n; a++) {
		unsigned char *pa = vp_copy(M, a); md5_init(c); md5_update(c, pa, a); digest(c, o); VP_CHECK(!memcmp(o, P[a], 16), "digest after %d bytes", a);
		size_t k2 = vp_buf_mark();
		for(int b = a; b <= n; b++) {
			if(n > 140 && b > a + 70 && b < n - 70 && b % 64 > 2 && b % 64 < 54) continue;
			unsigned char *pb = vp_copy(M + a, b - a), *pc = vp_copy(M + b, n - b); *z = *c;
			md5_update(z, pb, b - a); md5_update(z, pc, n - b); digest(z, o);
			VP_CHECK(!memcmp(o, P[n], 16), "%d bytes cut at %d and %d: %s, expected %s", n, a, b, hx(o), hx(P[n]));
			VP_CHECK(!memcmp(pb, M + a, b - a) && !memcmp(pc, M + b, n - b), "the message was changed");
			vp_trans(3); vp_states_add(1); vp_buf_release(k2);
		}
		vp_buf_release(k);
	}
	vp_trace("%d bytes, all cuts", n);
}
static const int SZ[] = { 0, 1, 8, 55, 56, 57, 63, 64, 65, 119, 120, 128, 129 };
static long h_units(void) { return VP_N(SZ) * VP_N(SZ); }
static void h_run(long u) {
	prefixes(4); md5_ctx *c = mkctx(); unsigned char *o = vp_buf(16); int n = 0, d = VP_T(4, 5); md5_init(c);
	for(int i = 0; i < d; i++) {
		int z = SZ[i == 0 ? u % VP_N(SZ) : i == 1 ? u / VP_N(SZ) : vp_choose(VP_N(SZ))]; size_t k = vp_buf_mark();
		md5_update(c, vp_copy(M + n, z), z); n += z; vp_trace("update %d bytes", z);
		if(i == d - 1 || vp_choose(2)) { digest(c, o); VP_CHECK(!memcmp(o, P[n], 16), "after update %d (%d bytes in all): %s, expected %s", i, n, hx(o), hx(P[n])); vp_trace("digest"); }
		vp_trans(2); vp_buf_release(k); vp_state(vp_mix(u, n));
	}
}
/* two contexts, all interleavings of 4 updates each */
static long i_units(void) { return VP_N(SZ) * VP_N(SZ); }
static void i_run(long u) {
	md5_ctx *c[2] = { mkctx(), mkctx() }; rmd r[2]; int n[2] = { 0, 0 }; unsigned char d[16], *o = vp_buf(16);
	int s[2] = { u % VP_N(SZ), u / VP_N(SZ) };
	for(int t = 0; t < 2; t++) { md5_init(c[t]); rinit(&r[t]); }
	while(n[0] < 4 || n[1] < 4) {
		int t = n[0] == 4 ? 1 : n[1] == 4 ? 0 : vp_choose(2), z = SZ[(s[t] + n[t] * (t + 1)) % VP_N(SZ)]; size_t k = vp_buf_mark();
		unsigned char *m = vp_buf(z); for(int i = 0; i < z; i++) m[i] = i * (t ? 5 : 11) + n[t] * 50;
		md5_update(c[t], m, z); rup(&r[t], m, z); n[t]++; vp_trace("context %d: %d bytes", t, z); vp_buf_release(k);
		for(int q = 0; q < 2; q++) { rend(&r[q], d); digest(c[q], o); VP_CHECK(!memcmp(o, d, 16), "context %d wrong after an update of context %d", q, t); }
		vp_trans(1); vp_state(vp_mix(u, n[0] * 5 + n[1]));
	}
}
static long b_units(void) { return VP_T(130, 260); }
static void b_run(long u) { /* every byte value at one position of a message of u+1.. bytes */
	size_t len[3] = { u + 1, 64, 130 };
	for(int l = 0; l < 3; l++) { size_t n = len[l]; if(n <= (size_t)u) continue;
		for(int v = 0; v < 256; v++) { size_t k = vp_buf_mark(); unsigned char *m = vp_buf(n), d[16], *o = vp_buf(16); memset(m, 0, n); m[u] = v; rone(m, n, d); md5_ctx *c = mkctx(); md5_init(c); md5_update(c, m, n); digest(c, o); VP_CHECK(!memcmp(o, d, 16), "message of %zu bytes, byte %ld = %d: %s, expected %s", n, u, v, hx(o), hx(d)); vp_trans(1); vp_states_add(1); vp_buf_release(k); } }
	vp_trace("byte %ld", u);
}
/* update lengths around powers of two and ten, after 0..63 buffered bytes, followed by others */
static long z_units(void) { return sizes_count(7, VP_T(18, 24)); }
static void z_run(long u) {
	size_t n = sizes_get(7, VP_T(18, 24), u); static const int PRE[] = { 0, 1, 31, 63, 64, 65 }, POST[] = { 0, 1, 64, 100 }; unsigned char *m = vp_buf(n + 300), d[16], *o = vp_buf(16); fill(m, n + 300, 0);
	for(int p = 0; p < VP_N(PRE); p++) { rmd r, q; rinit(&r); rup(&r, m, PRE[p]); rup(&r, m + PRE[p], n); md5_ctx *c = mkctx(); md5_init(c); md5_update(c, m, PRE[p]); md5_update(c, m + PRE[p], n); digest(c, o); rend(&r, d); VP_CHECK(!memcmp(o, d, 16), "%d and %zu bytes: %s, expected %s", PRE[p], n, hx(o), hx(d)); md5_ctx sv = *c;
		for(int t = 0; t < VP_N(POST); t++) { *c = sv; q = r; md5_update(c, m + PRE[p] + n, POST[t]); rup(&q, m + PRE[p] + n, POST[t]); digest(c, o); rend(&q, d); VP_CHECK(!memcmp(o, d, 16), "%d, %zu and %d bytes: %s, expected %s", PRE[p], n, POST[t], hx(o), hx(d)); vp_trans(2); vp_states_add(1); }
		q = r; *c = sv; rup(&q, m + 7, n); md5_update(c, m + 7, n); rend(&q, d); digest(c, o); VP_CHECK(!memcmp(o, d, 16), "%d bytes and twice %zu", PRE[p], n); vp_trans(2); vp_states_add(1); }
	vp_trace("updates of %zu bytes", n);
}
const vp_scenario vp_scenarios[] = {
	{ "vectors", v_units, v_run, "published vectors (also validate the reference)" },
	{ "lengths", l_units, l_run, "all lengths 0..699 (1199) x 5 patterns x 8 alignments, one update, text form" },
	{ "prefixes", w_units, w_run, "1200 bytes one by one, digest at every prefix" },
	{ "cuts", c_units, c_run, "all lengths 0..199 (329), all cuts into three updates (second cut thinned above 140 bytes to the block edges)" },
	{ "histories", h_units, h_run, "all sequences of 4 (5) updates over 13 sizes, each with and without a digest in between" },
	{ "contexts", i_units, i_run, "all interleavings of two contexts, 4 updates each" },
	{ "bytes", b_units, b_run, "every byte value at every position 0..129 (259)" },
	{ "wide", z_units, z_run, "updates of lengths around all powers of two and ten from 127 to 2^18 + 2 (2^24 + 2), after 0..65 bytes and before 0..100 bytes" },
	{ 0 }
};
#else
#include <pthread.h>
static unsigned char Z[1 << 20];
struct job { rmd r; uint64_t n; size_t chunk; };
static void *ref_thread(void *a) { struct job *j = a; for(uint64_t n = 0; n < j->n;) { size_t k = j->chunk; if(k > j->n - n) k = j->n - n; rup(&j->r, Z, k); n += k; vp_beat(); } return 0; }
static void long_stream(uint64_t mark, size_t chunk) {
	vp_trace("stream across %llu bytes in chunks of %zu", (unsigned long long)mark, chunk);
	md5_ctx c; rmd r; unsigned char o[16], d[16]; md5_init(&c); rinit(&r); fill(Z, sizeof Z, 0); uint64_t n = 0; struct job j = { r, mark - 100, chunk }; pthread_t th; if(pthread_create(&th, 0, ref_thread, &j)) _exit(78);
	while(n < mark - 100) { size_t k = chunk; if(k > mark - 100 - n) k = mark - 100 - n; md5_update(&c, Z, k); n += k; vp_trans(1); }
	pthread_join(th, 0); r = j.r;
	for(int i = 0; i < 200; i++) { digest(&c, o); rend(&r, d); VP_CHECK(!memcmp(o, d, 16), "digest after %llu bytes: %s, expected %s", (unsigned long long)n, hx(o), hx(d)); md5_update(&c, Z + i, 1); rup(&r, Z + i, 1); n++; vp_states_add(1); vp_trans(2); }

}
static long s_units(void) { return 4; }
static void s_run(long u) { vp_hang_limit(VP_T(240, 600)); if(u == 0) long_stream(1ull << 32, 1 << 20); else if(u == 1) long_stream(1ull << 29, (1 << 20) - 1); else if(u == 2) long_stream(1ull << 31, 1 << 20); else long_stream(1ull << 28, 65536 + 17); }
static long o_units(void) { return 3; }
static void o_run(long u) {
	vp_hang_limit(VP_T(240, 600)); size_t n = u == 0 ? (1ull << 32) + 70 : u == 1 ? (1ull << 31) + 3 : (1ull << 29) + 1; md5_ctx c; rmd r; unsigned char o[16], d[16];
	vp_trace("one update of %zu bytes", n);
	unsigned char *p = mmap(0, n, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if(p == MAP_FAILED) { perror("mmap"); _exit(78); }
	memset(Z, 0, sizeof Z); rinit(&r); struct job j = { r, n, sizeof Z }; pthread_t th; if(pthread_create(&th, 0, ref_thread, &j)) _exit(78);
	md5_init(&c); md5_update(&c, p, n); digest(&c, o); pthread_join(th, 0); rend(&j.r, d);
	VP_CHECK(!memcmp(o, d, 16), "one update of %zu bytes: %s, expected %s", n, hx(o), hx(d)); vp_trans(2); vp_states_add(1); munmap(p, n);
}
const vp_scenario vp_scenarios[] = {
	{ "stream", s_units, s_run, "messages across 2^28, 2^29, 2^31 and 2^32 bytes in chunks, digest at each of 200 lengths around the mark" },
	{ "oneshot", o_units, o_run, "single updates of more than 2^29, 2^31 and 2^32 bytes" },
	{ 0 }
};
#endif
