/* C28: the pool allocator: every reachable state of small pools, hole patterns of large ones; bit array macros. */
#include "engine.h"
#include <sys/mman.h>
#include "strs.h"
#include "c28.h"
#include "bitarray.h"
const char vp_property[] = "C28";
#define X(n) extern const poolcfg pool_##n;
X(0) X(1) X(2) X(3) X(4) X(5) X(6) X(7) X(8) X(9) X(10) X(11) X(12) X(13) X(14) X(15) X(16) X(17) X(18) X(19) X(20) X(21) X(22) X(23)
static const poolcfg *P[] = { &pool_0, &pool_1, &pool_2, &pool_3, &pool_4, &pool_5, &pool_6, &pool_7, &pool_8, &pool_9, &pool_10, &pool_11, &pool_12, &pool_13, &pool_14, &pool_15, &pool_16, &pool_17, &pool_18, &pool_19, &pool_20, &pool_21, &pool_22, &pool_23 };
static const poolcfg *C;
static unsigned char *base; static int basek;  /* lowest block address, learnt from the first full fill */
static int inpool(void *p) { return (char*)p >= (char*)C->pool && (char*)p + C->es <= (char*)C->pool + C->psize; }
static void blockok(void *p, void **live, int nl) { VP_CHECK(inpool(p), "%s: block %p lies outside the pool", C->name, p); for(int i = 0; i < nl; i++) VP_CHECK((size_t)labs((char*)p - (char*)live[i]) >= C->es, "%s: block handed out while it (or an overlapping one) is live", C->name); }
static void fillpat(void **live, int nl) { for(int i = 0; i < nl; i++) memset(live[i], 0x40 + i % 150, C->es); }
static void checkpat(void **live, int nl) { for(int i = 0; i < nl; i++) for(size_t k = 0; k < C->es; k++) VP_CHECK(((unsigned char*)live[i])[k] == 0x40 + i % 150, "%s: contents of a live block changed", C->name); }
/* explicit-state search: a state is the pool's bytes (live blocks blanked) plus the set of live blocks */
#define SM 4
static long s_units(void) { int k = 0; for(int i = 0; i < VP_N(P); i++) if(P[i]->n <= (size_t)16 && P[i]->psize <= 4096) k++; return k; }
typedef struct { uint64_t h; int nl; } skey;
static unsigned char *Q; static size_t rec; static long nq;
static uint64_t *tab; static long tabn; static int cut;
static void push(unsigned char *pool, void **live, int nl, long from, const char *op) {
	unsigned char tmp[4096]; memcpy(tmp, pool, C->psize); for(int i = 0; i < nl; i++) memset(tmp + ((char*)live[i] - (char*)C->pool), 0, C->es);
	/* live set as sorted addresses */
	void *s[64]; memcpy(s, live, nl * sizeof *s); for(int i = 1; i < nl; i++) for(int j = i; j > 0 && s[j] < s[j-1]; j--) { void *t = s[j]; s[j] = s[j-1]; s[j-1] = t; }
	uint64_t h = vp_hash(tmp, C->psize, 7); for(int i = 0; i < nl; i++) h = vp_mix(h, (char*)s[i] - (char*)C->pool); h = vp_mix(h, nl + 1); if(!h) h = 1;
	long i = h % tabn; while(tab[i] && tab[i] != h) i = (i + 1) % tabn; if(tab[i]) return; tab[i] = h; vp_states_add(1);
	if(nq >= tabn / 2) { cut = 1; return; } /* breadth-first up to here; never the case for the pool as it is */
	unsigned char *q = Q + nq++ * rec; memcpy(q, tmp, C->psize); memcpy(q + C->psize, &nl, sizeof nl); memcpy(q + C->psize + 8, s, nl * sizeof *s);
}
static int load(long i, void **live) { int nl; unsigned char *q = Q + i * rec; memcpy(C->pool, q, C->psize); memcpy(&nl, q + C->psize, sizeof nl); memcpy(live, q + C->psize + 8, nl * sizeof *live); return nl; }
static void s_run(long u) {
	vp_hang_limit(VP_T(240, 300)); int k = 0; for(int i = 0; i < VP_N(P); i++) if(P[i]->n <= (size_t)16 && P[i]->psize <= 4096) { if(k++ == u) C = P[i]; }
	if(!tab) tab = malloc(sizeof *tab * (1 << 20)); tabn = C->n > 8 ? 1 << 19 : 1 << 17; cut = 0; memset(tab, 0, sizeof *tab * tabn); rec = C->psize + 8 + C->n * sizeof(void*); free(Q); Q = malloc(rec * (tabn / 2 + 1)); nq = 0;
	void *all[64], *live[65]; int na = 0; C->init(); for(;;) { void *p = C->alloc(C->es); if(!p) break; VP_CHECK(na < (int)C->n, "%s: more than %zu blocks handed out", C->name, C->n); blockok(p, all, na); all[na++] = p; } VP_CHECK(na == (int)C->n, "%s: a fresh pool hands out %d blocks", C->name, na);
	unsigned char *lo = all[0]; for(int i = 1; i < na; i++) if((unsigned char*)all[i] < lo) lo = all[i];
	C->init(); push(C->pool, live, 0, -1, "init"); int other; static unsigned char glob[64];
	size_t sz[] = { 0, 1, C->es - 1, C->es, C->es + 1, 2 * C->es + 7, (size_t)-1, (size_t)1 << 32, ((size_t)1 << 32) + 1 };
	for(long st = 0; st < nq; st++) {
		for(int a = 0; a < VP_N(sz); a++) { int nl = load(st, live); fillpat(live, nl); void *p = C->alloc(sz[a]); vp_trans(1); int must = sz[a] <= C->es && nl < (int)C->n;
			VP_CHECK(!!p == must, "%s: %d live blocks, request of %zu bytes: %s", C->name, nl, sz[a], p ? "succeeded" : "failed"); if(p) blockok(p, live, nl); checkpat(live, nl); if(p) { live[nl++] = p; fillpat(live, nl); checkpat(live, nl); } push(C->pool, live, nl, st, "alloc"); }
		int nl0 = load(st, live);
		for(int f = 0; f < nl0; f++) { int nl = load(st, live); fillpat(live, nl); C->free(live[f]); vp_trans(1); for(int i = 0; i < nl; i++) if(i != f) for(size_t q = 0; q < C->es; q++) VP_CHECK(((unsigned char*)live[i])[q] == 0x40 + i % 150, "%s: freeing a block changed another", C->name); for(size_t q = 0; q < C->es; q++) ; memset(live[f], 0, 0); void *dead = live[f]; live[f] = live[--nl]; { unsigned char keep[64]; (void)keep; } memset(dead, 0, C->es); push(C->pool, live, nl, st, "free"); }
		/* not live: known blocks that are free, neighbours of the pool, interior addresses, null, others */
		for(int x = 0; x < na + 40; x++) { int nl = load(st, live); void *p; int isl = 0;
			if(x < na) p = all[x]; else if(x < na + 20) p = lo - (x - na + 1) * C->es; else if(x < na + 30) p = lo + (C->n + (x - na - 20)) * C->es; else if(x == na + 30) p = 0; else if(x == na + 31) p = &other; else if(x == na + 32) p = glob; else if(x == na + 33) p = (void*)-1; else if(x == na + 34) p = (void*)16; else { p = lo + (x - na - 35) * C->es + 1; if(C->es == 1) continue; }
			for(int i = 0; i < nl; i++) if(live[i] == p) isl = 1; if(isl) continue; 
			fillpat(live, nl); C->free(p); vp_trans(1); checkpat(live, nl); push(C->pool, live, nl, st, "bad free"); }
	}
	vp_trace("pool %s: %ld states%s, all operations from each", C->name, nq, cut ? " (search cut off here)" : "");
}
/* large pools: fill, punch every hole pattern of up to two (three) blocks, refill */
static long h_units(void) { long k = 0; for(int i = 0; i < VP_N(P); i++) k += P[i]->n; return k; }
static void h_run(long u) {
	int c = 0; while(u >= (long)P[c]->n) u -= P[c++]->n; C = P[c]; size_t n = C->n; void **b = malloc(n * sizeof *b), *h[3]; int rv; vp_hang_limit(60);
	for(int pass = 0; pass < 2; pass++) { /* second pass: the pool was emptied first */
		if(!pass) C->init(); else for(size_t i = 0; i < n; i++) C->free(b[(i * 7 + u) % n == i ? i : i]);
		for(size_t i = 0; i < n; i++) { b[i] = C->alloc(i % (C->es + 1)); VP_CHECK(b[i] && inpool(b[i]), "%s: allocation %zu of %zu failed", C->name, i, n); memset(b[i], i * 3 + 1, C->es); } VP_CHECK(!C->alloc(1), "%s: more than %zu blocks", C->name, n); vp_trans(n + 1);
		for(size_t i = 0; i < n; i++) for(size_t k = 0; k < C->es; k++) VP_CHECK(((unsigned char*)b[i])[k] == (unsigned char)(i * 3 + 1), "%s: two blocks overlap", C->name);
	}
	for(size_t j = 0; j < n; j++) { if(n > 300 && j != (size_t)u && (j > (size_t)u ? j - u : u - j) > 2 && j > 2 && j < n - 3 && j % 64 > 1 && !(vp_tier && n <= 1024)) continue;
		int two = j != (size_t)u; C->free(b[u]); if(two) C->free(b[j]); else C->free(b[u]); /* double free */
		for(int k = 0; k < 1 + two; k++) { h[k] = C->alloc(C->es); VP_CHECK(h[k], "%s: blocks %ld and %zu were freed, but allocation %d fails", C->name, u, j, k + 1); VP_CHECK(h[k] == b[u] || (two && h[k] == b[j]), "%s: a live block was handed out", C->name); } if(two) VP_CHECK(h[0] != h[1], "%s: a block was handed out twice", C->name);
		VP_CHECK(!C->alloc(C->es), "%s: more than %zu live blocks", C->name, n); vp_trans(5); vp_states_add(1); }
	free(b); vp_trace("pool %s, block %ld with every other", C->name, u);
}
/* fill up to k, free an interval in either direction, fill up entirely */
static long t_units(void) { long k = 0; for(int i = 0; i < VP_N(P); i++) k += P[i]->n + 1; return k; }
static void t_run(long u) {
	int c = 0; while(u > (long)P[c]->n) u -= P[c++]->n + 1; C = P[c]; size_t n = C->n, k = u; static unsigned char *seen; if(n > 64 && k % 32 > 2 && k % 32 < 30 && k + 4 < n && !(vp_tier && n <= 512)) return; void **b = malloc(n * sizeof *b); vp_hang_limit(120); seen = realloc(seen, n);
	for(size_t i = 0; i < k; i++) for(size_t j = i + 1; j <= k; j++) { if(n > 64 && (j != k || i % 16 > 1) && !(j - i <= 1 && i % 8 == 0) && !(i == 0 && j % 8 < 2)) continue; if(n > 600 && !(j == k && (i + 20 > k || i < 3)) && !(i == 0 && j < 3)) continue;
		for(int dir = 0; dir < 2; dir++) { C->init(); size_t m; for(m = 0; m < k; m++) { b[m] = C->alloc(C->es); VP_CHECK(b[m], "%s: allocation %zu failed", C->name, m); } if(dir) for(m = j; m-- > i;) C->free(b[m]); else for(m = i; m < j; m++) C->free(b[m]);
			for(m = j; m < k; m++) b[m - (j - i)] = b[m]; for(m = k - (j - i); m < n; m++) { b[m] = C->alloc(C->es); VP_CHECK(b[m] && inpool(b[m]), "%s: %zu blocks allocated, %zu..%zu freed: with %zu live blocks allocation fails", C->name, k, i, j, m); } VP_CHECK(!C->alloc(0), "%s: more than %zu live blocks", C->name, n);
			memset(seen, 0, n); unsigned char *lo = b[0]; for(m = 1; m < n; m++) if((unsigned char*)b[m] < lo) lo = b[m]; for(m = 0; m < n; m++) { size_t d = (unsigned char*)b[m] - lo; VP_CHECK(d / C->es < n && !seen[d / C->es], "%s: %zu blocks allocated, %zu..%zu freed: a live block is handed out again", C->name, k, i, j); seen[d / C->es] = 1; } vp_trans(k + n + j - i); vp_states_add(1); } }
	free(b); vp_trace("pool %s filled up to %zu", C->name, k);
}
/* every fill level: freeing what is no live block, near and far, changes nothing; freeing and clearing in one */
static void f_run(long u) {
	int c = 0; while(u > (long)P[c]->n) u -= P[c++]->n + 1; C = P[c]; size_t n = C->n, k = u, es = C->es; static unsigned char *seen; seen = realloc(seen, n); void **b = malloc(n * sizeof *b); vp_hang_limit(120); C->init();
	size_t i; for(i = 0; i < n; i++) { b[i] = C->alloc(es); VP_CHECK(b[i], "%s: allocation %zu failed", C->name, i); } unsigned char *lo = b[0]; for(i = 1; i < n; i++) if((unsigned char*)b[i] < lo) lo = b[i];
	for(i = n; i-- > k;) { if(i & 1) { VP_CHECK(C->fnull(b[i]) == 0, "%s: SSNULL does not clear the pointer", C->name); } else C->free(b[i]); }
	for(i = 0; i < k; i++) memset(b[i], 0x40 + i % 150, es);
	for(i = 0; i < 70; i++) { C->free(lo + (n + i) * es); C->free(lo - (i + 1) * es); if(es > 1) { C->free(lo + i % n * es + 1 + i % (es - 1)); C->free(lo + (n + i) * es + 1); } }
	static const int sh[] = { 7, 8, 9, 15, 16, 17, 31, 32, 33, 40, 48, 55 }; for(int q = 0; q < VP_N(sh); q++) for(i = 0; i < 4; i++) { size_t at = i == 0 ? 0 : i == 1 ? n / 2 : i == 2 ? n - 1 : (k ? k - 1 : 0); size_t el = (size_t)1 << sh[q]; if((el >= n) && el < ((size_t)1 << 62) / es) { C->free(lo + (at + el) * es); C->free(lo + (at - el) * es); } if(((size_t)1 << sh[q]) >= n * es) { C->free(lo + at * es + ((size_t)1 << sh[q])); C->free(lo + at * es - ((size_t)1 << sh[q])); } }
	C->free(0); C->fnull(0); vp_trans(500);
	for(i = 0; i < k; i++) for(size_t q = 0; q < es; q++) VP_CHECK(((unsigned char*)b[i])[q] == 0x40 + i % 150, "%s with %zu live blocks: freeing foreign addresses changed a block", C->name, k);
	for(i = k; i < n; i++) { b[i] = C->alloc(es); VP_CHECK(b[i] && inpool(b[i]), "%s with %zu live blocks: after freeing foreign addresses only %zu more fit", C->name, k, i - k); } VP_CHECK(!C->alloc(0), "%s with %zu live blocks: after freeing foreign addresses more than %zu fit", C->name, k, n);
	memset(seen, 0, n); for(i = 0; i < n; i++) { size_t d = (unsigned char*)b[i] - lo; VP_CHECK(d / es < n && d % es == 0 && !seen[d / es], "%s with %zu live blocks: after freeing foreign addresses a live block is handed out again", C->name, k); seen[d / es] = 1; }
	vp_states_add(1); free(b); vp_trace("pool %s with %zu live blocks", C->name, k);
}
/* bit arrays */
static long b_units(void) { return VP_T(130, 400); }
static void b_run(long u) {
	size_t bits = u + 1, by = BA_SIZE_REQUIRED(bits); VP_CHECK(by == (bits + 7) / 8 && BA_SIZE_REQUIRED(u * 97 + 0) == (size_t)(u * 97 + 7) / 8, "BA_SIZE_REQUIRED(%zu) = %zu", bits, by);
	unsigned char *a = vp_buf(by), o[64];
	for(int pat = 0; pat < 5; pat++) for(size_t i = 0; i < bits; i++) for(int op = 0; op < 5; op++) {
		for(size_t k = 0; k < by; k++) a[k] = pat == 0 ? 0 : pat == 1 ? 255 : pat == 2 ? 0xaa : pat == 3 ? 0x55 : k * 37 + 11; memcpy(o, a, by);
		int was = o[i / 8] >> (i % 8) & 1, g = BA_GET(a, i); VP_CHECK(g == was, "BA_GET of bit %zu of %zu: %d", i, bits, g); int sw = BA_GET_SWAPPED(a, i); VP_CHECK(sw == (o[i / 8] >> (7 - i % 8) & 1), "BA_GET_SWAPPED of bit %zu: %d", i, sw); VP_CHECK(!memcmp(a, o, by), "reading changed the array");
		int v = op == 0 || op == 2 || op == 4; if(op == 0) BA_SET_TRUE(a, i); else if(op == 1) BA_SET_FALSE(a, i); else BA_SET(a, i, op == 2 ? 1 : op == 4 ? 256 : 0);
		o[i / 8] = (o[i / 8] & ~(1 << i % 8)) | v << i % 8; VP_CHECK(!memcmp(a, o, by), "setting bit %zu of %zu to %d: byte %zu is %02x", i, bits, v, i / 8, a[i / 8]); VP_CHECK(BA_GET(a, i) == v, "bit %zu reads back wrong", i); vp_trans(4); vp_states_add(1);
	}
	if(u == 0) for(int w = 0; w < 65536; w++) for(int i = 0; i < 16; i++) { unsigned char *t = vp_buf(2), q[2]; t[0] = q[0] = w; t[1] = q[1] = w >> 8; VP_CHECK(BA_GET(t, i) == (w >> i & 1), "BA_GET"); BA_SET_TRUE(t, i); VP_CHECK((t[0] | t[1] << 8) == (w | 1 << i), "BA_SET_TRUE"); BA_SET_FALSE(t, i); VP_CHECK((t[0] | t[1] << 8) == (w & ~(1 << i)), "BA_SET_FALSE"); vp_trans(3); vp_buf_reset(); }
	if(u == 1) for(int w = 0; w < 256; w++) { int d[8]; for(int i = 0; i < 8; i++) d[i] = w >> i & 1; VP_CHECK(BYTEM(d[7], d[6], d[5], d[4], d[3], d[2], d[1], d[0]) == w && BYTEL(d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7]) == w, "BYTEM/BYTEL %02x", w); VP_CHECK(BYTEM(w & 128 ? 1 : 0, w >> 6 & 1, !!(w & 32), w & 16 ? 1 : 0, (w & 8) == 8, w & 4 ? 1 : 0, w & 2 ? 1 : 0, w & 1 ? 1 : 0) == w && BYTEL(w & 1 ? 1 : 0, w >> 1 & 1, w & 4 ? 1 : 0, (w & 8) == 8, w & 16 ? 1 : 0, w & 32 ? 1 : 0, w >> 6 & 1, w & 128 ? 1 : 0) == w, "BYTEM/BYTEL of expressions, %02x", w); vp_trans(2); }
	vp_trace("%zu bits", bits);
}
/* bits far from the start, in lazily mapped memory */
static long z_units(void) { return 36 - 10; }
static void z_run(long u) {
	int k = u + 10; size_t mid = (size_t)1 << k, bits = mid + 40, by = BA_SIZE_REQUIRED(bits); VP_CHECK(by == (bits + 7) / 8, "BA_SIZE_REQUIRED(%zu) = %zu", bits, by); unsigned char *a = mmap(0, by, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if(a == MAP_FAILED) { perror("mmap"); _exit(78); }
	for(size_t i = mid - 20; i < bits; i++) { VP_CHECK(!BA_GET(a, i), "bit %zu is set in an empty array", i); BA_SET_TRUE(a, i); VP_CHECK(BA_GET(a, i) && a[i / 8] == 1 << i % 8 && !a[i % 4096] == (i / 8 != i % 4096), "bit %zu", i); for(size_t j = i - 20; j < i + 20 && j < bits; j++) VP_CHECK(!!BA_GET(a, j) == (i == j), "setting bit %zu set bit %zu", i, j); BA_SET_FALSE(a, i); VP_CHECK(!a[i / 8], "clearing bit %zu", i); BA_SET(a, i, 1); VP_CHECK(a[i / 8] == 1 << i % 8, "setting bit %zu", i); BA_SET(a, i, 0); VP_CHECK(!a[i / 8], "clearing bit %zu", i); vp_trans(6); vp_states_add(1); } munmap(a, by); vp_trace("bits around 2^%d", k);
}
const vp_scenario vp_scenarios[] = {
	{ "states", s_units, s_run, "explicit-state: every reachable state of pools of 2, 4, 8, 16 elements x all operations: 9 request sizes, freeing every live block, every free one and 40 foreign addresses" },
	{ "holes", h_units, h_run, "pools of 2..2048 elements: fill, free any one or two blocks, refill (large pools: pairs thinned)" },
	{ "intervals", t_units, t_run, "every pool: filled up to k, blocks i..j freed in either order, filled up: all k, i, j for up to 64 elements, thinned above" },
	{ "foreign", t_units, f_run, "every pool at every fill level: freeing 400 addresses that are no live block (around the pool, inside blocks, 2^7..2^55 bytes and blocks away), freeing and clearing in one" },
	{ "bits", b_units, b_run, "bit arrays of 1..130 (400) bits: every bit x 5 patterns x 5 operations; all 16-bit arrays" },
	{ "farbits", z_units, z_run, "bits within 20 of 2^10 .. 2^35 in lazily mapped arrays" },
	{ 0 }
};
