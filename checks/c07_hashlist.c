#include "engine.h"
#include "hashlist.h"
const char vp_property[] = "C07";
#define MX 5000
static struct { uint32_t hash; uint32_t id; } m[MX]; static int mn;   /* additions in order, minus removals */
static uint32_t idc; static unsigned IS; static hashlist *h; static unsigned nb; static unsigned char *tmp, *tmp2; static unsigned char used[300000];
static void *bytes(uint32_t id, unsigned char *o) { for(unsigned j = 0; j < IS; j++) o[j] = IS == 1 ? id * 37 + 1 : j < 4 ? (id >> 8 * j) ^ j : id * 3 + j; return o; }
static void start(unsigned b, unsigned is) { nb = b; IS = is; mn = 0; idc = 0; memset(used, 0, b); tmp = vp_buf(is); tmp2 = vp_buf(is); h = hashlist_new(b, is); VP_CHECK(h, "hashlist_new"); vp_trace("hashlist with %u buckets, %u byte values", b, is); }
static void check_hash(const char *op, uint32_t hash) {
	sblist *l = hashlist_get(h, hash); unsigned b = hash % nb;
	if(!used[b]) { VP_CHECK(!l, "%s: a list exists for hash %x though nothing was added to its bucket", op, hash); return; }
	VP_CHECK(l, "%s: no list for hash %x", op, hash);
	size_t k = 0; for(int i = 0; i < mn; i++) if(m[i].hash % nb == b) { unsigned char *p = sblist_get(l, k); VP_CHECK(p && !memcmp(p, bytes(m[i].id, tmp2), IS), "%s: value %zu for hash %x is wrong", op, k, hash); k++; }
	VP_CHECK(sblist_getsize(l) == k, "%s: %zu values for hash %x, must be %zu", op, (size_t)sblist_getsize(l), hash, k);
}
static void iterate(const char *op) {
	static unsigned char seen[MX]; memset(seen, 0, mn); int n = 0;
	hashlist_iterator *it = vp_buf(sizeof *it); hashlist_iterator_init(it); void *p;
	while((p = hashlist_next(h, it))) {
		int f = -1; for(int i = 0; i < mn; i++) if(!seen[i] && !memcmp(p, bytes(m[i].id, tmp2), IS)) { f = i; break; }
		VP_CHECK(f >= 0, "%s: the iterator yields a value that is not stored, or yields one twice (%d-th of %d)", op, n + 1, mn); seen[f] = 1; n++;
	}
	VP_CHECK(n == mn, "%s: the iterator yields %d of %d values", op, n, mn);
	for(int i = 0; i < 3; i++) VP_CHECK(hashlist_next(h, it) == NULL, "%s: the iterator continues after its end", op);
	hashlist_bucket_iterator *bi = vp_buf(sizeof *bi); hashlist_bucket_iterator_init(bi); unsigned want = 0, got = 0; for(unsigned b = 0; b < nb; b++) want += used[b];
	sblist *l; static sblist *sl[300000];
	while((l = hashlist_bucket_next(h, bi))) { VP_CHECK(got < want, "%s: the bucket iterator yields too many", op); for(unsigned i = got > 600 ? got : 0; i < got; i++) VP_CHECK(sl[i] != l, "%s: bucket list yielded twice", op); sl[got++] = l; }
	VP_CHECK(got == want, "%s: the bucket iterator yields %u of %u used buckets", op, got, want);
	for(unsigned b = 0; b < nb && nb < 300; b++) if(used[b]) { sblist *x = hashlist_get(h, b); unsigned i; for(i = 0; i < got; i++) if(sl[i] == x) break; VP_CHECK(i < got, "%s: bucket %u not yielded", op, b); }
	uint64_t f = vp_mix(nb, IS); for(int i = 0; i < mn; i++) f = vp_mix(vp_mix(f, m[i].hash), m[i].id); for(unsigned b = 0; b < nb && b < 64; b++) f = vp_mix(f, used[b]); vp_state(f);
}
static void op_add(uint32_t hash) { uint32_t id = ++idc; int r = hashlist_add(h, hash, bytes(id, tmp)); vp_trans(1); vp_trace("add value #%u with hash %x", id, hash); VP_CHECK(r == 0, "add returned %d", r); m[mn].hash = hash; m[mn++].id = id; used[hash % nb] = 1; }
/* remove the j-th value of a bucket list */
static void op_rm(unsigned b, unsigned j) { sblist *l = hashlist_get(h, b); vp_trans(1); vp_trace("remove entry %u of bucket %u", j, b); sblist_delete(l, j); unsigned k = 0; for(int i = 0; i < mn; i++) if(m[i].hash % nb == b) { if(k++ == j) { memmove(m + i, m + i + 1, (mn - i - 1) * sizeof *m); mn--; return; } } }
static unsigned bcount(unsigned b) { unsigned n = 0; for(int i = 0; i < mn; i++) n += m[i].hash % nb == b; return n; }
static void end(long live) { hashlist_free(h); VP_LEAKCHECK(live, "after hashlist_free"); hashlist_free(0); }
static int hashes(uint32_t *o) { int n = 0; for(unsigned b = 0; b < nb && b < 4; b++) o[n++] = b; o[n++] = nb; o[n++] = 0xffffffffu; o[n++] = nb * 3 + nb - 1; return n; }
static void step(void) {
	uint32_t hs[8]; int nh = hashes(hs); int rm = 0; for(unsigned b = 0; b < nb; b++) rm += bcount(b);
	int c = vp_choose(nh + rm);
	if(c < nh) op_add(hs[c]); else { c -= nh; for(unsigned b = 0; b < nb; b++) { int k = bcount(b); if(c < k) { op_rm(b, c); break; } c -= k; } }
	for(int i = 0; i < nh; i++) check_hash("step", hs[i]);
	iterate("step");
}
static long a_units(void) { return 6 * 2; }
static void a_run(long u) { static const unsigned nbs[] = { 1, 2, 3, 4, 5, 16 }; long live = vp_live(); start(nbs[u % 6], u / 6 ? 3 : 4); for(int i = 0, d = VP_T(5, 6); i < d; i++) step(); end(live); }
/* all patterns of bucket fill (never used / emptied / 1 / 2 / 9 values) over up to 5 buckets */
static long b_units(void) { return 5; }
static void b_run(long u) { long live = vp_live(); start(u + 1, 8); for(unsigned b = 0; b < nb; b++) { int c = vp_choose(5); int n = c == 0 ? 0 : c == 1 ? 2 : c == 2 ? 1 : c == 3 ? 2 : 9; for(int i = 0; i < n; i++) op_add(b + nb * i); if(c == 1) { op_rm(b, 0); op_rm(b, 0); } }
	for(unsigned b = 0; b < nb; b++) check_hash("pattern", b); iterate("pattern"); op_add(0); iterate("pattern"); end(live); }
static long c_units(void) { return 8 * 5; }
static void c_run(long u) { static const unsigned nbs[] = { 1, 2, 7, 16, 255, 256, 257, 65537 }, iss[] = { 1, 2, 8, 24, 5000 }; long live = vp_live(); start(nbs[u % 8], iss[u / 8]); int N = IS == 5000 ? 60 : IS == 1 ? 200 : 900;
	for(int i = 0; i < N; i++) { op_add(i % 3 == 0 ? i * 2654435761u : i % 3 == 1 ? (uint32_t)i : 0xffffffffu - i); if(i % 100 == 0) iterate("many"); } iterate("many"); for(int i = 0; i < N; i += 7) check_hash("many", m[i].hash); check_hash("many", nb - 1);
	if(mn && u / 8 < 4) { for(int i = 0; i < 40; i++) { unsigned b = m[0].hash % nb; op_rm(b, 0); } iterate("thinned"); }
	end(live); }
/* bucket indices at every power of two, at the end and one on each side */
static long w_units(void) { return 3 * 20; }
static void w_run(long u) { long live = vp_live(); unsigned k = u / 3; start((1u << (k > 17 ? 17 : k)) + (k == 18 ? 65536 : k == 19 ? 131072 : 0) + u % 3 - (k ? 1 : 0) + (k == 0), 4); unsigned ix[120]; int n = 0;
	for(unsigned b = 1; b <= nb; b *= 2) for(int d = -1; d < 2; d++) ix[n++] = (b + d) % nb; ix[n++] = nb - 1; ix[n++] = nb / 2; ix[n++] = nb / 3;
	for(int i = 0; i < n; i++) { op_add(ix[i]); check_hash("wide", ix[i]); uint64_t x = (uint64_t)ix[i] + (uint64_t)nb * (0xffffffffu / nb - 1); if(x <= 0xffffffffu) { op_add(x); check_hash("wide", x); } }
	op_add(0xffffffffu); for(int i = 0; i < n; i++) { check_hash("wide", ix[i]); for(unsigned d = 0; d < 17; d++) check_hash("wide", (ix[i] + (1u << d)) % nb); } iterate("wide"); end(live); }
const vp_scenario vp_scenarios[] = {
	{ "sequences", a_units, a_run, "bucket counts 1,2,3,4,5,16: all sequences of 5 (6) additions/removals over colliding and distinct hashes, iterated after each" },
	{ "patterns", b_units, b_run, "all fill patterns {unused, emptied, 1, 2, 9 values} of 1..5 buckets" },
	{ "many", c_units, c_run, "up to 65537 buckets, value sizes 1..5000, hundreds of values" },
	{ "wide", w_units, w_run, "bucket counts 2^k-1..2^k+1 (k to 17), 196608 and 262144: values in the buckets around every power of two and the last, by the smallest and the largest hash of each" },
	{ 0 }
};
