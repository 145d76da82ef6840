#include "engine.h"
#include "strs.h"
#include "bmap.h"
const char vp_property[] = "C05";
/* model: sorted association array of key numbers to value ids */
#define MX 5000
static struct { int k; uint32_t v; } m[MX]; static int mn; static uint32_t idc;
static int m_find(int k) { int lo = 0, hi = mn; while(lo < hi) { int c = (lo + hi) / 2; if(m[c].k < k) lo = c + 1; else hi = c; } return lo < mn && m[lo].k == k ? lo : -1 - lo; }
static int m_set(int k, uint32_t v) { int p = m_find(k); if(p < 0) { p = -1 - p; memmove(m + p + 1, m + p, (mn - p) * sizeof *m); mn++; m[p].k = k; } m[p].v = v; return p; }
static void m_del(int p) { memmove(m + p, m + p + 1, (mn - p - 1) * sizeof *m); mn--; }

typedef struct { char b[21]; } v21; typedef struct { int pad; int k; char z[4]; } k12; typedef struct { unsigned char b[3]; } k3;
static int key_i(int k) { return k * 10 - 15; } static int cmp_i(const void *a, const void *b) { int x = *(int*)a, y = *(int*)b; return x < y ? -1 : x > y; }
static char kstr[MX][8]; static char *key_s(int k) { sprintf(kstr[k], "k%05d", k); return kstr[k]; } static int cmp_s(const void *a, const void *b) { return strcmp(*(char**)a, *(char**)b); }
static k12 key_12(int k) { k12 r; memset(&r, 0x11, sizeof r); r.k = k; r.pad = -k; return r; } static int cmp_12(const void *a, const void *b) { return ((k12*)a)->k - ((k12*)b)->k; }
static k3 key_3(int k) { k3 r = { { k >> 8, k, 7 } }; return r; } static int cmp_3(const void *a, const void *b) { return memcmp(a, b, 3); }
static int val_i(uint32_t v) { return v * 2654435761u; } static v21 val_21(uint32_t v) { v21 r; for(int i = 0; i < 21; i++) r.b[i] = v * 3 + i; return r; }
static unsigned char val_c(uint32_t v) { return v * 7 + 1; } static char *val_p(uint32_t v) { return (char*)(uintptr_t)(v * 16 + 1); }

struct ops { const char *name; int kmax; void *(*mk)(int); void (*fr)(void*, int); size_t (*size)(void*); ssize_t (*find)(void*, int); int (*contains)(void*, int); int (*get)(void*, int, uint32_t*, int);
	int (*keyis)(void*, size_t, int); int (*valis)(void*, size_t, uint32_t); ssize_t (*ins)(void*, int, uint32_t); ssize_t (*insn)(void*, int, uint32_t); int (*setv)(void*, size_t, uint32_t); void (*del)(void*, size_t); void (*delf)(void*, int); void (*delx)(void*, size_t); int (*sizes)(void*); };
#define BM(N, KT, VT, KEY, VAL, CMP) \
	typedef bmap(KT, VT) N##_t; static N##_t N##_stat; \
	static void *N##_mk(int h) { if(h) { memset(&N##_stat, 0x77, sizeof N##_stat); bmap_init(&N##_stat, CMP); return &N##_stat; } void *p = bmap_new(CMP); VP_CHECK(p, "bmap_new"); return p; } \
	static void N##_fr(void *v, int h) { N##_t *b = v; bmap_fini(b, 0); if(!h) free(b); } \
	static size_t N##_size(void *v) { N##_t *b = v; return bmap_getsize(b); } \
	static ssize_t N##_find(void *v, int k) { N##_t *b = v; KT x = KEY(k); return bmap_find(b, x); } \
	static int N##_contains(void *v, int k) { N##_t *b = v; KT x = KEY(k); return bmap_contains(b, x); } \
	static int N##_get(void *v, int k, uint32_t *val, int idx) { N##_t *b = v; KT x = KEY(k); VT *p = bmap_get(b, x); if(!p) return 0; VT w = VAL(*val); if(idx >= 0 && p != &bmap_getval(b, idx)) return 3; return memcmp(p, &w, sizeof w) ? 2 : 1; } \
	static int N##_keyis(void *v, size_t p, int k) { N##_t *b = v; KT x = KEY(k); return !memcmp(&bmap_getkey(b, p), &x, sizeof x); } \
	static int N##_valis(void *v, size_t p, uint32_t id) { N##_t *b = v; VT x = VAL(id); return !memcmp(&bmap_getval(b, p), &x, sizeof x); } \
	static ssize_t N##_ins(void *v, int k, uint32_t id) { N##_t *b = v; KT x = KEY(k); VT w = VAL(id); return bmap_insert(b, x, w); } \
	static ssize_t N##_insn(void *v, int k, uint32_t id) { N##_t *b = v; KT x = KEY(k); VT w = VAL(id); return bmap_insert_nocheck(b, x, w); } \
	static int N##_setv(void *v, size_t p, uint32_t id) { N##_t *b = v; VT w = VAL(id); return bmap_setvalue(b, w, p); } \
	static void N##_del(void *v, size_t p) { N##_t *b = v; bmap_delete(b, p); } \
	static void N##_delf(void *v, int k) { N##_t *b = v; KT x = KEY(k); bmap_delete(b, bmap_find(b, x)); } \
	static void N##_delx(void *v, size_t p) { N##_t *b = v; size_t i = p; bmap_delete(b, i++); VP_CHECK(i == p + 1, "bmap_delete evaluated its index expression %zu times", i - p); } \
	static int N##_sizes(void *v) { N##_t *b = v; return bmap_getkeysize(b) == sizeof(KT) && bmap_getvalsize(b) == sizeof(VT); }
BM(ii, int, int, key_i, val_i, cmp_i) BM(s21, char*, v21, key_s, val_21, cmp_s) BM(c12, k12, unsigned char, key_12, val_c, cmp_12) BM(p3, k3, char*, key_3, val_p, cmp_3)
#define E(N) { #N, MX, N##_mk, N##_fr, N##_size, N##_find, N##_contains, N##_get, N##_keyis, N##_valis, N##_ins, N##_insn, N##_setv, N##_del, N##_delf, N##_delx, N##_sizes }
static const struct ops OPS[] = { E(ii), E(s21), E(c12), E(p3) };
#define NO VP_N(OPS)
static const struct ops *O; static void *B; static int how;
static void cmp_all(const char *op, int k0, int k1, int full) {
	VP_CHECK(O->size(B) == (size_t)mn, "%s: %zu entries, must be %d", op, O->size(B), mn);
	if(full) for(int i = 0; i < mn; i++) { VP_CHECK(O->keyis(B, i, m[i].k), "%s: key at index %d of %d is wrong", op, i, mn); VP_CHECK(O->valis(B, i, m[i].v), "%s: value at index %d of %d (key %d) is wrong", op, i, mn, m[i].k); }
	for(int k = k0; k <= k1; k++) {
		int p = m_find(k), e = p < 0 ? -1 : p; ssize_t r = O->find(B, k);
		VP_CHECK(r == e, "%s: find(key %d) = %zd, must be %d", op, k, r, e);
		VP_CHECK(!!O->contains(B, k) == (p >= 0), "%s: contains(key %d)", op, k);
		uint32_t v = p >= 0 ? m[p].v : 0; int g = O->get(B, k, &v, e);
		VP_CHECK(g == (p >= 0), "%s: get(key %d) gives %s", op, k, g == 0 ? "null for a present key" : g == 1 ? "a value for an absent key" : "the wrong value");
	}
	if(full) { uint64_t h = (O - OPS) + 1; for(int i = 0; i < mn; i++) h = vp_mix(vp_mix(h, m[i].k), m[i].v); vp_state(h); }
}
static void start(int k, int h) { O = &OPS[k]; how = h; mn = 0; idc = 0; B = O->mk(h); vp_trace("map type %s (%s)", O->name, h ? "init" : "new"); VP_CHECK(O->sizes(B), "key/value size"); }
static void end(long live) { O->fr(B, how); VP_LEAKCHECK(live, "after bmap_fini"); }
static void op_ins(int k, int nocheck) { uint32_t v = ++idc; vp_trans(1); ssize_t r = nocheck ? O->insn(B, k, v) : O->ins(B, k, v); int p = m_set(k, v); vp_trace("insert%s key %d -> %zd", nocheck ? "_nocheck" : "", k, r); VP_CHECK(r == p, "insert%s of key %d returned index %zd, must be %d", nocheck ? "_nocheck" : "", k, r, p); }
static void op_set(int p) { uint32_t v = ++idc; vp_trans(1); int r = O->setv(B, p, v); m[p].v = v; vp_trace("setvalue at %d", p); VP_CHECK(r == 1, "setvalue returned %d", r); }
static void op_del(int p, int style) { vp_trans(1); vp_trace("delete index %d of %d (style %d)", p, mn, style); if(style == 0) O->del(B, p); else if(style == 1) O->delf(B, m[p].k); else O->delx(B, p); m_del(p); }
/* all op sequences over K keys */
static void step(int K) {
	int absent = 0, ab[16]; for(int k = 1; k <= K; k++) if(m_find(k) < 0) ab[absent++] = k;
	int c = vp_choose(K + absent + mn + 3 * mn);
	if(c < K) op_ins(c + 1, 0); else if((c -= K) < absent) op_ins(ab[c], 1); else if((c -= absent) < mn) op_set(c); else { c -= mn; op_del(c / 3, c % 3); }
	cmp_all("step", 0, K + 1, 1);
}
static long a_units(void) { return NO * 2 * 2; }
static void a_run(long u) { long live = vp_live(); int k = u % NO; u /= NO; start(k, u % 2); int K = u / 2 ? 5 : 3; for(int i = 0, d = K == 3 ? VP_T(5, 6) : VP_T(4, 5); i < d; i++) step(K); end(live); }
/* from every subset of 6 keys in the map: all pairs */
static long b_units(void) { return NO * 64; }
static void b_run(long u) { long live = vp_live(); start(u % NO, 0); int s = u / NO; for(int k = 6; k >= 1; k--) if(s >> (k - 1) & 1) op_ins(k, k & 1); cmp_all("filled", 0, 7, 1); step(6); step(6); if(vp_tier) step(6); end(live); }
/* all orders of insertion, all orders of deletion */
static long c_units(void) { return NO * 6; }
static void c_run(long u) {
	long live = vp_live(); start(u % NO, 1); int n = VP_T(5, 6), left[8]; for(int i = 0; i < n; i++) left[i] = i + 1;
	for(int i = 0; i < n; i++) { int c = i ? vp_choose(n - i) : (int)(u / NO) % n; op_ins(left[c], i & 1); memmove(left + c, left + c + 1, sizeof(int) * (n - c - 1)); cmp_all("order", 0, n + 1, 1); }
	while(mn) { op_del(vp_choose(mn), mn % 3); cmp_all("order", 0, n + 1, 1); }
	op_ins(3, 0); cmp_all("after", 0, n + 1, 1);
	end(live);
}
/* every length, every gap */
static long d_units(void) { return VP_T(100, 300); }
static void d_run(long u) {
	long live = vp_live(); start(u % NO, 0); int n = u;
	for(int i = 0; i < n; i++) op_ins(2 * ((i * 7) % n) + 1, 0);
	if(mn < n) for(int i = 0; i < n; i++) op_ins(2 * i + 1, 0);
	cmp_all("filled", 0, 2 * n + 1, 1);
	for(int k = 0; k <= 2 * n; k += 2) { op_ins(k, k & 2); cmp_all("gap", k, k + 1, 1); op_del(m_find(k), 0); cmp_all("gap removed", k, k + 1, 1); }
	for(int i = 0; i < n; i++) { op_set(i); int k = m[i].k; op_del(i, 2); cmp_all("removed", k, k, 1); op_ins(k, 0); cmp_all("back", k, k, 1); op_ins(k, 0); cmp_all("overwritten", k, k, 1); }
	end(live);
}
static long e_units(void) { return NO; }
static void e_run(long u) {
	long live = vp_live(); start(u, 0); int n = 4200;
	for(int i = 0; i < n; i++) { int k = (i * 1237) % 4211; op_ins(k, 0); if(i % 512 == 511) cmp_all("long", 0, 4212, 1); }
	for(int i = 0; i < 500; i++) op_del((i * 37) % mn, 1);
	cmp_all("long", 0, 4212, 1);
	end(live);
}
/* more entries than 16 bit positions can number; checked against key arithmetic, not the small model */
static long g_units(void) { return VP_T(4, 8); }
static void g_run(long u) {
	typedef bmap(int, unsigned) g_t; long live = vp_live(); g_t *b = bmap_new(cmp_i); int n = VP_T(66200, 140000); int mode = u % 4; n += (u / 4) * 5;
	for(int i = 0; i < n; i++) { int k = (mode == 0 ? i : mode == 1 ? (i & 63 ? i : i) : mode == 2 ? i ^ 1 : (i & ~31) + (31 - (i & 31))) * 2; unsigned v = k * 3u + 1; ssize_t r = bmap_insert(b, k, v); VP_CHECK(r >= 0, "insert of entry %d returned %zd", i, r); if(mode == 0) VP_CHECK(r == i, "insert of entry %d returned %zd", i, r); }
	vp_trans(n); VP_CHECK(bmap_getsize(b) == (unsigned)n, "%zu entries, must be %d", (size_t)bmap_getsize(b), n);
	for(int i = 1; i < n; i++) VP_CHECK(bmap_getkey(b, i - 1) < bmap_getkey(b, i), "keys at %d and %d are not ascending", i - 1, i);
	for(int i = 0; i < n; i++) { int k = bmap_getkey(b, i), a = k + 1; VP_CHECK(bmap_getval(b, i) == k * 3u + 1, "value at index %d of %d", i, n); VP_CHECK(bmap_find(b, k) == i, "find(key at index %d of %d) = %zd", i, n, bmap_find(b, k)); VP_CHECK(bmap_find(b, a) == -1, "an absent key is found"); VP_CHECK(bmap_get(b, k) == &bmap_getval(b, i), "get(key at index %d)", i); }
	if(mode == 1) for(int i = 0; i < n; i += 61) { int k = bmap_getkey(b, i); unsigned v = i; ssize_t r = bmap_insert(b, k, v); VP_CHECK(r == i && bmap_getsize(b) == (unsigned)n && bmap_getval(b, i) == v, "overwriting the entry at %d returned %zd, %zu entries", i, r, (size_t)bmap_getsize(b)); }
	static const int AT[] = { 65535, 65536, 65534, 0, 32768, 65537 };
	for(unsigned j = 0; j < VP_N(AT); j++) { int p = AT[j], k = bmap_getkey(b, p), nk = bmap_getkey(b, p + 1); bmap_delete(b, p); n--; VP_CHECK(bmap_find(b, k) == -1 && bmap_find(b, nk) == p && bmap_getsize(b) == (unsigned)n && (mode == 1 || bmap_getval(b, p) == nk * 3u + 1), "deleting index %d", p); if(j & 1) { unsigned v = k * 3u + 1; VP_CHECK(bmap_insert(b, k, v) == p, "re-inserting at %d", p); n++; } }
	bmap_fini(b, 0); free(b); vp_trace("%d entries", n); vp_states_add(n); VP_LEAKCHECK(live, "after bmap_fini");
}
/* releasing stored keys and values */
typedef bmap(char*, char*) pp_t;
static long f_units(void) { return counts_count(); }
static void f_run(long u) {
	long live = vp_live(); pp_t *b = bmap_new(cmp_s); int n = counts_get(u), flags = vp_choose(4), del = vp_choose(2), over = vp_choose(2); long nv = 0;
	char **keys = vp_buf((n + 1) * sizeof *keys), **vals = vp_buf((n + 1) * sizeof *vals); int nk = 0;
	for(int i = 0; i < n; i++) { char *k = malloc(8), *v = i % 5 == 3 ? 0 : malloc(8); sprintf(k, n > 9 ? "k%06d" : "k%d", n > 9 ? i ^ 1 : (i * 3) % 7 + i); if(v) strcpy(v, "val"); ssize_t r = bmap_insert_nocheck(b, k, v); VP_CHECK(r >= 0, "insert"); keys[nk] = k; vals[nk++] = v; }
	if(over && n) { char *nvv = malloc(4); ssize_t i = bmap_find(b, keys[0]); VP_CHECK(i >= 0, "find"); free(vals[0]); vals[0] = nvv; bmap_setvalue(b, nvv, i); }
	if(del && n) { ssize_t i = bmap_find(b, keys[n-1]); VP_CHECK(i >= 0, "find"); bmap_delete(b, i); free(keys[n-1]);
#ifdef BMAP_USE_TGILIST
		if(!(flags & 2)) free(vals[n-1]); /* the index-backed list keeps deleted values until they are freed */
#else
		free(vals[n-1]);
#endif
		nk--; }
	int form = vp_choose(3), fk = flags & 1, fv = flags & 2; if(form == 1) bmap_fini(b, fv | fk); else if(form == 2) bmap_fini(b, flags == 3 ? 3 : flags == 2 ? 2 : fk); else if(flags == 0) bmap_fini(b, 0); else if(flags == 1) bmap_fini(b, 1); else if(flags == 2) bmap_fini(b, 2); else bmap_fini(b, 3);
	for(int i = 0; i < nk; i++) { if(!(flags & 1)) free(keys[i]); if(!(flags & 2)) free(vals[i]); }
	free(b); vp_trans(1); (void)nv;
	vp_trace("%d heap keys and values, flags %d", n, flags); vp_state(vp_mix(n, flags * 4 + del * 2 + over));
	VP_LEAKCHECK(live, "after bmap_fini with flags %d", flags);
}
/* every argument given as an expression: a conditional, a lookup, one with a side effect */
typedef bmap(int, unsigned) x_t;
static long x_units(void) { return 2 * 32; }
static void x_run(long u) {
	long live = vp_live(); int s = u / 2, n, calls, sz = 0; x_t *a = bmap_new(cmp_i), *b = a, st; bmap_init(&st, cmp_i); if(u % 2) b = &st; mn = 0;
	for(int k = 5; k >= 1; k--) if(s >> (k - 1) & 1) { unsigned v = k * 7; calls = 0; ssize_t r = vp_choose(2) ? bmap_insert(b ? b : a, k, (calls++, v)) : bmap_insert_nocheck(b ? b : a, k, calls++ ? 0 : v); VP_CHECK(calls == 1, "inserting evaluated the value %d times", calls); VP_CHECK(r == m_set(k, v), "insert of key %d", k); }
	int k = 1 + vp_choose(5), op = vp_choose(5), p = m_find(k); vp_trace("keys %x, operation %d on key %d", s, op, k); n = 0; (void)sz;
	if(p < 0) { VP_CHECK(!bmap_contains(b, k) && !bmap_get(b, k), "absent key %d found", k); VP_CHECK(bmap_insert(b, k, k & 1 ? 5u : 6u) == m_set(k, k & 1 ? 5 : 6), "insert"); }
	else if(op == 0) { bmap_delete(b, bmap_find(b, k)); m_del(p); }
	else if(op == 1) { bmap_delete(b, n++ ? -1 : p); VP_CHECK(n == 1, "bmap_delete evaluated its index %d times", n); m_del(p); }
	else if(op == 2) { calls = 0; VP_CHECK(bmap_setvalue(b, (calls++, 99u), bmap_find(b, k)) == 1 && calls == 1, "setvalue with a lookup"); m[p].v = 99; }
	else if(op == 3) { calls = 0; VP_CHECK(bmap_insert(b, k, calls++ ? 1u : 77u) == p && calls == 1, "overwriting evaluated the value %d times", calls); m[p].v = 77; }
	else { VP_CHECK(bmap_getkey(b, n++ ? 0 : p) == k && n == 1 && bmap_getval(b, bmap_find(b, k)) == m[p].v, "getkey/getval with a lookup"); bmap_getval(b, bmap_getsize(b) - (mn - p)) = 55; m[p].v = 55; VP_CHECK(*bmap_get(b, k) == 55, "get"); }
	VP_CHECK(bmap_getsize(u % 2 ? &st : a) == (size_t)mn, "afterwards %zu entries", (size_t)bmap_getsize(b)); for(int i = 0; i < mn; i++) VP_CHECK(bmap_getkey(b, i) == m[i].k && bmap_getval(b, i) == m[i].v && bmap_find(b, m[i].k) == i, "afterwards entry %d", i);
	vp_trans(6); vp_state(vp_mix(u, k * 5 + op)); bmap_fini(a, 0); free(a); bmap_fini(&st, u & 1 ? 0 : 0); VP_LEAKCHECK(live, "after bmap_fini");
}
const vp_scenario vp_scenarios[] = {
	{ "sequences", a_units, a_run, "4 key/value type pairs, 3 or 5 keys: all operation sequences of length 5/4 (thorough 6/5), from empty" },
	{ "expressions", x_units, x_run, "every subset of 5 keys x every operation with its map, value, index and flags given as conditionals, lookups and expressions with side effects" },
	{ "subsets", b_units, b_run, "from every subset of 6 keys: all pairs (thorough triples) of operations" },
	{ "orders", c_units, c_run, "all insertion orders x all deletion orders of 5 (6) keys" },
	{ "lengths", d_units, d_run, "every size to 99 (299): every gap inserted and deleted, every entry overwritten, deleted and re-inserted" },
	{ "long", e_units, e_run, "4200 entries" },
	{ "wide", g_units, g_run, "66200 (140000) entries in 4 insertion orders: every key and every gap looked up, entries around the 16 bit limits deleted, overwritten and re-inserted" },
	{ "release", f_units, f_run, "0..300 stored heap keys/values and counts around the powers of two and ten to 2^17, all release flags" },
	{ 0 }
};
