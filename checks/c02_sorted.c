#include "engine.h"
#include "sblist.h"
#include "tglist.h"
#include <limits.h>
const char vp_property[] = "C02";

/* items: key + unique id, in several sizes */
struct it { int key; int id; };                       /* logical item */
typedef struct { signed char key; unsigned char id; } i2;
typedef struct { short key; unsigned char id; char pad[3]; } i6;
typedef struct { int key; int id; } i8;
typedef struct { int key; int id; char pad[16]; } i24;
static int SZ;
static int ksz(void) { return SZ; }
static void enc(struct it x, void *o) {
	memset(o, 0x33, SZ);
	switch(SZ) {
	case 2: ((i2*)o)->key = x.key; ((i2*)o)->id = x.id; break;
	case 6: { i6 t; memset(&t, 0x44, sizeof t); t.key = x.key; t.id = x.id; memcpy(o, &t, 6); break; }
	case 8: { i8 t = { x.key, x.id }; memcpy(o, &t, 8); break; }
	case 24: { i24 t; memset(&t, 0x55, sizeof t); t.key = x.key; t.id = x.id; memcpy(o, &t, 24); break; }
	}
}
static struct it dec(const void *p) {
	struct it r = { 0, 0 };
	switch(SZ) {
	case 2: { i2 t; memcpy(&t, p, 2); r.key = t.key; r.id = t.id; break; }
	case 6: { i6 t; memcpy(&t, p, 6); r.key = t.key; r.id = t.id; break; }
	case 8: { i8 t; memcpy(&t, p, 8); r.key = t.key; r.id = t.id; break; }
	case 24: { i24 t; memcpy(&t, p, 24); r.key = t.key; r.id = t.id; break; }
	}
	return r;
}
#define MX 70000
static struct it m[MX]; static int mn;      /* model: current contents */
static int pos_of_id[MX + 10];              /* id -> is it in the list (1) */
static struct it want; static int mag, monitor; static unsigned long calls; static void *wantctx;
static int res(int c) { if(!c) return 0; static const int up[] = { 1, INT_MAX, 2, 256, 65536 }, dn[] = { -1, INT_MIN, -3, -256, -65536 }; return c > 0 ? up[mag] : dn[mag]; }
static int cmp(const void *a, const void *b) {
	struct it x = dec(a), y = dec(b);
	calls++;
	if(monitor) {
		VP_CHECK(x.key == want.key && x.id == want.id, "the comparison's first argument is (%d,#%d), not the item searched for or inserted (%d,#%d)", x.key, x.id, want.key, want.id);
		VP_CHECK(y.id >= 0 && y.id < MX && (SZ == 2 || SZ == 6 || pos_of_id[y.id]), "the comparison's second argument (%d,#%d) is no current item", y.key, y.id);
	}
	return res(x.key < y.key ? -1 : x.key > y.key);
}
static int cmpr(const void *a, const void *b, void *ctx) { VP_CHECK(ctx == wantctx, "context pointer changed"); return cmp(a, b); }
static int mcmp(const void *a, const void *b) { const struct it *x = a, *y = b; return x->key < y->key ? -1 : x->key > y->key; }

typedef tglist(i2) t2; typedef tglist(i6) t6; typedef tglist(i8) t8; typedef tglist(i24) t24;
static int variant;   /* 0 sblist, 1 sblist _r, 2 tglist */
static sblist *S; static void *T;
#define TGSW(EXPR) switch(SZ) { case 2: { t2 *L = T; i2 I; EXPR; break; } case 6: { t6 *L = T; i6 I; EXPR; break; } case 8: { t8 *L = T; i8 I; EXPR; break; } default: { t24 *L = T; i24 I; EXPR; break; } }
static void l_new(void) { if(variant < 2) S = sblist_new(SZ, 1 + SZ % 5); else T = tglist_new(); VP_CHECK(variant < 2 ? !!S : !!T, "cannot create list"); }
static size_t l_size(void) { size_t r = 0; if(variant < 2) return sblist_getsize(S); TGSW(r = tglist_getsize(L)); return r; }
static struct it l_get(size_t i) { struct it r; if(variant < 2) return dec(sblist_get(S, i)); TGSW(I = tglist_get(L, i); r = dec(&I)); return r; }
static void l_append(struct it x) { unsigned char b[32]; enc(x, b); if(variant < 2) VP_CHECK(sblist_add(S, b) == 1, "append failed"); else TGSW(memcpy(&I, b, SZ); VP_CHECK(tglist_add(L, I), "append failed")); }
static void l_del(size_t i) { if(variant < 2) sblist_delete(S, i); else TGSW(tglist_delete(L, i)); }
static size_t l_ins(struct it x) {
	unsigned char *b = vp_buf(SZ); size_t r; enc(x, b);
	if(variant == 0) return sblist_insert_sorted(S, b, cmp);
	if(variant == 1) return sblist_insert_sorted_r(S, b, cmpr, wantctx);
	TGSW(memcpy(&I, b, SZ); r = tglist_insert_sorted(L, I, cmp)); return r;
}
static size_t l_find(struct it x) { unsigned char *b = vp_buf(SZ); enc(x, b); return variant == 0 ? sblist_bsearch(S, b, cmp) : sblist_bsearch_r(S, b, cmpr, wantctx); }
static void l_sort(void) { if(variant < 2) sblist_sort(S, cmp); else TGSW(tglist_sort(L, cmp)); }
static void l_free(void) { if(variant < 2) sblist_free(S); else TGSW((void)I; tglist_free(L)); }

static void start(int v, int sz, int mg) { variant = v; SZ = sz; mag = mg; monitor = 0; mn = 0; memset(pos_of_id, 0, sizeof pos_of_id[0] * 600); wantctx = &mn; l_new(); vp_trace("%s, item size %d", v == 0 ? "sblist" : v == 1 ? "sblist _r" : "tglist", sz); }
static void push(int key, int id) { struct it x = { key, id }; l_append(x); m[mn++] = x; pos_of_id[id] = 1; }
static void cmp_range(const char *op, int a, int b) { for(int i = a; i < b; i++) { struct it x = l_get(i); VP_CHECK(x.key == m[i].key && x.id == m[i].id, "%s: item %d of %d is (%d,#%d), must be (%d,#%d)", op, i, mn, x.key, x.id, m[i].key, m[i].id); } }
static uint64_t fp(void) { uint64_t h = vp_mix(variant, SZ); for(int i = 0; i < mn; i++) h = vp_mix(h, m[i].key); return h; }
static void ins(int key, int id, int undo) {
	struct it x = { key, id }; want = x; monitor = 1; calls = 0;
	size_t mk = vp_buf_mark();
	size_t r = l_ins(x); monitor = 0; vp_trans(1); vp_buf_release(mk);
	vp_trace("insert_sorted(key %d) into %d items -> index %zd (%lu comparisons)", key, mn, (ssize_t)r, calls);
	VP_CHECK(l_size() == (size_t)mn + 1, "insert_sorted(%d): length %zu after, %d before", key, l_size(), mn);
	VP_CHECK(r <= (size_t)mn, "insert_sorted(%d) into %d items returned %zd", key, mn, (ssize_t)r);
	VP_CHECK((r == 0 || m[r-1].key <= key) && (r == (size_t)mn || m[r].key >= key), "insert_sorted(%d): index %zu of %d breaks the order", key, r, mn);
	memmove(m + r + 1, m + r, (mn - r) * sizeof *m); m[r] = x; mn++; pos_of_id[id] = 1;
	int lo = 0, hi = mn; if(mn > 2000) { lo = (int)r > 40 ? (int)r - 40 : 0; hi = (int)r + 40 < mn ? (int)r + 40 : mn; cmp_range("insert_sorted", 0, 3); cmp_range("insert_sorted", mn - 3, mn); }
	cmp_range("insert_sorted", lo, hi);
	vp_state(fp());
	if(undo) { l_del(r); memmove(m + r, m + r + 1, (mn - r - 1) * sizeof *m); mn--; pos_of_id[id] = 0; VP_CHECK(l_size() == (size_t)mn, "delete"); }
}
static void find(int key) {
	if(variant == 2) return;
	struct it x = { key, SZ <= 6 ? 255 : 599 }; want = x; monitor = 1;
	size_t mk = vp_buf_mark();
	size_t r = l_find(x); monitor = 0; vp_trans(1); vp_buf_release(mk);
	int lo = 0, hi = mn; while(lo < hi) { int c = lo + (hi - lo) / 2; if(m[c].key < key) lo = c + 1; else hi = c; }
	int there = lo < mn && m[lo].key == key;
	vp_trace("bsearch(key %d) in %d items -> %zd", key, mn, (ssize_t)r);
	if(!there) VP_CHECK(r == (size_t)-1L, "bsearch(%d) found index %zd in a list without that key", key, (ssize_t)r);
	else VP_CHECK(r < (size_t)mn && m[r].key == key, "bsearch(%d) among %d items returned %zd; present at %d", key, mn, (ssize_t)r, lo);
	VP_CHECK(l_size() == (size_t)mn, "bsearch changed the list");
}
static const int sizes[] = { 2, 6, 8, 24 };

/* all multisets of size n over 5 keys (odd), every key 0..10 */
static long a_units(void) { return 3 * 4 * VP_T(8, 10) * 5; }
static void a_run(long u) {
	long live = vp_live();
	int v = u % 3; u /= 3; int sz = sizes[u % 4]; u /= 4; int mg = u % 5; u /= 5; int n = u;
	start(v, sz, mg);
	int k = 0; for(int i = 0; i < n; i++) { k += vp_choose(5 - k); push(2 * k + 1, i + 1); }
	for(int key = 0; key <= 10; key++) { find(key); ins(key, 200, 1); }
	cmp_range("after", 0, mn);
	l_free(); VP_LEAKCHECK(live, "after free");
}
/* every insertion sequence */
static long b_units(void) { return 3 * 4; }
static void b_run(long u) {
	long live = vp_live();
	start(u % 3, sizes[u / 3], u % 2);
	int n = VP_T(6, 8);
	for(int i = 0; i < n; i++) { ins(vp_choose(i < 6 ? 4 : 3), i + 1, 0); }
	for(int key = -1; key <= 4; key++) find(key);
	l_free(); VP_LEAKCHECK(live, "after free");
}
/* all permutations of 7 distinct keys */
static long p_units(void) { return 3 * 7; }
static void p_run(long u) {
	long live = vp_live();
	start(u % 3, 8, 0);
	int n = VP_T(7, 8), left[8]; for(int i = 0; i < n; i++) left[i] = i;
	for(int i = 0; i < n; i++) { int c = i ? vp_choose(n - i) : (u / 3) % n; ins(left[c] * 10 - 30, i + 1, 0); memmove(left + c, left + c + 1, (n - c - 1) * sizeof(int)); }
	for(int i = 0; i < n; i++) { find(i * 10 - 30); find(i * 10 - 25); }
	l_free(); VP_LEAKCHECK(live, "after free");
}
/* every length: distinct keys, every gap and key; and blocks of equal keys */
static long c_units(void) { return VP_T(260, 420); }
static void c_run(long u) {
	long live = vp_live(); int n = u + 1;
	for(int v = 0; v < 3; v++) for(int pat = 0; pat < 5; pat++) {
		start(v, 8, pat % 2);
		for(int i = 0; i < n; i++) push(pat == 0 ? 2 * i + 1 : pat == 1 ? 2 * (i / 7) + 1 : pat == 2 ? (i < n / 2 ? 1 : 3) : pat == 3 ? (i == n - 1 ? 3 : 1) : (i == 0 ? -1 : 1), i + 1);
		int top = pat == 0 ? 2 * n : pat == 1 ? 2 * (n / 7) + 2 : 4, lowk = pat == 4 ? -2 : 0;
		for(int key = lowk; key <= top; key++) {
			find(key);
			struct it x = { key, 590 }; want = x; monitor = 1; size_t mk = vp_buf_mark(); size_t r = l_ins(x); monitor = 0; vp_buf_release(mk); vp_trans(1);
			VP_CHECK(r <= (size_t)n && (r == 0 || m[r-1].key <= key) && (r == (size_t)n || m[r].key >= key), "insert_sorted(%d) into %d items: index %zd breaks the order (pattern %d)", key, n, (ssize_t)r, pat);
			struct it g = l_get(r); VP_CHECK(g.id == 590 && g.key == key, "insert_sorted(%d): returned index %zu does not hold the new item", key, r);
			VP_CHECK(l_size() == (size_t)n + 1, "size");
			if(r > 0) { g = l_get(r - 1); VP_CHECK(g.id == m[r-1].id, "insert_sorted(%d): item before the new one changed", key); }
			if(r < (size_t)n) { g = l_get(r + 1); VP_CHECK(g.id == m[r].id, "insert_sorted(%d): item after the new one is wrong", key); }
			g = l_get(n); VP_CHECK(r == (size_t)n || g.id == m[n-1].id, "insert_sorted(%d): last item lost", key);
			l_del(r);
		}
		vp_states_add(top + 1 - lowk);
		cmp_range("after all", 0, mn);
		l_free();
	}
	VP_LEAKCHECK(live, "after free");
}
/* long lists */
static long d_units(void) { return 3 * 4; }
static void d_run(long u) {
	static const int at[] = { 4095, 32768, 65535, 65537 };
	long live = vp_live(); int n = at[u / 3];
	start(u % 3, 8, 0);
	for(int i = 0; i < n; i++) { push(2 * i + 1, i + 1); }
	for(int key = 0; key <= 2 * n; key += 1) find(key);
	for(int i = 0; i < 40; i++) { static const int q[] = { 0, 1, 2, 3 }; int base = i / 4 * (2 * n / 9); ins(base + q[i % 4], n + 1 + 0, 1); }
	ins(2 * n + 5, n + 1, 1);
	l_free(); VP_LEAKCHECK(live, "after free");
	memset(pos_of_id, 0, sizeof pos_of_id);
}
/* sorting */
static long s_units(void) { return 3 * 4 * 8; }
static void s_run(long u) {
	long live = vp_live(); int v = u % 3; u /= 3; int sz = sizes[u % 4]; u /= 4; int n = u;
	start(v, sz, 0);
	for(int i = 0; i < n; i++) push(vp_choose(n > 6 ? 3 : 4) - 1, i + 1);
	if(n) l_sort();
	vp_trans(1);
	VP_CHECK(l_size() == (size_t)n, "sort changed the length");
	int seen[16] = { 0 };
	for(int i = 0; i < n; i++) { struct it x = l_get(i); VP_CHECK(x.id >= 1 && x.id <= n && !seen[x.id] && m[x.id-1].key == x.key, "sort: item %d is (%d,#%d), not one of the items", i, x.key, x.id); seen[x.id] = 1; if(i) VP_CHECK(l_get(i-1).key <= x.key, "sort: order wrong at %d", i); }
	vp_trace("sorted %d items", n); vp_state(fp());
	l_free(); VP_LEAKCHECK(live, "after free");
}
const vp_scenario vp_scenarios[] = {
	{ "multisets", a_units, a_run, "3 variants x 4 item sizes x 5 comparison magnitudes: all sorted multisets of size 0..7 (9) over 5 keys x all 11 keys (present, gaps, ends): search and insertion" },
	{ "sequences", b_units, b_run, "all insertion sequences of length 6 (8) over 3-4 keys" },
	{ "orders", p_units, p_run, "all insertion orders of 7 (8) distinct keys" },
	{ "lengths", c_units, c_run, "every length 1..260 (420) x 5 duplicate patterns x every key and gap" },
	{ "long", d_units, d_run, "lengths at 2^12, 2^15, 2^16: every key and gap searched" },
	{ "sort", s_units, s_run, "all sequences of length <=7 over 3-4 keys sorted" },
	{ 0 }
};
