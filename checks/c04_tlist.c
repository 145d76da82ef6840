#include "engine.h"
#include "strs.h"
#include "tlist.h"
const char vp_property[] = "C04";
#define MX 140000
static uint32_t m[MX]; static size_t mn; static uint32_t idc; static unsigned IS; static tlist *L; static unsigned char *tmp, *tmp2;
static void m_ins(uint32_t id, size_t p) { memmove(m + p + 1, m + p, (mn - p) * sizeof *m); m[p] = id; mn++; }
static void m_del(size_t p) { memmove(m + p, m + p + 1, (mn - p - 1) * sizeof *m); mn--; }
static void *bytes(uint32_t id, unsigned char *o) { for(unsigned j = 0; j < IS; j++) o[j] = IS == 1 ? id * 37 + 1 : j < 4 ? (id >> 8 * j) ^ j : id * 3 + j; return o; }
static void oor(const char *op) {
	static const size_t far[] = { 0, 1, 2, 1000 }; 
	for(int i = 0; i < 4; i++) VP_CHECK(tlist_get(L, mn + far[i]) == NULL, "%s: get at %zu of %zu is not null", op, mn + far[i], mn);
	VP_CHECK(tlist_get(L, (size_t)-1) == NULL && tlist_get(L, 0xffffffffu) == NULL, "%s: get at the maximum index is not null", op);
	VP_CHECK(tlist_get(L, (size_t)1 << 32) == NULL && tlist_get(L, ((size_t)1 << 32) + mn / 2) == NULL && tlist_get(L, ((size_t)7 << 32) + (mn ? mn - 1 : 0)) == NULL, "%s: get at an index of 2^32 or more is not null", op);
}
static void cmp_range(const char *op, size_t a, size_t b) {
	VP_CHECK(tlist_getsize(L) == mn, "%s: length %zu, must be %zu", op, tlist_getsize(L), mn);
	for(size_t i = a; i < b; i++) { unsigned char *p = tlist_get(L, i); VP_CHECK(p, "%s: get(%zu) of %zu is null", op, i, mn); VP_CHECK(!memcmp(p, bytes(m[i], tmp2), IS), "%s: item %zu of %zu is wrong", op, i, mn); }
	oor(op);
}
static uint64_t fp(void) { uint64_t h = IS; for(size_t i = 0; i < mn; i++) h = vp_mix(h, m[i]); return h; }
static void cmp_all(const char *op) { cmp_range(op, 0, mn); vp_state(fp()); }
static void start(unsigned is) { IS = is; mn = 0; idc = 0; tmp = vp_buf(is); tmp2 = vp_buf(is); L = tlist_new(is); VP_CHECK(L, "tlist_new"); vp_trace("tlist of item size %u", is); cmp_all("new"); }
static void end(long live) { VP_CHECK(tlist_free(L) == NULL, "tlist_free does not return null"); VP_LEAKCHECK(live, "after tlist_free"); }
enum { O_APP, O_INSOOR, O_INSOOR2, O_INSOOR3, O_DELOOR, O_DELOOR2, O_DELOOR3, O_FREEITEMS, O_FIX };
static int nops(void) { return O_FIX + mn + 1 + mn + mn; }
static void do_op(int o, int full) {
	char d[64]; uint32_t id = ++idc; size_t p, at = 0; int r; vp_trans(1); bytes(id, tmp);
	if(o < O_FIX) switch(o) {
	case O_APP: strcpy(d, "append"); r = tlist_append(L, tmp); VP_CHECK(r == 1, "append returned %d", r); m_ins(id, mn); at = mn - 1; break;
	case O_INSOOR: strcpy(d, "insert past the end"); VP_CHECK(tlist_insert(L, mn + 1, tmp) == 0, "%s not refused", d); break;
	case O_INSOOR2: strcpy(d, "insert at -1"); VP_CHECK(tlist_insert(L, (size_t)-1, tmp) == 0, "%s not refused", d); break;
	case O_INSOOR3: strcpy(d, "insert at 2^32"); VP_CHECK(tlist_insert(L, (size_t)1 << 32, tmp) == 0, "%s not refused", d); break;
	case O_DELOOR: strcpy(d, "delete past the end"); VP_CHECK(tlist_delete(L, mn) == 0, "%s not refused", d); break;
	case O_DELOOR2: strcpy(d, "delete at -1"); VP_CHECK(tlist_delete(L, (size_t)-1) == 0, "%s not refused", d); break;
	case O_DELOOR3: strcpy(d, "delete at 2^32"); VP_CHECK(tlist_delete(L, (size_t)1 << 32) == 0, "%s not refused", d); break;
	case O_FREEITEMS: strcpy(d, "free_items"); tlist_free_items(L); mn = 0; break;
	} else if((p = o - O_FIX) <= mn) { snprintf(d, 64, "insert at %zu of %zu", p, mn); r = tlist_insert(L, p, tmp); VP_CHECK(r == 1, "%s returned %d", d, r); m_ins(id, p); at = p; }
	else if((p -= mn + 1) < mn) { snprintf(d, 64, "delete at %zu of %zu", p, mn); r = tlist_delete(L, p); VP_CHECK(r == 1, "%s returned %d", d, r); m_del(p); at = p; }
	else { p -= mn; snprintf(d, 64, "overwrite in place at %zu of %zu", p, mn); unsigned char *q = tlist_get(L, p); VP_CHECK(q, "get"); memcpy(q, tmp, IS); m[p] = id; at = p; }
	vp_trace("%s -> %zu items", d, mn);
	if(full) cmp_all(d); else cmp_range(d, at > 10 ? at - 10 : 0, at + 10 < mn ? at + 10 : mn);
}
static const unsigned isz[] = { 1, 4, 8, 13, 24, 100 };
static long a_units(void) { return 6 * 9 * 4; }
static void a_run(long u) {
	static const int burn[] = { 0, 1, 7, 50 };
	long live = vp_live(); start(isz[u % 6]); u /= 6; int n = u % 9, b = burn[u / 9];
	for(int i = 0; i < b; i++) { tlist_append(L, tmp); tlist_delete(L, 0); }
	for(int i = 0; i < n; i++) do_op(O_APP, 0);
	do_op(vp_choose(nops()), 1); do_op(vp_choose(nops()), 1);
	end(live);
}
static long b_units(void) { return 4; }
static void b_run(long u) { long live = vp_live(); start(u == 1 ? 8 : 4); for(int i = 0; i < u; i++) do_op(O_APP, 0); for(int i = 0; i < VP_T(4, 5) - (u > 1); i++) do_op(vp_choose(nops()), 1); end(live); }
/* all insertion orders x all deletion orders */
static long c_units(void) { return 30; }
static void c_run(long u) {
	long live = vp_live(); start(4); int n = VP_T(6, 7); unsigned burn = u / 6; 
	for(unsigned i = 0; i < burn * 3; i++) { tlist_append(L, tmp); tlist_delete(L, 0); }
	for(int i = 0; i < n; i++) do_op(O_FIX + (i == 1 ? (u % 6) / 3 : i == 2 ? u % 3 : vp_choose(i + 1)), i == n - 1);
	while(mn) do_op(O_FIX + mn + 1 + vp_choose(mn), 1);
	end(live);
}
static long d_units(void) { return VP_T(120, 400); }
static void d_run(long u) {
	int pat = vp_choose(4); long live = vp_live(); start(4);
	for(long i = 0; i < u; i++) do_op(O_FIX + (pat == 0 ? mn : pat == 1 ? 0 : pat == 2 ? mn / 2 : (i & 1 ? mn : 0)), 0);
	cmp_all("filled");
	for(size_t p = 0; p <= (size_t)u; p++) { do_op(O_FIX + p, 1); do_op(O_FIX + mn + 1 + p, 1); if(p < mn) { do_op(O_FIX + mn + 1 + p, 1); do_op(O_FIX + p, 1); } }
	end(live);
}
static long e_units(void) { return 4; }
static void e_run(long u) {
	long live = vp_live(); start(u == 0 ? 1 : 4); int n = VP_T(70000, 132000); vp_hang_limit(120);
	if(u == 3) n = 20000;
	for(int i = 0; i < n; i++) { size_t p = u == 0 ? mn : u == 1 ? (mn > 7 ? mn - 7 : 0) : u == 2 ? mn - mn % 64 : (mn * 7) / 13; uint32_t id = ++idc; int r = tlist_insert(L, p, bytes(id, tmp)); VP_CHECK(r == 1, "insert %d failed", i); m_ins(id, p);
		if(!(i & (i - 1)) || !(i & (i + 1))) cmp_all("power of two"); }
	vp_trans(n); cmp_all("full");
	for(int i = 0; i < 300; i++) do_op(O_FIX + mn + 1 + (i % 3 == 0 ? 0 : i % 3 == 1 ? mn - 1 : mn / 2), 0);
	cmp_all("shrunk"); end(live);
}
/* many stored pointers */
static long h_units(void) { return counts_count(); }
static void h_run(long u) {
	size_t n = counts_get(u); long live = vp_live(); int fin = vp_choose(n > 5000 ? 2 : 3); int nulls = n > 5000 ? 0 : vp_choose(2);
	tlist *l = tlist_new(sizeof(char*)); VP_CHECK(l, "tlist_new"); long nn = 0;
	for(size_t i = 0; i < n; i++) { char *x = nulls && i % 3 == 1 ? 0 : malloc(1 + i % 7); nn += x != 0; VP_CHECK(tlist_insert(l, i % 5 == 4 ? i - 3 : i, &x) == 1, "insert"); }
	VP_CHECK(tlist_getsize(l) == n, "size"); vp_trans(n + 1); long b = vp_live();
	if(fin == 0) VP_CHECK(tlist_free_deep(l) == NULL, "free_deep does not return null");
	else if(fin == 1) { tlist_free_items_deep(l); VP_CHECK(b - vp_live() == nn + (long)n, "free_items_deep of %zu items with %ld pointers released %ld blocks", n, nn, b - vp_live()); VP_CHECK(tlist_getsize(l) == 0, "items left"); tlist_free(l); }
	else { size_t left = n; while(left) { size_t p = left % 3 == 0 ? 0 : left % 3 == 1 ? left - 1 : left / 2; char *x = *(char**)tlist_get(l, p); b = vp_live(); VP_CHECK(tlist_delete_deep(l, p) == 1, "delete_deep"); VP_CHECK(b - vp_live() == 1 + (x != 0), "delete_deep(%zu of %zu) released %ld blocks", p, left, b - vp_live()); left--; } VP_CHECK(tlist_getsize(l) == 0, "size"); tlist_free(l); }
	vp_trace("%zu stored pointers, finish mode %d", n, fin); vp_state(vp_mix(n, fin * 2 + nulls)); VP_LEAKCHECK(live, "after freeing %zu items", n);
}
static long f_units(void) { return 12; }
static void f_run(long u) {
	long live = vp_live(); int n = u, fin = vp_choose(4); size_t left = n;
	tlist *l = tlist_new(sizeof(char*)); VP_CHECK(l, "tlist_new");
	char *q[16];
	for(int i = 0; i < n; i++) { char *x = i % 5 == 4 ? 0 : malloc(3 + i); q[i] = x; if(x) memset(x, 'a' + i, 3 + i); VP_CHECK(tlist_append(l, &x) == 1, "append"); }
	for(int k = 0; k < (n < 2 ? n : 2); k++) {
		int p = vp_choose(left); char *x = *(char**)tlist_get(l, p); VP_CHECK(x == q[p], "stored pointer %d differs", p); long b = vp_live();
		int r = tlist_delete_deep(l, p); VP_CHECK(r == 1, "delete_deep returned %d", r);
		VP_CHECK(b - vp_live() == 1 + (x != 0), "delete_deep(%d) released %ld blocks, must be %d", p, b - vp_live(), 1 + (x != 0));
		memmove(q + p, q + p + 1, (left - p - 1) * sizeof *q); left--; vp_trans(1);
		VP_CHECK(tlist_getsize(l) == left, "size after delete_deep"); for(size_t i = 0; i < left; i++) VP_CHECK(*(char**)tlist_get(l, i) == q[i], "item %zu after delete_deep", i);
	}
	VP_CHECK(tlist_delete_deep(l, left) == 0 && tlist_delete_deep(l, -1) == 0, "delete_deep out of range");
	vp_trace("%d stored pointers, finish mode %d", n, fin); vp_state(vp_mix(vp_mix(n, fin), left));
	if(fin == 0) VP_CHECK(tlist_free_deep(l) == NULL, "free_deep does not return null");
	else if(fin == 1) { tlist_free_items_deep(l); VP_CHECK(tlist_getsize(l) == 0, "free_items_deep left items"); char *x = malloc(4); tlist_append(l, &x); VP_CHECK(tlist_getsize(l) == 1 && *(char**)tlist_get(l, 0) == x, "reuse"); tlist_free_deep(l); }
	else if(fin == 2) { for(size_t i = 0; i < left; i++) free(*(char**)tlist_get(l, i)); tlist_free(l); }
	else { for(size_t i = 0; i < left; i++) free(*(char**)tlist_get(l, i)); tlist_free_items(l); VP_CHECK(tlist_getsize(l) == 0 && tlist_get(l, 0) == NULL, "free_items left items"); tlist_free(l); }
	vp_trans(1);
	VP_LEAKCHECK(live, "after freeing");
}
/* large items */
static const unsigned big[] = { 2, 3, 5, 7, 16, 17, 127, 128, 129, 254, 255, 256, 257, 258, 300, 511, 512, 513, 1000, 4080, 4095, 4096, 4097, 65535, 65536, 65537, 100000 };
static long i_units(void) { return VP_N(big) * 3; }
static void i_run(long u) { long live = vp_live(); start(big[u % VP_N(big)]); for(int i = 0; i < u / (int)VP_N(big); i++) do_op(O_APP, 0); do_op(vp_choose(nops()), 1); do_op(vp_choose(nops()), 1); end(live); }
/* deletion and insertion again and again at one index, in lists a little longer than it */
static const unsigned ix[] = { 255, 256, 1000, 4095, 4096, 9999, 16383, 32767, 32768, 65534, 65535, 65536, 65537, 131071 };
static long j_units(void) { return VP_N(ix) * 3; }
static void j_run(long u) {
	size_t at = ix[u % VP_N(ix)]; int pat = u / VP_N(ix); long live = vp_live(); start(4); vp_hang_limit(120);
	while(mn < at + 200) { uint32_t id = ++idc; size_t p = pat == 0 ? mn : pat == 1 ? mn - mn % 64 : mn / 2; VP_CHECK(tlist_insert(L, p, bytes(id, tmp)) == 1, "insert"); m_ins(id, p); }
	vp_trans(mn); cmp_all("filled");
	for(int i = 0; i < 60; i++) { do_op(O_FIX + mn + 1 + at, 0); do_op(O_FIX + mn + 1 + at - 1, 0); do_op(O_FIX + at, 0); do_op(O_FIX + mn + 1 + at, 0); if(i % 20 == 19) cmp_all("after deletions"); }
	while(mn > at + 1) do_op(O_FIX + mn + 1 + at, 0);
	do_op(O_FIX + mn + 1 + at, 0); do_op(O_FIX + at, 0); cmp_all("shortened"); end(live);
}
const vp_scenario vp_scenarios[] = {
	{ "pairs", a_units, a_run, "6 item sizes x length 0..8 x 4 generator positions: all pairs of operations, all indices" },
	{ "deep", b_units, b_run, "small lists: all sequences of 3-4 (thorough 4-5) operations" },
	{ "orders", c_units, c_run, "all insertion orders x all deletion orders of 6 (7) items, 5 generator positions" },
	{ "positions", d_units, d_run, "every length to 119 (399), 4 building patterns, every position inserted and deleted" },
	{ "long", e_units, e_run, "70000 (132000) items" },
	{ "items", i_units, i_run, "27 item sizes to 100000 bytes x length 0..2: all pairs of operations" },
	{ "index", j_units, j_run, "14 indices to 131071, 3 building patterns: deletion and insertion again and again at the index and next to it, until it is the last" },
	{ "manydeep", h_units, h_run, "0..300 stored pointers and counts around the powers of two and ten to 2^17: freed all at once, with the items, one by one" },
	{ "deepfree", f_units, f_run, "stored pointers: all deletions, all ways of freeing" },
	{ 0 }
};
