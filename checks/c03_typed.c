#include "engine.h"
#include "strs.h"
#include "tglist.h"
#include "tgilist.h"
const char vp_property[] = "C03";
#define MX 66000
static uint32_t m[MX]; static size_t mn; static uint32_t idc; static size_t added;
static void m_ins(uint32_t id, size_t p) { memmove(m + p + 1, m + p, (mn - p) * sizeof *m); m[p] = id; mn++; }
static void m_del(size_t p) { memmove(m + p, m + p + 1, (mn - p - 1) * sizeof *m); mn--; }

typedef struct { char c[3]; } s3; typedef struct { int a; char b[20]; } s24; typedef struct { short a, b, c; } s6; typedef struct { char c[200]; } s200;
static char mk_c(uint32_t i) { return (char)(i * 37 + 11); }
static short mk_s(uint32_t i) { return (short)(i * 257 + 3); }
static int mk_i(uint32_t i) { return (int)(i * 2654435761u); }
static double mk_d(uint32_t i) { return i * 1.25 - 3; }
static s3 mk_3(uint32_t i) { s3 r = { { i, i >> 8, i * 5 } }; return r; }
static s6 mk_6(uint32_t i) { s6 r = { i, ~i, i >> 7 }; return r; }
static s24 mk_24(uint32_t i) { s24 r; r.a = i; for(int k = 0; k < 20; k++) r.b[k] = i + k; return r; }
static s200 mk_200(uint32_t i) { s200 r; for(int k = 0; k < 200; k++) r.c[k] = (i >> (8 * (k % 3))) + k; return r; }

/* generic access through per-type functions generated from the macros */
struct ops { const char *name; size_t idxmax;
	void *(*mk)(int how); void (*fr)(void*, int how); size_t (*size)(void*); int (*empty)(void*); int (*eq)(void*, size_t, uint32_t);
	int (*add)(void*, uint32_t); int (*ins)(void*, uint32_t, size_t); int (*set)(void*, uint32_t, size_t); void (*del)(void*, size_t); size_t (*isz)(void*); size_t tsz; int (*insx)(void*, uint32_t, size_t); void (*delx)(void*, size_t); };
#define COMMON(P, N, LT, TYPE, MK) \
	static LT N##_stat; \
	static void *N##_mk(int how) { if(how) { memset(&N##_stat, 0x66, sizeof N##_stat); P##_init(&N##_stat); return &N##_stat; } LT *l = P##_new(); VP_CHECK(l, "cannot create the list"); return l; } \
	static void N##_fr(void *v, int how) { LT *l = v; if(how) P##_free_items(l); else P##_free(l); } \
	static size_t N##_size(void *v) { LT *l = v; return P##_getsize(l); } \
	static int N##_empty(void *v) { LT *l = v; return P##_empty(l); } \
	static int N##_eq(void *v, size_t p, uint32_t id) { LT *l = v; TYPE a = P##_get(l, p), b = MK(id); return !memcmp(&a, &b, sizeof a); } \
	static int N##_add(void *v, uint32_t id) { LT *l = v; TYPE x = MK(id); return P##_add(l, x); } \
	static int N##_ins(void *v, uint32_t id, size_t p) { LT *l = v; TYPE x = MK(id); return P##_insert(l, x, p); } \
	static int N##_set(void *v, uint32_t id, size_t p) { LT *l = v; TYPE x = MK(id); return P##_set(l, x, p); } \
	static void N##_del(void *v, size_t p) { LT *l = v; P##_delete(l, p); } \
	static int N##_insx(void *v, uint32_t id, size_t p) { LT *l = v; TYPE x = MK(id); size_t i = p; int r = P##_insert(l, x, i++); VP_CHECK(i == p + 1, "insert evaluated its position expression %zu times", i - p); return r; } \
	static void N##_delx(void *v, size_t p) { LT *l = v; size_t i = p; P##_delete(l, i++); VP_CHECK(i == p + 1, "delete evaluated its position expression %zu times", i - p); } \
	static size_t N##_isz(void *v) { LT *l = v; return P##_itemsize(l); }
#define TG(N, TYPE, MK) typedef tglist(TYPE) N##_lt; COMMON(tglist, N, N##_lt, TYPE, MK)
#define TI(N, TYPE, MK, IDX) typedef tgilist(TYPE, IDX) N##_lt; COMMON(tgilist, N, N##_lt, TYPE, MK)
TG(gc, char, mk_c) TG(gs, short, mk_s) TG(gi, int, mk_i) TG(gd, double, mk_d) TG(g3, s3, mk_3) TG(g6, s6, mk_6) TG(g24, s24, mk_24) TG(g200, s200, mk_200)
TI(i24b, s24, mk_24, unsigned char) TI(ib, int, mk_i, unsigned char) TI(isb, s3, mk_3, signed char) TI(i24h, s24, mk_24, unsigned short) TI(i200h, s200, mk_200, short) TI(i24u, s24, mk_24, unsigned) TI(i3z, s3, mk_3, size_t) TI(icz, char, mk_c, size_t)
#define E(N, MAXI, TYPE) { #N, MAXI, N##_mk, N##_fr, N##_size, N##_empty, N##_eq, N##_add, N##_ins, N##_set, N##_del, N##_isz, sizeof(TYPE), N##_insx, N##_delx }
static const struct ops OPS[] = {
	E(gc, -1, char), E(gs, -1, short), E(gi, -1, int), E(gd, -1, double), E(g3, -1, s3), E(g6, -1, s6), E(g24, -1, s24), E(g200, -1, s200),
	E(i24b, 256, s24), E(ib, 256, int), E(isb, 128, s3), E(i24h, 65536, s24), E(i200h, 32768, s200), E(i24u, -1, s24), E(i3z, -1, s3), E(icz, -1, char),
};
#define NO VP_N(OPS)
static const struct ops *O; static void *L; static int how;
static void cmp_range(const char *op, size_t a, size_t b) {
	VP_CHECK(O->size(L) == mn, "%s: length %zu, must be %zu", op, O->size(L), mn);
	VP_CHECK(!!O->empty(L) == (mn == 0), "%s: empty flag", op);
	for(size_t i = a; i < b; i++) VP_CHECK(O->eq(L, i, m[i]), "%s: element %zu of %zu is wrong", op, i, mn);
}
static void cmp_all(const char *op) { cmp_range(op, 0, mn); uint64_t h = (uintptr_t)(O - OPS) + 1; for(size_t i = 0; i < mn; i++) h = vp_mix(h, m[i]); vp_state(h); }
static int nops(void) { return 1 + mn + 1 + mn + mn; }
static void do_op(int o, int full) {
	char d[64]; size_t p; uint32_t id = ++idc; int r; vp_trans(1); size_t at = 0;
	if(o == 0) { strcpy(d, "add"); r = O->add(L, id); VP_CHECK(r == 1, "add returned %d", r); m_ins(id, mn); added++; at = mn - 1; }
	else if((p = o - 1) <= mn) { snprintf(d, 64, "insert at %zu of %zu", p, mn); r = O->ins(L, id, p); VP_CHECK(r != 0, "%s returned 0", d); m_ins(id, p); added++; at = p; }
	else if((p -= mn + 1) < mn) { snprintf(d, 64, "delete at %zu of %zu", p, mn); O->del(L, p); m_del(p); at = p; }
	else { p -= mn; snprintf(d, 64, "set at %zu of %zu", p, mn); r = O->set(L, id, p); VP_CHECK(r == 1, "%s returned %d", d, r); m[p] = id; at = p; }
	vp_trace("%s -> %zu elements", d, mn);
	if(full) cmp_all(d); else { cmp_range(d, at > 20 ? at - 20 : 0, at + 20 < mn ? at + 20 : mn); if(mn > 2) { cmp_range(d, 0, 2); cmp_range(d, mn - 2, mn); } }
}
static void start(int k, int h, size_t n) {
	O = &OPS[k]; how = h; mn = 0; idc = 0; added = 0; L = O->mk(h);
	vp_trace("list type %s (%s), %zu elements", O->name, h ? "init" : "new", n);
	VP_CHECK(O->isz(L) == O->tsz, "itemsize");
	for(size_t i = 0; i < n; i++) { uint32_t id = ++idc; int r = O->add(L, id); VP_CHECK(r == 1, "add returned %d", r); m_ins(id, mn); added++; }
	vp_trans(n);
	cmp_all("filled");
}
static void end(long live) { O->fr(L, how); VP_LEAKCHECK(live, "after freeing the list"); }
static long a_units(void) { return NO * 2 * 18; }
static void a_run(long u) { long live = vp_live(); int k = u % NO; u /= NO; int h = u % 2; u /= 2; start(k, h, u); do_op(vp_choose(nops()), 1); do_op(vp_choose(nops()), 1); end(live); }
static long b_units(void) { return NO * 4; }
static void b_run(long u) { long live = vp_live(); start(u % NO, 0, u / NO); for(int i = 0, d = VP_T(u / NO < 2 ? 4 : 3, u / NO ? 4 : 5); i < d; i++) do_op(vp_choose(nops()), 1); end(live); }
static long c_units(void) { return VP_T(130, 260); }
static void c_run(long u) {
	long live = vp_live(); int k = vp_choose(NO);
	if((size_t)u * 2 + 2 > OPS[k].idxmax) return;
	start(k, 0, u);
	for(size_t p = 0; p <= (size_t)u; p++) { if(added >= O->idxmax) break; do_op(1 + p, 1); do_op(1 + mn + 1 + p, 1); if(p < mn) do_op(1 + mn + 1 + mn + p, 1); }
	end(live);
}
/* fill the index type exactly, then shrink */
static long d_units(void) { return NO * 3; }
static void d_run(long u) {
	long live = vp_live(); int k = u % NO, mode = u / NO; size_t mx = OPS[k].idxmax; if(mx > 65600) mx = 65600;
	if(mx * OPS[k].tsz > (8u << 20)) mx = 33000;
	start(k, 0, 0);
	for(size_t i = 0; i < mx; i++) {
		size_t p = mode == 0 ? mn : mode == 1 ? (mx > 3000 ? mn - (mn > 5 ? 5 : mn) : 0) : (mx > 3000 ? mn - mn % 11 : mn / 2);
		uint32_t id = ++idc; int r;
		if(p == mn && mode == 0) r = O->add(L, id); else r = O->ins(L, id, p);
		VP_CHECK(r != 0, "insertion %zu failed", i); m_ins(id, p);
		if(mode && i % 50 == 49) { O->del(L, mn / 3); m_del(mn / 3); }
		if(i < 300 || !(i & (i + 1)) || !(i & (i - 1))) cmp_range("fill", 0, mn);
	}
	vp_trans(mx);
	cmp_all("full");
	for(int i = 0; i < 50 && mn; i++) do_op(1 + mn + 1 + (i % 3 == 0 ? 0 : i % 3 == 1 ? mn - 1 : mn / 2), 0);
	cmp_all("shrunk");
	end(live);
}
/* stored pointers are released once */
typedef tglist(char*) pl; typedef tgilist(char*, unsigned) pil;
static long e_units(void) { return counts_count(); }
static void e_run(long u) {
	long live = vp_live(); int kind = vp_choose(2), del = vp_choose(3); size_t n = counts_get(u); long before, want;
	if(kind == 0) {
		pl *l = tglist_new(); for(size_t i = 0; i < n; i++) { char *x = i % 4 == 3 ? 0 : malloc(5 + i % 50); if(i & 1 && n < 2000) { VP_CHECK(tglist_insert(l, x, i / 2), "insert"); } else VP_CHECK(tglist_add(l, x), "add"); }
		for(int d = 0; d < del && tglist_getsize(l); d++) { free(tglist_get(l, d % tglist_getsize(l))); tglist_delete(l, d % tglist_getsize(l)); }
		before = vp_live(); want = 0; size_t i; tglist_foreach(l, i) want += tglist_get(l, i) != 0;
		tglist_free_values(l); VP_CHECK(before - vp_live() == want, "free_values released %ld, must be %ld", before - vp_live(), want); vp_trans(n);
		tglist_free(l);
	} else {
		/* deleted entries stay in the value list until the values are freed, as documented */
		pil *l = tgilist_new(); for(size_t i = 0; i < n; i++) { char *x = i % 4 == 3 ? 0 : malloc(5 + i % 50); if(i & 1 && n < 2000) { VP_CHECK(tgilist_insert(l, x, i / 2), "insert"); } else VP_CHECK(tgilist_add(l, x), "add"); }
		for(int d = 0; d < del && tgilist_getsize(l); d++) tgilist_delete(l, d % tgilist_getsize(l));
		before = vp_live(); want = 0; for(size_t i = 0; i < n; i++) want += i % 4 != 3;
		tgilist_free_values(l); VP_CHECK(before - vp_live() == want, "free_values released %ld, must be %ld", before - vp_live(), want); vp_trans(n);
		tgilist_free(l);
	}
	vp_trace("%zu stored pointers, %d deleted, %ld freed", n, del, want); vp_state(vp_mix(n, kind * 8 + del));
	VP_LEAKCHECK(live, "after freeing");
}
/* positions written as expressions with a side effect */
static long f_units(void) { return NO * 12; }
static void f_run(long u) {
	long live = vp_live(); start(u % NO, 0, u / NO); size_t p = vp_choose(mn + 1); uint32_t id = ++idc; int r = O->insx(L, id, p); VP_CHECK(r, "insert at %zu of %zu returned 0", p, mn); m_ins(id, p); vp_trans(2); cmp_all("insert with i++");
	p = vp_choose(mn); O->delx(L, p); m_del(p); cmp_all("delete with i++"); vp_trace("positions given as i++"); end(live);
}
const vp_scenario vp_scenarios[] = {
	{ "pairs", a_units, a_run, "16 list types x 2 creation styles x starting length 0..17: all pairs of operations at all positions" },
	{ "deep", b_units, b_run, "16 list types, starting length 0..3: all sequences of 3-4 (thorough 4-5) operations" },
	{ "positions", c_units, c_run, "every length to 129 (259) x every position: insert, delete, overwrite" },
	{ "capacity", d_units, d_run, "fill up to the index type's range (or 65600) appending, at the front, in the middle; then delete" },
	{ "expressions", f_units, f_run, "16 list types, length 0..11: insert and delete at all positions, the position given as i++" },
	{ "pointers", e_units, e_run, "pointer lists of 0..300 entries and around the powers of two and ten to 2^17 with nulls and deletions, values freed" },
	{ 0 }
};
