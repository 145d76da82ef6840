#include "engine.h"
#include "sblist.h"
#include "sptrlist.h"
#include "stringlist.h"
#include "tglist.h"
#include "tgilist.h"
#include "tlist.h"
#include "bmap.h"
#include "hbmap.h"
#include "hashlist.h"
const char vp_property[] = "C08";
#define MX 9000
/* result of an operation: 1 success, 0 documented failure value, 2 anything else */
static uint32_t m[MX]; static size_t mn; static uint32_t idc;
static void m_ins(uint32_t id, size_t p) { memmove(m + p + 1, m + p, (mn - p) * sizeof *m); m[p] = id; mn++; }
static void m_del(size_t p) { memmove(m + p, m + p + 1, (mn - p - 1) * sizeof *m); mn--; }
typedef struct { uint32_t id; char pad[20]; } big;
static big mkbig(uint32_t i) { big b; memset(&b, i, sizeof b); b.id = i; return b; }
struct kind { const char *name; void *(*mk)(void); void (*fr)(void*); size_t (*size)(void*); uint32_t (*get)(void*, size_t); int (*add)(void*, uint32_t, int how); int (*ins)(void*, uint32_t, size_t); void (*del)(void*, size_t); int nadd; };
/* sblist, several blocks */
static void *sb_mk1(void) { return sblist_new(sizeof(big), 1); } static void *sb_mk2(void) { return sblist_new(sizeof(big), 2); } static void *sb_mk0(void) { return sblist_new(2500, 0); }
static void *sb_ad(void) { char *d = malloc(2 * sizeof(big)); if(!d) return 0; big a = mkbig(1000001), b = mkbig(1000002); memcpy(d, &a, sizeof a); memcpy(d + sizeof a, &b, sizeof b); sblist *l = sblist_new_from_data(sizeof(big), d, 2 * sizeof(big)); if(!l) { free(d); return 0; } m_ins(1000001, 0); m_ins(1000002, 1); return l; }
static void sb_fr(void *l) { sblist_free(l); } static size_t sb_size(void *l) { return sblist_getsize((sblist*)l); } static uint32_t sb_get(void *l, size_t i) { uint32_t r; void *p = sblist_get(l, i); if(!p) return -1; memcpy(&r, p, 4); return r; }
static char bigbuf[4096];
static void *sb_item(sblist *l, uint32_t id) { memset(bigbuf, id, sizeof bigbuf); memcpy(bigbuf, &id, 4); return bigbuf; }
static int cmp_last(const void *a, const void *b) { return 1; } static int cmp_last_r(const void *a, const void *b, void *c) { return 1; }
static int sb_add(void *l, uint32_t id, int how) {
	size_t z; int r; size_t n = sblist_getsize((sblist*)l);
	switch(how) {
	case 0: r = sblist_add(l, sb_item(l, id)); return r == 1 ? 1 : r == 0 ? 0 : 2;
	case 1: z = sblist_addi(l, sb_item(l, id)); return z == n ? 1 : z == (size_t)-1 ? 0 : 2;
	case 2: z = sblist_insert_sorted(l, sb_item(l, id), cmp_last); return z == n ? 1 : z == (size_t)-1 ? 0 : 2;
	case 3: z = sblist_insert_sorted_r(l, sb_item(l, id), cmp_last_r, l); return z == n ? 1 : z == (size_t)-1 ? 0 : 2;
	default: r = sblist_grow_if_needed(l); if(r == 0) return 0; if(r != 1) return 2; return 3; /* success without an item */
	}
}
static int sb_ins(void *l, uint32_t id, size_t p) { int r = sblist_insert(l, sb_item(l, id), p); return r == 1 ? 1 : r == 0 ? 0 : 2; } static void sb_del(void *l, size_t p) { sblist_delete(l, p); }
/* pointer and string lists */
static void *sp_mk(void) { return sptrlist_new(2); } static uint32_t sp_get(void *l, size_t i) { return (uint32_t)(uintptr_t)sptrlist_get((sblist*)l, i); }
static int sp_add(void *l, uint32_t id, int how) { void *p = (void*)(uintptr_t)id; int r = sptrlist_add((sblist*)l, p); return r == 1 ? 1 : r == 0 ? 0 : 2; } static int sp_ins(void *l, uint32_t id, size_t p) { void *x = (void*)(uintptr_t)id; int r = sblist_insert(l, &x, p); return r == 1 ? 1 : r == 0 ? 0 : 2; }
static void *sl_mk(void) { return stringlist_new(1); } static uint32_t sl_get(void *l, size_t i) { char *s = stringlist_get(l, i); return s ? atoi(s) : -1; }
static int sl_add(void *l, uint32_t id, int how) { char b[20]; sprintf(b, "%u", id); int r = stringlist_add_dup(l, b); return r == 1 ? 1 : r == 0 ? 0 : 2; }
static void sl_fr(void *l) { for(size_t i = 0; i < stringlist_getsize((sblist*)l); i++) free(stringlist_get(l, i)); stringlist_free(l); } static void sl_del(void *l, size_t p) { free(stringlist_get(l, p)); stringlist_delete((sblist*)l, p); }
/* typed */
typedef tglist(big) tgb; static void *tg_mk(void) { tgb *l = tglist_new(); return l; } static void tg_fr(void *v) { tgb *l = v; tglist_free(l); } static size_t tg_size(void *v) { tgb *l = v; return tglist_getsize(l); } static uint32_t tg_get(void *v, size_t i) { tgb *l = v; return tglist_get(l, i).id; }
static int tg_add(void *v, uint32_t id, int how) { tgb *l = v; big b = mkbig(id); if(how == 0) return tglist_add(l, b); size_t n = tglist_getsize(l), z = tglist_insert_sorted(l, b, cmp_last); return z == n ? 1 : z == (size_t)-1 ? 0 : 2; } static int tg_ins(void *v, uint32_t id, size_t p) { tgb *l = v; big b = mkbig(id); return tglist_insert(l, b, p) ? 1 : 0; } static void tg_del(void *v, size_t p) { tgb *l = v; tglist_delete(l, p); }
typedef tgilist(big, unsigned) tib; static void *ti_mk(void) { tib *l = tgilist_new(); return l; } static void ti_fr(void *v) { tib *l = v; tgilist_free(l); } static size_t ti_size(void *v) { tib *l = v; return tgilist_getsize(l); } static uint32_t ti_get(void *v, size_t i) { tib *l = v; return tgilist_get(l, i).id; }
static int ti_add(void *v, uint32_t id, int how) { tib *l = v; big b = mkbig(id); return tgilist_add(l, b); } static int ti_ins(void *v, uint32_t id, size_t p) { tib *l = v; big b = mkbig(id); return tgilist_insert(l, b, p) ? 1 : 0; } static void ti_del(void *v, size_t p) { tib *l = v; tgilist_delete(l, p); }
/* tree */
static void *tl_mk(void) { return tlist_new(4); } static void tl_fr(void *l) { tlist_free(l); } static size_t tl_size(void *l) { return tlist_getsize(l); } static uint32_t tl_get(void *l, size_t i) { uint32_t *p = tlist_get(l, i); return p ? *p : -1; }
static int tl_add(void *l, uint32_t id, int how) { int r = tlist_append(l, &id); return r == 1 ? 1 : r == 0 ? 0 : 2; } static int tl_ins(void *l, uint32_t id, size_t p) { int r = tlist_insert(l, p, &id); return r == 1 ? 1 : r == 0 ? 0 : 2; } static void tl_del(void *l, size_t p) { tlist_delete(l, p); }
static const struct kind K[] = {
	{ "sblist block 1", sb_mk1, sb_fr, sb_size, sb_get, sb_add, sb_ins, sb_del, 5 }, { "sblist block 2", sb_mk2, sb_fr, sb_size, sb_get, sb_add, sb_ins, sb_del, 5 }, { "sblist page", sb_mk0, sb_fr, sb_size, sb_get, sb_add, sb_ins, sb_del, 5 }, { "sblist adopted", sb_ad, sb_fr, sb_size, sb_get, sb_add, sb_ins, sb_del, 5 },
	{ "sptrlist", sp_mk, sb_fr, sb_size, sp_get, sp_add, sp_ins, sb_del, 1 }, { "stringlist", sl_mk, sl_fr, sb_size, sl_get, sl_add, 0, sl_del, 1 },
	{ "tglist", tg_mk, tg_fr, tg_size, tg_get, tg_add, tg_ins, tg_del, 2 }, { "tgilist", ti_mk, ti_fr, ti_size, ti_get, ti_add, ti_ins, ti_del, 1 }, { "tlist", tl_mk, tl_fr, tl_size, tl_get, tl_add, tl_ins, tl_del, 1 } };
static const struct kind *k; static void *L;
static void cmp(const char *op) { VP_CHECK(k->size(L) == mn, "%s after %s: length %zu, must be %zu", k->name, op, k->size(L), mn); for(size_t i = 0; i < mn; i++) VP_CHECK(k->get(L, i) == m[i], "%s after %s: item %zu of %zu is #%u, must be #%u", k->name, op, i, mn, k->get(L, i), m[i]); uint64_t h = k - K; for(size_t i = 0; i < mn; i++) h = vp_mix(h, m[i]); vp_state(vp_mix(vp_mix(h, vp_oom_hits), vp_alloc_calls)); }
static void begin_op(unsigned long *h0) { *h0 = vp_oom_hits; vp_oom_on = vp_oom_on == 2 ? 2 : 1; }
static int oom_state = 1;
#define FAULTY(EXPR) ({ vp_oom_on = oom_state; unsigned long h_ = vp_oom_hits; __typeof__(EXPR) r_ = (EXPR); oom_state = vp_oom_on; vp_oom_on = 0; hit = vp_oom_hits - h_; vp_trans(1); r_; })
static unsigned long hit;
static void list_step(void) {
	int na = k->nadd, ni = k->ins ? mn + 1 : 0, c = vp_choose(na + ni + mn); char d[60]; uint32_t id = ++idc; int r; size_t p;
	if(c < na) { snprintf(d, 60, "add (way %d)", c); r = FAULTY(k->add(L, id, c)); if(r == 1) m_ins(id, mn); }
	else if((p = c - na) < (size_t)ni) { snprintf(d, 60, "insert at %zu", p); r = FAULTY(k->ins(L, id, p)); if(r == 1) m_ins(id, p); }
	else { p -= ni; snprintf(d, 60, "delete at %zu", p); FAULTY((k->del(L, p), 1)); m_del(p); r = 1; }
	vp_trace("%s %s -> %s%s", k->name, d, r == 1 || r == 3 ? "ok" : r ? "?" : "refused", hit ? " (an allocation failed)" : "");
	VP_CHECK(r != 2, "%s: %s returned neither its success nor its failure value", k->name, d);
	VP_CHECK(r || hit, "%s: %s failed though no allocation failed", k->name, d);
	cmp(d);
}
static void list_go(int kk, size_t pre, int depth, int faults) {
	long live = vp_live(); k = &K[kk]; mn = 0; idc = 0; oom_state = 1;
	vp_fault_budget(faults);
	vp_trace("%s", k->name);
	L = FAULTY(k->mk());
	if(!L) { VP_CHECK(hit, "%s: creation failed though no allocation failed", k->name); VP_LEAKCHECK(live, "%s: failed creation", k->name); return; }
	for(size_t i = 0; i < pre; i++) { uint32_t id = ++idc; int r = k->add(L, id, 0); VP_CHECK(r == 1, "fill"); m_ins(id, mn); }
	cmp("creation");
	while(depth--) list_step();
	/* still fully usable */
	for(int i = 0; i < 3; i++) { uint32_t id = ++idc; VP_CHECK(k->add(L, id, 0) == 1, "%s: not usable afterwards", k->name); m_ins(id, mn); cmp("later add"); }
	if(k->ins) { uint32_t id = ++idc; VP_CHECK(k->ins(L, id, mn / 2) == 1, "%s: not usable afterwards", k->name); m_ins(id, mn / 2); cmp("later insert"); }
	k->del(L, 0); m_del(0); cmp("later delete");
	k->fr(L); VP_LEAKCHECK(live, "%s freed after failures", k->name);
}
static long a_units(void) { return VP_N(K) * 10; }
static void a_run(long u) { list_go(u % VP_N(K), u / VP_N(K), 2, VP_T(1, 2)); }
static long b_units(void) { return VP_N(K) * 2; }
static void b_run(long u) { list_go(u % VP_N(K), u / VP_N(K) * 4, VP_T(3, 4), 2); }
/* growth: many additions with a failure at any of them */
static long g_units(void) { return VP_N(K); }
static void g_run(long u) {
	long live = vp_live(); k = &K[u]; mn = 0; idc = 0; oom_state = 1; vp_fault_budget(2);
	L = FAULTY(k->mk()); if(!L) { VP_LEAKCHECK(live, "%s: failed creation", k->name); return; }
	for(int i = 0; i < VP_T(40, 100); i++) { uint32_t id = ++idc; int pos = k->ins && i % 3 == 2 ? (int)mn / 2 : -1; int r = pos >= 0 ? FAULTY(k->ins(L, id, pos)) : FAULTY(k->add(L, id, 0)); VP_CHECK(r == 1 || (r == 0 && hit), "%s: addition %d: result %d", k->name, i, r); if(r) m_ins(id, pos >= 0 ? pos : (int)mn); vp_trace("addition %d -> %d", i, r); if(hit || i % 8 == 0) cmp("addition"); }
	cmp("end"); k->fr(L); VP_LEAKCHECK(live, "%s freed after failures", k->name);
}
/* one operation at every larger power of two */
static const int BIG[] = { 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8192 };
static long w_units(void) { return VP_N(K) * VP_N(BIG); }
static void w_run(long u) {
	long live = vp_live(); k = &K[u % VP_N(K)]; mn = 0; idc = 0; oom_state = 1; L = k->mk(); size_t n = BIG[u / VP_N(K)]; if(n > (u % VP_N(K) == 2 ? 257 : u % VP_N(K) < 6 ? 1100 : 9000)) { k->fr(L); return; } /* these grow by small steps */ while(mn < n) { uint32_t id = ++idc; VP_CHECK(k->add(L, id, 0) == 1, "fill"); m_ins(id, mn); }
	vp_fault_budget(1); int c = vp_choose(k->nadd + (k->ins ? 3 : 0));
	for(int i = 0; i < 3; i++) { uint32_t id = ++idc; size_t p = c < k->nadd ? mn : c == k->nadd ? 0 : c == k->nadd + 1 ? mn / 2 : mn; int r = c < k->nadd ? FAULTY(k->add(L, id, c)) : FAULTY(k->ins(L, id, p)); vp_trace("%s with %zu items, way %d -> %d%s", k->name, mn, c, r, hit ? " (an allocation failed)" : ""); VP_CHECK(r == 1 || r == 3 || (r == 0 && hit), "%s: way %d with %zu items returned %d", k->name, c, mn, r); if(r == 1) m_ins(id, p); cmp("operation on a large list"); }
	k->del(L, 0); m_del(0); cmp("delete"); k->fr(L); VP_LEAKCHECK(live, "%s freed after failures", k->name);
}
/* maps */
#define NK 9000
static uint32_t mv[NK]; static int mcount;
static int cmp_i(const void *a, const void *b) { int x = *(int*)a, y = *(int*)b; return x < y ? -1 : x > y; }
static unsigned hash_i(const int x) { return x * 3; }
typedef bmap(int, big) bmt; typedef hbmap(int, big, 3) hbt;
static int mkind; static bmt *BM; static hbt *HB;
static void map_cmp(const char *op, int keys) {
	if(mkind == 0) VP_CHECK(bmap_getsize(BM) == (size_t)mcount, "bmap after %s: %zu entries, must be %d", op, (size_t)bmap_getsize(BM), mcount);
	else { hbmap_iter i; int n = 0; hbmap_foreach(HB, i) { int kk = hbmap_getkey(HB, i); VP_CHECK(kk >= 0 && kk < NK && mv[kk] && hbmap_getval(HB, i).id == mv[kk], "hbmap after %s: iteration yields a wrong entry", op); n++; VP_CHECK(n <= mcount, "hbmap: too many entries"); } VP_CHECK(n == mcount, "hbmap after %s: %d entries, must be %d", op, n, mcount); }
	uint64_t h = mkind + 100; size_t idx = 0;
	for(int x = 0; x < keys; x++) { big *p; if(mkind == 0) { p = bmap_get(BM, x); if(mv[x]) { VP_CHECK(bmap_getkey(BM, idx) == x, "bmap after %s: key at %zu", op, idx); VP_CHECK(bmap_getval(BM, idx).id == mv[x], "bmap after %s: value at %zu", op, idx); idx++; } } else p = hbmap_get(HB, x);
		VP_CHECK(!p == !mv[x], "map after %s: key %d %s", op, x, p ? "present" : "lost"); if(p) VP_CHECK(p->id == mv[x], "map after %s: key %d holds #%u, must be #%u", op, x, p->id, mv[x]); h = vp_mix(h, mv[x]); }
	vp_state(vp_mix(vp_mix(h, vp_oom_hits), vp_alloc_calls));
}
static ssize_t map_ins(int x, uint32_t id, int nc) { big b = mkbig(id); if(mkind == 0) return nc ? bmap_insert_nocheck(BM, x, b) : bmap_insert(BM, x, b); hbmap_iter i = nc ? hbmap_insert_nocheck(HB, x, b) : hbmap_insert(HB, x, b); return i == (hbmap_iter)-1 ? -1 : (ssize_t)i; }
static void map_op_ins(int x, int nc, int keys) {
	uint32_t id = ++idc; ssize_t r = FAULTY(map_ins(x, id, nc)); vp_trace("insert key %d -> %zd%s", x, r, hit ? " (an allocation failed)" : "");
	VP_CHECK(r != -1 || hit, "insert failed though no allocation failed");
	if(r != -1) { if(!mv[x]) mcount++; mv[x] = id; if(mkind == 0) VP_CHECK(bmap_getkey(BM, r) == x && bmap_getval(BM, r).id == id, "insert returned index %zd, which is not the entry of key %d", r, x); else VP_CHECK(hbmap_getkey(HB, (hbmap_iter)r) == x && hbmap_getval(HB, (hbmap_iter)r).id == id, "insert returned a wrong iterator"); }
	map_cmp("insert", keys);
}
static void map_del(int x) { if(mkind == 0) { ssize_t i = bmap_find(BM, x); bmap_delete(BM, i); } else { hbmap_iter i = hbmap_find(HB, x); hbmap_delete(HB, i); } mv[x] = 0; mcount--; }
static void map_go(int mk, int pre, int depth, int faults, int keys) {
	long live = vp_live(); mkind = mk; mcount = 0; idc = 0; memset(mv, 0, sizeof mv); oom_state = 1; vp_fault_budget(faults);
	void *p = mk == 0 ? FAULTY(bmap_new(cmp_i)) : FAULTY(hbmap_new(cmp_i, (void*)hash_i, 3));
	if(!p) { VP_CHECK(hit, "creation failed though no allocation failed"); VP_LEAKCHECK(live, "failed creation"); return; }
	BM = p; HB = p;
	for(int i = 0; i < pre; i++) { uint32_t id = ++idc; int x = 2 * i + 1; VP_CHECK(map_ins(x, id, 0) != -1, "fill"); mv[x] = id; mcount++; }
	map_cmp("creation", keys);
	while(depth--) { int c = vp_choose(2 * keys); int x = c / 2; if(c & 1 && mv[x]) { map_del(x); map_cmp("delete", keys); } else map_op_ins(x, c & 1, keys); }
	oom_state = 0; vp_oom_on = 0;
	for(int i = 0; i < 3; i++) { uint32_t id = ++idc; int x = keys - 1 - i; VP_CHECK(map_ins(x, id, 0) != -1, "not usable afterwards"); if(!mv[x]) mcount++; mv[x] = id; map_cmp("later insert", keys); }
	if(mk == 0) { bmap_fini(BM, 0); } else { hbmap_fini(HB, 0); }
	free(p); VP_LEAKCHECK(live, "map freed after failures");
}
static long m_units(void) { return 2 * 10; }
static void m_run(long u) { int pre = u / 2; map_go(u % 2, pre, 2, VP_T(1, 2), 2 * pre + 4 > NK ? NK : 2 * pre + 4); }
static int mapsize(int i) { static const int z[] = { 15, 16, 17, 32, 33, 64, 65, 128, 129, 255, 256, 257, 513, 1024, 1025, 2048, 4096 }; return i < VP_N(z) ? z[i] : 0; }
static long mw_units(void) { return 2 * 17; }
static void mw_run(long u) {
	long live = vp_live(); int pre = mapsize(u / 2), keys = 2 * pre + 3; mkind = u % 2; mcount = 0; idc = 0; memset(mv, 0, sizeof mv); oom_state = 1;
	void *p = mkind == 0 ? bmap_new(cmp_i) : hbmap_new(cmp_i, (void*)hash_i, 3); BM = p; HB = p;
	for(int i = 0; i < pre; i++) { uint32_t id = ++idc; int x = mkind ? 3 * i % (2 * pre + 1) : 2 * i + 1; if(mv[x]) continue; VP_CHECK(map_ins(x, id, 1) != -1, "fill"); mv[x] = id; mcount++; }
	vp_fault_budget(1); static int at[5]; at[0] = 0; at[1] = pre / 2 * 2; at[2] = 2 * pre; at[3] = 2 * pre + 1; at[4] = 2 * pre + 2; int c = vp_choose(5), nc = vp_choose(2);
	for(int i = 0; i < 2; i++) { int x = at[(c + i) % 5]; map_op_ins(x, nc && !mv[x], keys); }
	oom_state = 0; vp_oom_on = 0; if(mv[at[c]]) { map_del(at[c]); map_cmp("delete", keys); } uint32_t id = ++idc; int x = at[c]; VP_CHECK(map_ins(x, id, 0) != -1, "not usable afterwards"); mv[x] = id; mcount++; map_cmp("later insert", keys);
	if(mkind == 0) { bmap_fini(BM, 0); } else { hbmap_fini(HB, 0); } free(p); VP_LEAKCHECK(live, "map freed after failures");
}
static long m2_units(void) { return 2 * 2; }
static void m2_run(long u) { map_go(u % 2, u / 2 * 4, VP_T(3, 4), 1, u / 2 ? 9 : 4); }
/* hash list */
static hashlist *HL; static uint32_t hid[200], hh[200]; static int hn;
static void hl_cmp(const char *op, unsigned nb) {
	for(unsigned b = 0; b < nb; b++) { sblist *l = hashlist_get(HL, b); size_t n = 0; for(int i = 0; i < hn; i++) if(hh[i] % nb == b) { VP_CHECK(l, "hashlist after %s: bucket %u lost", op, b); uint32_t *p = sblist_get(l, n); VP_CHECK(p && *p == hid[i], "hashlist after %s: value %zu of bucket %u", op, n, b); n++; } VP_CHECK(!l ? n == 0 : sblist_getsize(l) == n, "hashlist after %s: bucket %u size", op, b); }
	hashlist_iterator it; hashlist_iterator_init(&it); int n = 0; while(hashlist_next(HL, &it)) { n++; VP_CHECK(n <= hn, "too many"); } VP_CHECK(n == hn, "hashlist after %s: iterator yields %d of %d values", op, n, hn);
	vp_state(vp_mix(vp_mix(vp_mix(nb, hn), vp_oom_hits), vp_alloc_calls));
}
static long h_units(void) { return 3 * 12; }
static void h_run(long u) {
	long live = vp_live(); unsigned nb = u % 3 + 1; int pre = u / 3; hn = 0; idc = 0; oom_state = 1; vp_fault_budget(2);
	HL = FAULTY(hashlist_new(nb, 4)); if(!HL) { VP_CHECK(hit, "creation failed"); VP_LEAKCHECK(live, "failed creation"); return; }
	for(int i = 0; i < pre; i++) { uint32_t id = ++idc; VP_CHECK(hashlist_add(HL, i % 2, &id) == 0, "fill"); hid[hn] = id; hh[hn++] = i % 2; }
	for(int s = 0; s < VP_T(5, 6); s++) { uint32_t hash = vp_choose(nb + 1), id = ++idc; int r = FAULTY(hashlist_add(HL, hash, &id)); vp_trace("add hash %u -> %d%s", hash, r, hit ? " (an allocation failed)" : ""); VP_CHECK(r == 0 || (r == -1 && hit), "hashlist_add returned %d%s", r, hit ? "" : " though no allocation failed"); if(r == 0) { hid[hn] = id; hh[hn++] = hash; } hl_cmp("add", nb); }
	for(unsigned i = 0; i < nb; i++) { uint32_t id = ++idc; VP_CHECK(hashlist_add(HL, i, &id) == 0, "not usable afterwards"); hid[hn] = id; hh[hn++] = i; hl_cmp("later add", nb); }
	hashlist_free(HL); VP_LEAKCHECK(live, "hashlist freed after failures");
}
const vp_scenario vp_scenarios[] = {
	{ "lists", a_units, a_run, "9 list kinds x starting length 0..9: all pairs of operations x every allocation failing once or from there on (thorough: 2 failures)" },
	{ "deep", b_units, b_run, "9 list kinds x starting length 0, 4: all triples (thorough quadruples) of operations x up to 2 failures" },
	{ "growth", g_units, g_run, "40 (100) additions x every placement of up to 2 failures" },
	{ "large", w_units, w_run, "9 list kinds at up to 26 lengths around the powers of two to 8192 (lists that grow by small steps: to 257 or 1025): every way of adding x every allocation failing once or from there on" },
	{ "maps", m_units, m_run, "sorted and bucketed map with 0..9 entries: all pairs of operations x every allocation failing" },
	{ "maps3", m2_units, m2_run, "the same, triples (quadruples) from 0 and 4 entries" },
	{ "largemaps", mw_units, mw_run, "maps at 17 sizes to 4096: insertion at 5 places, twice, x every allocation failing" },
	{ "hashlist", h_units, h_run, "hash list: all sequences of 5 (6) additions x up to 2 failures" },
	{ 0 }
};
