#include "engine.h"
#include "strs.h"
#include "hbmap.h"
const char vp_property[] = "C06";
#define MX 70100
static struct { int on; uint32_t v; } m[MX]; static int mn, mx_used; static uint32_t idc;
static unsigned H[MX];                       /* hash of each key number: the harness decides */
static unsigned hash_i(const int k) { return H[k]; }
static unsigned hash_s(const char *k) { return H[atoi(k + 1)]; }
static int cmp_i(const void *a, const void *b) { int x = *(int*)a, y = *(int*)b; return x < y ? -1 : x > y; }
static int cmp_s(const void *a, const void *b) { return strcmp(*(char**)a, *(char**)b); }
typedef struct { char b[13]; } v13;
static char kstr[3100][8]; static char *key_s(int k) { sprintf(kstr[k], "k%d", k); return kstr[k]; } static int key_i(int k) { return k; }
static int val_i(uint32_t v) { return v * 2654435761u; } static v13 val_13(uint32_t v) { v13 r; for(int i = 0; i < 13; i++) r.b[i] = v * 3 + i; return r; }
static int num_i(int k) { return k; } static int num_s(char *k) { return atoi(k + 1); }
struct ops { const char *name; unsigned nb; void *(*mk)(int); void (*fr)(void*, int); hbmap_iter (*find)(void*, int); int (*contains)(void*, int); int (*get)(void*, int, uint32_t, hbmap_iter);
	int (*keyis)(void*, hbmap_iter, int); int (*valis)(void*, hbmap_iter, uint32_t); hbmap_iter (*ins)(void*, int, uint32_t); hbmap_iter (*insn)(void*, int, uint32_t); int (*setv)(void*, hbmap_iter, uint32_t); int (*del)(void*, hbmap_iter, int, int); int (*each)(void*, int*, int); void (*clear)(void*, int*); int (*sizes)(void*); };
#define HB(N, KT, VT, KEY, VAL, CMP, HASH, NUM, NB) \
	typedef hbmap(KT, VT, NB) N##_t; static N##_t N##_stat; \
	static void *N##_mk(int h) { if(h) { memset(&N##_stat, 0x77, sizeof N##_stat); hbmap_init(&N##_stat, CMP, HASH); return &N##_stat; } N##_t *p = hbmap_new(CMP, (void*)HASH, NB); VP_CHECK(p, "hbmap_new"); return p; } \
	static void N##_fr(void *v, int h) { N##_t *b = v; hbmap_fini(b, 0); if(!h) free(b); } \
	static hbmap_iter N##_find(void *v, int k) { N##_t *b = v; KT x = KEY(k); return hbmap_find(b, x); } \
	static int N##_contains(void *v, int k) { N##_t *b = v; KT x = KEY(k); return hbmap_contains(b, x); } \
	static int N##_get(void *v, int k, uint32_t val, hbmap_iter it) { N##_t *b = v; KT x = KEY(k); VT *p = hbmap_get(b, x); if(!p) return 0; VT w = VAL(val); if(it != (hbmap_iter)-1 && p != &hbmap_getval(b, it)) return 3; return memcmp(p, &w, sizeof w) ? 2 : 1; } \
	static int N##_keyis(void *v, hbmap_iter p, int k) { N##_t *b = v; return NUM(hbmap_getkey(b, p)) == k; } \
	static int N##_valis(void *v, hbmap_iter p, uint32_t id) { N##_t *b = v; VT x = VAL(id); return !memcmp(&hbmap_getval(b, p), &x, sizeof x); } \
	static hbmap_iter N##_ins(void *v, int k, uint32_t id) { N##_t *b = v; KT x = KEY(k); VT w = VAL(id); return hbmap_insert(b, x, w); } \
	static hbmap_iter N##_insn(void *v, int k, uint32_t id) { N##_t *b = v; KT x = KEY(k); VT w = VAL(id); return hbmap_insert_nocheck(b, x, w); } \
	static int N##_setv(void *v, hbmap_iter p, uint32_t id) { N##_t *b = v; VT w = VAL(id); return hbmap_setvalue(b, w, p); } \
	static int N##_del(void *v, hbmap_iter p, int k, int how) { N##_t *b = v; KT x = KEY(k); int n = 0; if(how == 1) return hbmap_delete(b, hbmap_find(b, x)); if(how == 2) { int r = hbmap_delete(b, (n++, p)); VP_CHECK(n == 1, "hbmap_delete evaluated its iterator expression %d times", n); return r; } return hbmap_delete(b, p); } \
	static int N##_each(void *v, int *seen, int mx) { N##_t *b = v; hbmap_iter i; int n = 0; hbmap_foreach(b, i) { int k = NUM(hbmap_getkey(b, i)); VP_CHECK(hbmap_iter_valid(b, i), "foreach yields an invalid iterator"); VP_CHECK(k >= 0 && k < MX && m[k].on, "foreach yields an absent key"); VP_CHECK(n++ < mx, "foreach yields too many entries"); VP_CHECK(N##_valis(v, i, m[k].v), "foreach: value of key %d is wrong", k); seen[k]++; } return n; } \
	static void N##_clear(void *v, int *seen) { N##_t *b = v; hbmap_iter i; hbmap_foreach(b, i) { while(hbmap_iter_index_valid(b, i)) { int k = NUM(hbmap_getkey(b, i)); seen[k]++; hbmap_delete(b, i); } } } \
	static int N##_sizes(void *v) { N##_t *b = v; return hbmap_getkeysize(b) == sizeof(KT) && hbmap_getvalsize(b) == sizeof(VT) && hbmap_getbucketcount(b) == NB; }
#define HBI(NB) HB(i##NB, int, int, key_i, val_i, cmp_i, hash_i, num_i, NB)
#define HBS(NB) HB(s##NB, char*, v13, key_s, val_13, cmp_s, hash_s, num_s, NB)
HBI(1) HBI(2) HBI(3) HBI(5) HBI(64) HBI(257) HBI(66000) HBS(1) HBS(2) HBS(3) HBS(4) HBS(70)
#define E(N, NB) { #N, NB, N##_mk, N##_fr, N##_find, N##_contains, N##_get, N##_keyis, N##_valis, N##_ins, N##_insn, N##_setv, N##_del, N##_each, N##_clear, N##_sizes }
static const struct ops OPS[] = { E(i1, 1), E(i2, 2), E(i3, 3), E(s1, 1), E(s2, 2), E(s3, 3), E(s4, 4), E(i5, 5), E(i64, 64), E(i257, 257), E(s70, 70), E(i66000, 66000) };
static const struct ops *O; static void *B; static int how; static unsigned dels;
static void cmp_all(const char *op, int K) {
	static int seen[MX]; memset(seen, 0, sizeof(int) * (K + 2));
	int n = O->each(B, seen, mn);
	VP_CHECK(n == mn, "%s: foreach visits %d entries, must be %d", op, n, mn);
	uint64_t h = (O - OPS) + 1;
	for(int k = 0; k <= K + 1; k++) {
		VP_CHECK(seen[k] == m[k].on, "%s: foreach visits key %d %d times", op, k, seen[k]);
		hbmap_iter it = O->find(B, k);
		VP_CHECK((it != (hbmap_iter)-1) == m[k].on, "%s: find(key %d) = %llx", op, k, (unsigned long long)it);
		VP_CHECK(!!O->contains(B, k) == m[k].on, "%s: contains(key %d)", op, k);
		if(m[k].on) VP_CHECK(O->keyis(B, it, k) && O->valis(B, it, m[k].v), "%s: iterator of key %d does not address its entry", op, k);
		int g = O->get(B, k, m[k].v, it); VP_CHECK(g == m[k].on, "%s: get(key %d) %s", op, k, g == 0 ? "null for a present key" : g == 1 ? "a value for an absent key" : "wrong value");
		if(m[k].on) h = vp_mix(vp_mix(vp_mix(h, k), m[k].v), H[k]);
	}
	vp_state(h);
}
static void start(int o, int h) { O = &OPS[o]; how = h; mn = 0; idc = 0; memset(m, 0, (mx_used + 2) * sizeof *m); mx_used = 0; dels = 0; B = O->mk(h); VP_CHECK(O->sizes(B), "sizes"); vp_trace("map %s with %u buckets (%s)", O->name, O->nb, h ? "init" : "new"); }
static void end(long live) { O->fr(B, how); VP_LEAKCHECK(live, "after hbmap_fini"); }
static void op_ins(int k, int nc) { uint32_t v = ++idc; vp_trans(1); hbmap_iter it = nc ? O->insn(B, k, v) : O->ins(B, k, v); if(!m[k].on) mn++; if(k > mx_used) mx_used = k; m[k].on = 1; m[k].v = v;
	vp_trace("insert%s key %d (hash %x) -> iterator %llx", nc ? "_nocheck" : "", k, H[k], (unsigned long long)it); VP_CHECK(it != (hbmap_iter)-1, "insert of key %d failed", k);
	VP_CHECK(O->keyis(B, it, k) && O->valis(B, it, v), "iterator returned by inserting key %d does not address its entry", k); }
static void op_set(int k) { uint32_t v = ++idc; vp_trans(1); hbmap_iter it = O->find(B, k); VP_CHECK(it != (hbmap_iter)-1, "find"); int r = O->setv(B, it, v); VP_CHECK(r == 1, "setvalue returned %d", r); m[k].v = v; vp_trace("setvalue key %d", k); }

static void op_del(int k) { vp_trans(1); hbmap_iter it = O->find(B, k); VP_CHECK(it != (hbmap_iter)-1, "find"); O->del(B, it, k, dels++ % 3); m[k].on = 0; mn--; vp_trace("delete key %d", k); }
static void op_clear(int K) { static int seen[MX]; memset(seen, 0, sizeof(int) * (K + 2)); vp_trans(1); vp_trace("delete-while-iterating loop"); O->clear(B, seen); for(int k = 0; k <= K; k++) { VP_CHECK(seen[k] == m[k].on, "the deleting loop saw key %d %d times", k, seen[k]); m[k].on = 0; } mn = 0; }
static void step(int K) {
	int c = vp_choose(4 * K + 1), k = c / 4 + 1;
	if(c == 4 * K) op_clear(K);
	else switch(c % 4) { case 0: op_ins(k, 0); break; case 1: if(m[k].on) op_set(k); else op_ins(k, 1); break; case 2: if(m[k].on) dels = vp_choose(3), op_del(k); else return; break; case 3: if(!m[k].on) return; op_ins(k, 0); op_del(k); break; }
	cmp_all("step", K);
}
/* every assignment of 3 keys to buckets (several hash representatives), every op sequence */
static unsigned rep(unsigned bucket, unsigned nb, int k) { unsigned q = k % 3; return q == 0 ? bucket : q == 1 ? (0xffffffffu / nb - 1) * nb + bucket : 7 * nb + bucket; }
static long a_units(void) { return 7 * 2 * 64; }
static void a_run(long u) { int o = u % 7; u /= 7; int h = u % 2; u /= 2; unsigned nb = OPS[o].nb; if(u >= nb * nb * nb) return;
	long live = vp_live(); for(int k = 0; k <= 4; k++) H[k] = 0; unsigned x = u; for(int k = 1; k <= 3; k++) { H[k] = rep(x % nb, nb, k); x /= nb; } H[4] = H[1]; H[0] = H[2];
	start(o, h); for(int i = 0, d = VP_T(nb >= 3 ? 3 : 4, 4); i < d; i++) step(3); end(live); }
/* every subset of 5 keys present x every assignment of 5 keys to 3 buckets: iterate, delete each, delete loop */
static long b_units(void) { return 3 * 243; }
static void b_run(long u) { static const int os[] = { 2, 5, 7 }; int o = os[u % 3]; u /= 3; unsigned nb = OPS[o].nb; long live = vp_live(); unsigned x = u; H[0] = 0; for(int k = 1; k <= 5; k++) { unsigned b = x % 3; x /= 3; if(nb == 5) b = b * 2; H[k] = rep(b, nb, k); } H[6] = H[5];
	start(o, 0); int s = vp_choose(32); for(int k = 5; k >= 1; k--) if(s >> (k - 1) & 1) op_ins(k, k & 1); cmp_all("filled", 5);
	int c = vp_choose(6); if(c < 5) { if(m[c+1].on) op_del(c + 1); else op_ins(c + 1, 0); cmp_all("one", 5); } 
	op_clear(5); cmp_all("cleared", 5); op_ins(2, 0); cmp_all("again", 5); end(live); }
/* many entries, one bucket occupied at each position, and spread */
static long c_units(void) { return 4 * 70; }
static void c_run(long u) { static const int os[] = { 8, 9, 10, 7 }; int o = os[u % 4]; u /= 4; unsigned nb = OPS[o].nb; long live = vp_live();
	int K = u < 60 ? 12 : VP_T(700, 2900); for(int k = 0; k <= K + 1; k++) H[k] = u < 60 ? (k % 3 ? u * nb / 60 : (nb - 1)) + nb * k : u < 65 ? k * 2654435761u : u == 65 ? nb - 1 : u == 66 ? 0 : 0xffffffffu - k;
	start(o, u & 1); for(int k = 1; k <= K; k++) op_ins((k * 11) % K + 1, 0); cmp_all("filled", K);
	for(int k = 1; k <= K; k += 3) op_del(k); cmp_all("thinned", K); for(int k = 2; k <= K; k += 3) op_set(k); cmp_all("set", K); op_clear(K); cmp_all("cleared", K); end(live); }
/* more than 2^16 entries in one bucket, more than 2^16 buckets */
static long w_units(void) { return 7; }
static void w_run(long u) { long live = vp_live(); int o = u < 3 ? (int)u : u < 5 ? 9 : 11; unsigned nb = OPS[o].nb; int K = u < 5 ? 66200 : 1500; vp_hang_limit(VP_T(240, 300));
	for(int k = 0; k <= K + 1; k++) H[k] = u == 0 ? k : u == 1 ? (k % 100 ? 1 : 0) : u == 2 ? 3u * k + 2 : u == 3 ? nb - 1 + nb * (k % 7) : u == 4 ? k : u == 5 ? 65536u - 750 + k : k % 5 == 0 ? 0 : k % 5 == 1 ? 65999 : k % 5 == 2 ? 65535 : k % 5 == 3 ? 65536 : 66000u * 7 + 255;
	start(o, u & 1); for(int k = 1; k <= K; k++) { uint32_t v = ++idc; hbmap_iter it = O->insn(B, k, v); m[k].on = 1; m[k].v = v; mn++; mx_used = k; VP_CHECK(it != (hbmap_iter)-1 && O->keyis(B, it, k) && O->valis(B, it, v), "iterator returned by inserting key %d does not address its entry", k); vp_trans(1); } vp_beat(); cmp_all("filled", K);
	static const int at[] = { 1, 2, 255, 256, 257, 32767, 32768, 65534, 65535, 65536, 65537, 66200 }; for(int i = 0; i < VP_N(at); i++) if(at[i] <= K) { op_set(at[i]); op_del(at[i]); op_ins(at[i], 0); op_ins(at[i], 0); if(i % 4 == 0) op_del(at[i]); } vp_beat(); cmp_all("changed", K);
	op_clear(K); cmp_all("cleared", K); op_ins(7, 0); cmp_all("again", K); end(live); }
typedef hbmap(char*, char*, 4) pp_t;
static long f_units(void) { long n = 0; while(n < counts_count() && counts_get(n) < 66000) n++; return n; }
static void f_run(long u) {
	long live = vp_live(); pp_t *b = hbmap_new(cmp_s, (void*)hash_s, 4); int n = counts_get(u), flags = vp_choose(4); char **ks = vp_buf((n + 1) * sizeof *ks), **vs = vp_buf((n + 1) * sizeof *vs); for(int i = 0; i < (n > 10 ? n : 10); i++) H[i] = i < 4 ? i * 5 : n < 10 ? 2 : i / 3;
	for(int i = 0; i < n; i++) { ks[i] = malloc(8); vs[i] = i % 5 == 2 ? 0 : malloc(5); sprintf(ks[i], "k%d", i); char *k = ks[i], *v = vs[i]; VP_CHECK(hbmap_insert(b, k, v) != (hbmap_iter)-1, "insert"); }
	int form = vp_choose(3), fk = flags & 1, fv = flags & 2; if(form == 1) hbmap_fini(b, fv | fk); else if(form == 2) hbmap_fini(b, flags == 3 ? 3 : flags == 2 ? 2 : fk); else if(flags == 0) hbmap_fini(b, 0); else if(flags == 1) hbmap_fini(b, 1); else if(flags == 2) hbmap_fini(b, 2); else hbmap_fini(b, 3);
	for(int i = 0; i < n; i++) { if(!(flags & 1)) free(ks[i]); if(!(flags & 2)) free(vs[i]); }
	free(b); vp_trans(1); vp_trace("%d heap keys and values, flags %d", n, flags); vp_state(vp_mix(n, flags));
	VP_LEAKCHECK(live, "after hbmap_fini");
}
/* every argument given as an expression: a conditional, a lookup, one with a side effect */
typedef hbmap(int, unsigned, 5) x_t;
static long x_units(void) { return 4 * 32; }
static void x_run(long u) {
	long live = vp_live(); int hk = u % 4, s = u / 4, n, calls, on[6]; unsigned v[6]; for(int k = 1; k <= 5; k++) H[k] = hk == 0 ? k : hk == 1 ? 3 : hk == 2 ? k * 2 : 0xfffffffbu + k; H[0] = 2;
	x_t *a = hbmap_new(cmp_i, (void*)hash_i, 5), *b = a, st; hbmap_init(&st, cmp_i, hash_i); if(vp_choose(2)) b = &st;
	for(int k = 1; k <= 5; k++) { on[k] = s >> (k - 1) & 1; if(!on[k]) continue; v[k] = k * 7; calls = 0; hbmap_iter it = vp_choose(2) ? hbmap_insert(b ? b : a, k, (calls++, v[k])) : hbmap_insert_nocheck(b ? b : a, k, calls++ ? 0 : v[k]); VP_CHECK(calls == 1, "inserting evaluated the value %d times", calls); VP_CHECK(it != (hbmap_iter)-1 && hbmap_getkey(b, it) == k && hbmap_getval(b, it) == v[k], "insert of key %d", k); }
	int k = 1 + vp_choose(5), op = vp_choose(5); n = 0; vp_trace("keys %x, operation %d on key %d", s, op, k);
	if(!on[k]) { VP_CHECK(!hbmap_contains(b, k) && !hbmap_get(b, k), "absent key %d found", k); VP_CHECK(hbmap_insert(b, k, k & 1 ? 5u : 6u) != (hbmap_iter)-1, "insert"); on[k] = 1; v[k] = k & 1 ? 5 : 6; }
	else if(op == 0) hbmap_delete(b, hbmap_find(b, k)), on[k] = 0;
	else if(op == 1) { hbmap_iter it = hbmap_find(b, k); if(hbmap_delete(b, n++ ? (hbmap_iter)-1 : it)) on[k] = 0; VP_CHECK(n == 1 && !on[k], "hbmap_delete evaluated its iterator %d times", n); }
	else if(op == 2) { calls = 0; VP_CHECK(hbmap_setvalue(b, (calls++, 99u), hbmap_find(b, k)) == 1 && calls == 1, "setvalue with a lookup"); v[k] = 99; }
	else if(op == 3) { calls = 0; hbmap_iter it = hbmap_insert(b, k, calls++ ? 1u : 77u); VP_CHECK(calls == 1 && hbmap_getval(b, it) == 77, "overwriting evaluated the value %d times", calls); v[k] = 77; }
	else { VP_CHECK(hbmap_getkey(b, hbmap_find(b, k)) == k && hbmap_getval(b, hbmap_find(b, k)) == v[k], "getkey/getval with a lookup"); hbmap_getval(b, hbmap_find(b, k)) = 55; v[k] = 55; VP_CHECK(*hbmap_get(b, k) == 55, "get"); }
	for(int q = 1; q <= 5; q++) { hbmap_iter it = hbmap_find(b, q); VP_CHECK((it != (hbmap_iter)-1) == on[q], "afterwards find(key %d)", q); if(on[q]) VP_CHECK(hbmap_getkey(b, it) == q && hbmap_getval(b, it) == v[q], "afterwards key %d", q); vp_trans(1); }
	n = 0; hbmap_iter i; hbmap_foreach(b ? b : a, i) n++; for(int q = 1; q <= 5; q++) n -= on[q]; VP_CHECK(!n, "foreach"); vp_trans(3); vp_state(vp_mix(u, k * 5 + op));
	hbmap_fini(a, u & 1 ? 0 : 0); free(a); hbmap_fini(&st, 0); VP_LEAKCHECK(live, "after hbmap_fini");
}
const vp_scenario vp_scenarios[] = {
	{ "sequences", a_units, a_run, "1..4 buckets, int and string keys: every assignment of 3 keys to buckets x all operation sequences of length 3-4" },
	{ "expressions", x_units, x_run, "every subset of 5 keys x 4 hash functions x every operation with its map, key, value and iterator given as conditionals, lookups and expressions with side effects" },
	{ "subsets", b_units, b_run, "5 keys over 3 or 5 buckets: every assignment x every subset present x every further change, foreach and delete loop" },
	{ "many", c_units, c_run, "64, 257, 70 and 5 buckets: occupied buckets at every position, hundreds of entries" },
	{ "wide", w_units, w_run, "more than 2^16 entries in one bucket or spread, 66000 buckets with the entries around 2^16 and at the ends" },
	{ "release", f_units, f_run, "0..300 stored heap keys/values and counts around the powers of two and ten to 2^16, all release flags" },
	{ 0 }
};
