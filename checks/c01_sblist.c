#include "engine.h"
#include "strs.h"
#include "sblist.h"
#include "sptrlist.h"
#include "stringlist.h"
#include "stringptrlist.h"
#include "kvlist.h"
#include <sys/types.h>
const char vp_property[] = "C01";

/* ---- reference model: an array of item ids; an id expands to itemsize bytes ---- */
#define MAXM 70100
static uint32_t m[MAXM + 8]; static size_t mn; static size_t IS;
static uint32_t idc;
static void bytes_of(uint32_t id, unsigned char *o) {
	if(IS == 1) { o[0] = id * 37 + 11; return; }
	for(size_t j = 0; j < IS; j++) o[j] = j < 4 ? (unsigned char)(id >> (8 * j)) ^ (unsigned char)(j * 0x5d) : (unsigned char)(id * 31 + j * 7);
}
static unsigned char *tmp1, *tmp2;
static void *item(uint32_t id) { bytes_of(id, tmp1); return tmp1; }
static int cmp_bytes(const void *a, const void *b) { return memcmp(a, b, IS); }
static int m_cmp(const void *a, const void *b) {
	unsigned char *x = tmp1, *y = tmp2; bytes_of(*(uint32_t*)a, x); bytes_of(*(uint32_t*)b, y); return memcmp(x, y, IS);
}
static void m_ins(uint32_t id, size_t p) { memmove(m + p + 1, m + p, (mn - p) * sizeof *m); m[p] = id; mn++; }
static void m_del(size_t p) { memmove(m + p, m + p + 1, (mn - p - 1) * sizeof *m); mn--; }
static void m_init(size_t is) { IS = is; mn = 0; idc = 0; tmp1 = vp_buf(is); tmp2 = vp_buf(is); }

static void cmp_all(sblist *l, const char *op) {
	VP_CHECK(sblist_getsize(l) == mn, "%s: length is %zu, must be %zu", op, (size_t)sblist_getsize(l), mn);
	VP_CHECK(sblist_get_count(l) == mn, "%s: count differs", op);
	VP_CHECK(!!sblist_empty(l) == (mn == 0), "%s: empty flag wrong", op);
	char *base = sblist_get(l, 0);
	uint64_t h = vp_mix(IS, mn);
	for(size_t i = 0; i < mn; i++) {
		char *p = sblist_get(l, i);
		VP_CHECK(p == base + i * IS, "%s: item %zu of %zu not contiguous", op, i, mn);
		bytes_of(m[i], tmp2);
		VP_CHECK(!memcmp(p, tmp2, IS), "%s: item %zu of %zu holds %s, must hold %s", op, i, mn, vp_show(p, IS > 16 ? 16 : IS), vp_show(tmp2, IS > 16 ? 16 : IS));
		VP_CHECK(sblist_item_from_index(l, i) == p, "%s: sblist_item_from_index(%zu) differs from sblist_get", op, i);
		h = vp_mix(h, m[i]);
	}
	VP_CHECK(sblist_get(l, mn) == NULL, "%s: get past the end (%zu) not refused", op, mn);
	VP_CHECK(sblist_get(l, mn + 1) == NULL && sblist_get(l, (size_t)-1) == NULL && (IS == 1 || sblist_get(l, ~(size_t)0 / IS + 1) == NULL), "%s: get far past the end not refused", op);
	vp_state(h);
}
/* the operation alphabet in a state with n items; returns number of alternatives */
enum { O_ADD, O_ADDI, O_POP, O_SORT, O_GROW, O_INS_OOR1, O_INS_OOR2, O_SET_OOR, O_SET_OOR2, O_DEL_OOR, O_DEL_OOR2, O_FIXED };
static int nops(void) { return O_FIXED + (mn + 1) + mn + mn; }
static void do_op(sblist *l, int o) {
	char d[64]; int r; size_t z, pos; uint32_t id = ++idc;
	vp_trans(1);
	if(o < O_FIXED) switch(o) {
	case O_ADD: snprintf(d, sizeof d, "add"); r = sblist_add(l, item(id)); VP_CHECK(r == 1, "add returned %d", r); m_ins(id, mn); break;
	case O_ADDI: snprintf(d, sizeof d, "addi"); z = sblist_addi(l, item(id)); VP_CHECK(z == mn, "addi returned %zd, must be %zu", (ssize_t)z, mn); m_ins(id, mn); break;
	case O_POP: { snprintf(d, sizeof d, "pop"); unsigned char *p = sblist_pop(l);
		if(!mn) VP_CHECK(!p, "pop on an empty list returned an item");
		else { bytes_of(m[mn-1], tmp2); VP_CHECK(p && !memcmp(p, tmp2, IS), "pop returned the wrong item"); mn--; } break; }
	case O_SORT: snprintf(d, sizeof d, "sort"); if(mn) { sblist_sort(l, cmp_bytes); qsort(m, mn, sizeof *m, m_cmp); } break;
	case O_GROW: snprintf(d, sizeof d, "grow_if_needed"); r = sblist_grow_if_needed(l); VP_CHECK(r == 1, "grow_if_needed returned %d", r); break;
	case O_INS_OOR1: snprintf(d, sizeof d, "insert at %zu of %zu", mn + 1, mn); r = sblist_insert(l, item(id), mn + 1); VP_CHECK(r == 0, "insert past the end returned %d", r); break;
	case O_INS_OOR2: snprintf(d, sizeof d, "insert at -1"); r = sblist_insert(l, item(id), (size_t)-1); VP_CHECK(r == 0, "insert at -1 returned %d", r); break;
	case O_SET_OOR: snprintf(d, sizeof d, "set at %zu of %zu", mn, mn); r = sblist_set(l, item(id), mn); VP_CHECK(r == 0, "set past the end returned %d", r); break;
	case O_SET_OOR2: snprintf(d, sizeof d, "set at -1"); r = sblist_set(l, item(id), (size_t)-1); VP_CHECK(r == 0, "set at -1 returned %d", r); break;
	case O_DEL_OOR: snprintf(d, sizeof d, "delete at %zu of %zu", mn, mn); sblist_delete(l, mn); break;
	case O_DEL_OOR2: snprintf(d, sizeof d, "delete at -1"); sblist_delete(l, (size_t)-1); break;
	} else {
		pos = o - O_FIXED;
		if(pos <= mn) { snprintf(d, sizeof d, "insert at %zu of %zu", pos, mn); r = sblist_insert(l, item(id), pos); VP_CHECK(r == 1, "%s returned %d", d, r); m_ins(id, pos); }
		else if((pos -= mn + 1) < mn) { snprintf(d, sizeof d, "delete at %zu of %zu", pos, mn); sblist_delete(l, pos); m_del(pos); }
		else { pos -= mn; snprintf(d, sizeof d, "set at %zu of %zu", pos, mn); r = sblist_set(l, item(id), pos); VP_CHECK(r == 1, "%s returned %d", d, r); m[pos] = id; }
	}
	vp_trace("%s -> %zu items", d, mn);
	cmp_all(l, d);
}

enum { NEW_DYN, NEW_STATIC, NEW_ADOPT, NEW_ADOPT_TAIL, NEW_ADOPT_BLK, NEW_SETBLK0, NEW_REUSED, NEW_N };
static const char *newname[] = { "new", "init", "from_data", "from_data with incomplete tail", "from_data+set_blockitems", "new+set_blockitems(0)", "init, filled, free_items, reused" };
static sblist stat;
static sblist *mk(int how, size_t is, size_t blk, size_t n) {
	sblist *l = 0; 
	m_init(is);
	vp_trace("%s: itemsize %zu block %zu prefilled with %zu", newname[how], is, blk, n);
	if(how == NEW_ADOPT || how == NEW_ADOPT_TAIL || how == NEW_ADOPT_BLK) {
		size_t tail = how == NEW_ADOPT_TAIL ? is - 1 : 0;
		char *d = malloc(n * is + tail);
		for(size_t i = 0; i < n; i++) { uint32_t id = ++idc; memcpy(d + i * is, item(id), is); m_ins(id, mn); }
		l = sblist_new_from_data(is, d, n * is + tail);
		VP_CHECK(l, "sblist_new_from_data returned null");
		if(how == NEW_ADOPT_BLK) sblist_set_blockitems(l, blk);
		cmp_all(l, "adopt");
		return l;
	}
	if(how == NEW_DYN || how == NEW_SETBLK0) { l = sblist_new(is, blk); VP_CHECK(l, "sblist_new returned null"); if(how == NEW_SETBLK0) sblist_set_blockitems(l, 0); }
	else { l = &stat; memset(l, 0x5a, sizeof *l); sblist_init(l, is, blk);
		if(how == NEW_REUSED) { for(size_t i = 0; i < n + 2; i++) sblist_add(l, item(i)); sblist_free_items(l); VP_CHECK(sblist_getsize(l) == 0, "free_items left items"); } }
	for(size_t i = 0; i < n; i++) { uint32_t id = ++idc; VP_CHECK(sblist_add(l, item(id)) == 1, "add failed while filling"); m_ins(id, mn); }
	vp_trans(n);
	cmp_all(l, "filled");
	return l;
}
static void drop(sblist *l) { if(l == &stat) { sblist_free_items(l); sblist_free_items(l); VP_CHECK(sblist_getsize(l) == 0, "not empty after free_items"); } else sblist_free(l); }
static void history(int how, size_t is, size_t blk, size_t n, int depth) {
	long live = vp_live();
	sblist *l = mk(how, is, blk, n);
	while(depth--) do_op(l, vp_choose(nops()));
	drop(l);
	VP_LEAKCHECK(live, "after freeing the list");
}
/* A: every configuration, every pair of operations */
static const size_t A_is[] = { 1, 2, 3, 4, 8, 12, 24, 32 }, A_blk[] = { 0, 1, 2, 3, 4, 5, 8 };
static long a_units(void) { return 8 * 7 * 10 * NEW_N; }
static void a_run(long u) { size_t is = A_is[u % 8]; u /= 8; size_t b = A_blk[u % 7]; u /= 7; size_t n = u % 10; u /= 10;
	if((u == NEW_ADOPT || u == NEW_ADOPT_TAIL || u == NEW_SETBLK0) && b != 1) return;  /* block size not used there */
	history(u, is, b, n, 2); }
/* B: deeper from small states */
static long b_units(void) { return 4 * 3 * 3 * 4; }
static void b_run(long u) { static const size_t is[] = { 1, 4, 7, 16 }, bl[] = { 1, 2, 3 }; size_t i = is[u % 4]; u /= 4; size_t b = bl[u % 3]; u /= 3; size_t n = u % 3; u /= 3;
	static const int how[] = { NEW_DYN, NEW_ADOPT, NEW_STATIC, NEW_ADOPT_BLK };
	history(how[u], i, b, n, VP_T(3, n == 0 ? 5 : 4)); }
static long b2_units(void) { return 3; }
static void b2_run(long u) { history(NEW_DYN, u == 0 ? 1 : 8, 1 + u, 0, VP_T(4, 5)); }
/* C: items around and above the page size used for block 0 */
static long c_units(void) { return 7 * 4 * 4; }
static void c_run(long u) { static const size_t is[] = { 1365, 2048, 2049, 4095, 4096, 4097, 9000 }, bl[] = { 0, 1, 2, 3 };
	size_t i = is[u % 7]; u /= 7; size_t b = bl[u % 4]; u /= 4; history(u == 3 ? NEW_ADOPT : NEW_DYN, i, b, u, 2); }
/* D: every length up to the bound, every position, one operation of each kind, then another growth */
static long d_units(void) { return VP_T(140, 300); }
static void d_run(long u) {
	static const size_t bl[] = { 0, 1, 16, 64, 100 };
	static const size_t isz[] = { 1, 4, 5, 8 };
	size_t is = isz[vp_choose(VP_T(2, 4))], b = bl[vp_choose(5)];
	long live = vp_live();
	sblist *l = mk(u % 3 == 0 ? NEW_ADOPT_BLK : NEW_DYN, is, b, u);
	for(size_t p = 0; p <= (size_t)u; p++) {
		do_op(l, O_FIXED + p);                  /* insert at p */
		do_op(l, O_FIXED + mn + 1 + p);         /* delete it again (p < mn here) */
		if(p < mn) do_op(l, O_FIXED + mn + 1 + mn + p);  /* set */
	}
	vp_states_add(0);
	drop(l); VP_LEAKCHECK(live, "after freeing the list");
}
/* E: long lists across 2^8, 2^12, 2^16 */
static long e_units(void) { return 6 * 3 * 3; }
static void e_run(long u) {
	static const size_t at[] = { 255, 256, 4095, 4096, 65535, 65536 };
	static const size_t isz[] = { 1, 8, 3 }, bl[] = { 0, 1000, 256 };
	size_t n = at[u % 6]; u /= 6; size_t is = isz[u % 3]; u /= 3;
	long live = vp_live();
	sblist *l = mk(NEW_DYN, is, bl[u], n);
	size_t ps[] = { 0, 1, n / 2, n - 1, n };
	for(int i = 0; i < 5; i++) {
		do_op(l, O_FIXED + ps[i]); do_op(l, O_ADD); do_op(l, O_FIXED + mn + 1 + ps[i]); do_op(l, O_FIXED + mn + 1 + mn + ps[4-i] - (ps[4-i] == mn)); do_op(l, O_POP);
		do_op(l, O_INS_OOR1); do_op(l, O_DEL_OOR);
	}
	do_op(l, O_SORT);
	drop(l); VP_LEAKCHECK(live, "after freeing the list");
}
/* F: growth history: append one by one, everything compared at each length */
static long f_units(void) { return 12 * 9; }
static void f_run(long u) {
	size_t is = 1 + u % 12; size_t bl[] = { 0, 1, 2, 3, 7, 16, 17, 33, 500 }; size_t b = bl[u / 12];
	long live = vp_live();
	sblist *l = mk(NEW_DYN, is, b, 0);
	for(int i = 0; i < VP_T(220, 600); i++) do_op(l, i & 1 ? O_ADDI : O_ADD);
	while(mn) do_op(l, mn % 3 ? O_POP : O_FIXED + mn + 1 + mn / 2);
	do_op(l, O_POP); do_op(l, O_ADD);
	drop(l); VP_LEAKCHECK(live, "after freeing the list");
}
/* long growth: append, or insert at the front or in the middle, one by one across 2^8, 2^12, 2^16; the newest item, its neighbours and
   the ends compared at each length, everything at the powers of two and at the end */
static long f2_units(void) { return 3 * 14 * 2 * 3; }
static void f2_run(long u) {
	static const size_t isz[] = { 1, 8, 3 }, bl[] = { 0, 1, 2, 3, 5, 8, 15, 16, 17, 32, 64, 100, 255, 1000 };
	size_t is = isz[u % 3]; u /= 3; size_t b = bl[u % 14]; u /= 14; int how = u % 2 ? NEW_ADOPT_BLK : NEW_DYN; int at = u / 2;
	long live = vp_live();
	size_t top = b && b < 16 ? 4200 : b && b < 100 ? 17000 : 66000; if(at) top = top > 4200 ? 4200 : 1100;
	sblist *l = mk(how, is, b, how == NEW_DYN ? 0 : b + 1);
	while(mn < top) {
		uint32_t id = ++idc; size_t p = at == 0 ? mn : at == 1 ? 0 : mn / 2;
		int r = at ? sblist_insert(l, item(id), p) : sblist_add(l, item(id)); VP_CHECK(r == 1, "adding item %zu returned %d", mn, r); m_ins(id, p); vp_trans(1);
		VP_CHECK(sblist_getsize(l) == mn, "length %zu, must be %zu", (size_t)sblist_getsize(l), mn);
		size_t ps[] = { p, p ? p - 1 : 0, p + 1 < mn ? p + 1 : p, 0, mn - 1, mn / 2 };
		for(int i = 0; i < 6; i++) { bytes_of(m[ps[i]], tmp2); void *x = sblist_get(l, ps[i]); VP_CHECK(x && !memcmp(x, tmp2, is), "item %zu of %zu holds the wrong bytes", ps[i], mn); }
		if(!(mn & (mn - 1)) || !(mn & (mn + 1)) || mn % 1000 == 0) cmp_all(l, "growing");
	}
	cmp_all(l, "grown");
	drop(l); VP_LEAKCHECK(live, "after freeing the list");
}
/* G: stored pointers */
static long g_units(void) { return counts_count(); }
static void g_run(long u) {
	long live = vp_live();
	int wr = vp_choose(3); size_t n = counts_get(u);
	int nulls = n > 5000 ? (int)(n % 2) : vp_choose(3);   /* none, every second, all */
	sblist *l = wr == 0 ? sblist_new(sizeof(char*), 4) : wr == 1 ? sptrlist_new(3) : stringlist_new(2);
	char **q = vp_buf((n + 1) * sizeof *q);
	for(size_t i = 0; i < n; i++) {
		char b[32]; sprintf(b, "value %zu", i);
		int nul = nulls == 2 || (nulls == 1 && i % 2);
		q[i] = nul ? 0 : strdup(b); int r;
		if(wr == 0) r = sblist_add(l, &q[i]);
		else if(wr == 1) { void *x = q[i]; r = sptrlist_add(l, x); }
		else if(nul) r = stringlist_add(l, q[i]);
		else { r = stringlist_add_dup(l, b); free(q[i]); q[i] = stringlist_get(l, i); VP_CHECK(q[i] && q[i] != b && !strcmp(q[i], b), "stringlist_add_dup stored %s", vp_shows(q[i])); }
		VP_CHECK(r == 1, "add returned %d", r);
		vp_trans(1);
	}
	VP_CHECK(sblist_getsize(l) == n, "size %zu, must be %zu", (size_t)sblist_getsize(l), n);
	VP_CHECK(sptrlist_get_count(l) == n && stringlist_getsize(l) == n, "wrapper size");
	for(size_t i = 0; i < n; i++) {
		VP_CHECK(*(char**)sblist_get(l, i) == q[i], "stored pointer %zu changed", i);
		VP_CHECK(sptrlist_get(l, i) == q[i], "sptrlist_get(%zu)", i);
		VP_CHECK(stringlist_get(l, i) == q[i], "stringlist_get(%zu)", i);
	}
	VP_CHECK(stringlist_get(l, n) == 0 && stringlist_get(l, -1) == 0, "stringlist_get past the end");
	size_t k = 0; char *s;
	{ stringlist_foreach(l, s) { VP_CHECK(k < n && s == q[k], "stringlist_foreach at %zu", k); k++; } VP_CHECK(k == n, "stringlist_foreach visited %zu of %zu", k, n); }
	k = 0; stringlist_iter(l, k) VP_CHECK(stringlist_get(l, k) == q[k], "stringlist_iter");
	VP_CHECK(k == n, "stringlist_iter visited %zu", k);
	char **pp; k = 0;
	sblist_iter(l, pp) { VP_CHECK(k < n && *pp == q[k], "sblist_iter at %zu", k); k++; } VP_CHECK(k == n, "sblist_iter visited %zu of %zu", k, n);
	k = 0; sblist_iter_counter(l, ii, pp) { VP_CHECK(ii == k && *pp == q[k], "sblist_iter_counter"); k++; } VP_CHECK(k == n, "sblist_iter_counter");
	size_t jj; k = 0; sblist_iter_counter2(l, jj, pp) { VP_CHECK(jj == k && *pp == q[k], "sblist_iter_counter2"); k++; } VP_CHECK(k == n, "sblist_iter_counter2");
	ssize_t sj; k = 0;
	sblist_iter_counter2s(l, sj, pp) { VP_CHECK((size_t)sj == k && *pp == q[k], "sblist_iter_counter2s"); k++; } VP_CHECK(k == n, "sblist_iter_counter2s");
	if(n > 1) { /* overwrite and delete through the wrappers */
		void *x = q[0], *y = q[n-1]; VP_CHECK(sptrlist_set(l, y, 0) == 1 && sptrlist_set(l, x, n - 1) == 1, "sptrlist_set"); VP_CHECK(sptrlist_get(l, 0) == y && sptrlist_get(l, n-1) == x, "sptrlist_set content");
		free(sptrlist_get(l, 1 % n)); stringlist_delete(l, 1 % n); n--;
		VP_CHECK(stringlist_getsize(l) == n, "stringlist_delete");
	}
	long before = vp_live(); long nn = 0; for(size_t i = 0; i < n; i++) nn += sptrlist_get(l, i) != 0;
	sblist_free_values(l);
	VP_CHECK(vp_live() == before - nn, "free_values released %ld blocks, must release %ld", before - vp_live(), nn);
	vp_trace("%zu pointers, %ld non-null, freed", n, nn);
	vp_state(vp_mix(vp_mix(n, nn), wr));
	sblist_free(l);
	VP_LEAKCHECK(live, "after freeing values and list");
	sblist_free(0); sblist_free_items(0); sblist_init(0, 4, 4);
}
/* H: sort, all multisets in all orders */
static long h_units(void) { return 7 * 4; }
static void h_run(long u) {
	static const size_t isz[] = { 1, 4, 8, 13 };
	size_t n = u % 7, is = isz[u / 7]; long live = vp_live();
	int k = VP_T(n > 5 ? 3 : 4, 5);
	m_init(is); sblist *l = sblist_new(is, 2);
	for(size_t i = 0; i < n; i++) { uint32_t id = vp_choose(k); sblist_add(l, item(id)); m_ins(id, mn); }
	cmp_all(l, "filled"); do_op(l, O_SORT); vp_trans(1);
	do_op(l, O_ADD);
	drop(l); VP_LEAKCHECK(live, "after freeing the list");
}
/* I: the wrappers' own operations, all histories; what is stored is told apart by address, length and value */
static char wtext[64];
static int w_cmp(const void *a, const void *b) { const stringptr *x = a, *y = b; return x->size < y->size ? -1 : x->size > y->size; }
static void w_same(int wr, sblist *l) {
	VP_CHECK(sblist_getsize(l) == mn, "length %zu, must be %zu", (size_t)sblist_getsize(l), mn);
	uint64_t h = wr;
	for(size_t i = 0; i < mn; i++) {
		char *e = wtext + m[i]; h = vp_mix(h, m[i]);
		if(wr < 2) VP_CHECK(sptrlist_get(l, i) == (void*)e, "sptrlist_get(%zu) of %zu", i, mn);
		else if(wr == 2) VP_CHECK(stringlist_get(l, i) == e, "stringlist_get(%zu) of %zu", i, mn);
		else if(wr == 3) { stringptr *s = stringptrlist_get(l, i); VP_CHECK(s && s->ptr == e && s->size == m[i] + 1, "stringptrlist_get(%zu) of %zu", i, mn); }
		else { stringptrv *s = kv_get(l, i); VP_CHECK(s && s->ptr == e && s->size == m[i] + 1 && s->value == e + 1, "kv_get(%zu) of %zu", i, mn); }
	}
	if(wr == 2) VP_CHECK(!stringlist_get(l, mn), "stringlist_get past the end");
	if(wr == 3) VP_CHECK(!stringptrlist_get(l, mn) && stringptrlist_getsize(l) == mn && !!stringptrlist_empty(l) == !mn, "stringptrlist_get past the end, length or emptiness");
	if(wr == 4) VP_CHECK(!kv_get(l, mn) && kv_getsize(l) == mn, "kv_get past the end, or length");
	if(wr < 2) VP_CHECK(sptrlist_get_count(l) == mn, "sptrlist_get_count");
	vp_state(h); vp_trans(1);
}
static long i_units(void) { return 5 * 3; }
static void i_run(long u) {
	int wr = u % 5; static const size_t blk[] = { 1, 2, 5 }; size_t B = blk[u / 5]; long live = vp_live(); int D = VP_T(5, 6);
	sblist st, *l = wr == 0 ? sptrlist_new(B) : wr == 1 ? (sptrlist_init(&st, B), &st) : wr == 2 ? stringlist_new(B) : wr == 3 ? stringptrlist_new(B) : kv_new(B);
	mn = 0; uint32_t id = 0;
	for(int k = 0; k < D; k++) {
		/* append, overwrite anywhere (and one past), insert anywhere, delete anywhere, sorted insertion */
		int sorted = wr == 3; for(size_t i = 1; i < mn; i++) if(m[i - 1] > m[i]) sorted = 0;
		int o = vp_choose(1 + (int)mn + 1 + (int)mn + 1 + (int)mn + 2 * sorted), r; char *e = wtext + ++id; void *ev = e;
		if(o == 0) { vp_trace("append"); r = wr < 2 ? sptrlist_add(l, ev) : wr == 2 ? stringlist_add(l, e) : wr == 3 ? stringptrlist_add(l, e, id + 1) : kv_add(l, e, id + 1, e + 1); VP_CHECK(r == 1, "append returned %d", r); m[mn++] = id; }
		else if((o -= 1) <= (int)mn) { vp_trace("overwrite %d of %zu", o, mn); r = wr < 2 ? sptrlist_set(l, ev, o) : wr == 2 ? sblist_set(l, &e, o) : wr == 3 ? stringptrlist_set(l, o, e, id + 1) : kv_set(l, o, e, id + 1, e + 1); VP_CHECK(r == (o < (int)mn), "overwriting %d of %zu returned %d", o, mn, r); if(o < (int)mn) m[o] = id; }
		else if((o -= mn + 1) <= (int)mn) { vp_trace("insert at %d of %zu", o, mn); if(wr < 2) r = sblist_insert(l, &ev, o); else if(wr == 2) r = sblist_insert(l, &e, o); else if(wr == 3) { r = stringptrlist_insert(l, o, e, id + 1); } else r = sblist_insert(l, SPVMAKE(e, id + 1, e + 1), o); VP_CHECK(r == 1, "inserting at %d of %zu returned %d", o, mn, r); m_ins(id, o); }
		else if((o -= mn + 1) < (int)mn) { vp_trace("delete %d of %zu", o, mn); if(wr == 2) stringlist_delete(l, o); else sblist_delete(l, o); m_del(o); }
		else { o -= mn; uint32_t x = o ? 0 : id; e = wtext + x; size_t p = 0; while(p < mn && m[p] < x) p++; vp_trace("sorted insertion of %u", x); ssize_t z; z = stringptrlist_insert_sorted(l, e, x + 1, w_cmp); VP_CHECK(z >= 0 && (size_t)z <= mn && (!z || m[z - 1] <= x) && ((size_t)z == mn || m[z] >= x), "sorted insertion at %zd", z); m_ins(x, z); }
		w_same(wr, l);
	}
	if(wr == 1) sptrlist_free_items(l); else if(wr == 0) sptrlist_free(l); else if(wr == 2) stringlist_free(l); else if(wr == 3) stringptrlist_free(l); else kv_free(l);
	VP_LEAKCHECK(live, "after freeing the list");
}
const vp_scenario vp_scenarios[] = {
	{ "pairs", a_units, a_run, "every creation mode x item size {1,2,3,4,8,12,24,32} x block {0,1,2,3,4,5,8} x starting length 0..9: all sequences of 2 operations at all positions" },
	{ "deep", b_units, b_run, "small starting states: all sequences of 3 (thorough 4-5) operations" },
	{ "deepest", b2_units, b2_run, "empty list: all sequences of 4 (thorough 5) operations" },
	{ "bigitems", c_units, c_run, "item sizes around the page size, blocks 0..3: all pairs of operations" },
	{ "positions", d_units, d_run, "every length to 139 (thorough 299) x every position: insert, delete, overwrite" },
	{ "long", e_units, e_run, "lengths at 2^8, 2^12, 2^16: operations at boundary positions" },
	{ "growth", f_units, f_run, "item sizes 1..12 x 9 blocks: append one by one to 220 (600), shrink to empty" },
	{ "longgrowth", f2_units, f2_run, "3 item sizes x 14 blocks x 2 creation modes: append one by one to 4200 .. 66000, insert at the front and in the middle to 1100 .. 4200" },
	{ "pointers", g_units, g_run, "pointer and string lists of 0..300 entries and around the powers of two and ten to 2^17, all null patterns, iteration macros, freeing of values" },
	{ "wrappers", i_units, i_run, "pointer list (new, init), string list, stringptr list, key/value list x 3 blocks: all histories of 5 (6) of their own operations at all positions" },
	{ "sort", h_units, h_run, "all sequences of length <=6 over 3-5 values, sorted" },
	{ 0 }
};
