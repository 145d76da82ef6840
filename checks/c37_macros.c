/* C37: the macros of the public headers, with every form of argument expression and at every kind of place, over all small values. */
#include "engine.h"
#include <limits.h>
#include "macros.h"
#include "endianness.h"
#include "bitarray.h"
#include "strlib.h"
#include "stringptr.h"
#include "stringptrlist.h"
#include "stringlist.h"
#include "sptrlist.h"
#include "kvlist.h"
#include "tglist.h"
#include "tgilist.h"
#include "bmap.h"
#include "hbmap.h"
#include "vario.h"
#include "logger.h"
const char vp_property[] = "C37";
/* every form an argument can take whose operators bind weaker or stronger than those inside a macro */
#define FORMS1(B, x, y) B(x) B(x + y) B(x - y) B(x * y) B(x | y) B(x ^ y) B(x & y) B(x >> (y & 7)) B(x ? y : 7) B(y < 2 ? x : y) B(x == y) B(x < y) B(x && y) B(x || y) B(-x) B(!x) B(~x) B(*&x) B(tmp1 = x) B(tmp1 += 0, x)
#define FORMS2(B, x, y) B(x) B(x + y) B(x - y) B(x * y) B(x | y) B(x ^ y) B(x & y) B(x >> (y & 7)) B(x ? y : 7) B(y < 2 ? x : y) B(x == y) B(x < y) B(x && y) B(x || y) B(-x) B(!x) B(~x) B(*&x) B(tmp2 = x)
static int tmp1, tmp2;
/* a form containing a comma cannot be passed on as one argument: it is used in parentheses, as a caller would */
#define ONE(...) (__VA_ARGS__)
/* ---- two numbers ---- */
static const int NV[] = { -3, -2, -1, 0, 1, 2, 3, 5 };
static long a_units(void) { return 8 * 8; }
static void a_run(long u) {
	int a = NV[u % 8], b = NV[u / 8];
	for(int i = 0; i < 8; i++) for(int j = 0; j < 8; j++) { int c = NV[i], d = NV[j]; vp_trace("a=%d b=%d c=%d d=%d", a, b, c, d);
#define PAIR(E2) { int w = (E2), mn = v < w ? v : w, mx = v > w ? v : w; \
	VP_CHECK(MIN(e1(), E2) == mn && MIN(E2, e1()) == mn && MAX(E2, e1()) == mx && MAX(e1(), E2) == mx, "MIN/MAX with %s", #E2); \
	VP_CHECK(2 * MIN(E2, v) + 1 == 2 * mn + 1 && -MAX(E2, v) == -mx && (MIN(v, E2) == mn) && MIN(MAX(E2, v), E2) == w && 10 - MAX(v, E2) == 10 - mx, "MIN/MAX with %s inside an expression", #E2); vp_trans(9); }
#define e1() v
#define OUT(...) { int v = (__VA_ARGS__); (void)v; VP_CHECK(MIN(ONE(__VA_ARGS__), d) == (v < d ? v : d), "MIN with %s", #__VA_ARGS__); FORMS2(PAIR, c, d) }
		FORMS1(OUT, a, b)
#undef OUT
#define X2(E2) { int w = (E2); VP_CHECK(MIN(a | b, E2) == MIN((a | b), w) && MAX(a ? b : 4, E2) == MAX((a ? b : 4), w) && MIN(E2, a == b) == MIN(w, (a == b)) && MAX(tmp1 = a, E2) == MAX((a), w) && MAX(a & b, E2) == MAX((a & b), w) && MIN(E2, a - b) == MIN(w, (a - b)), "MIN/MAX with %s", #E2); vp_trans(6); }
		FORMS2(X2, c, d)
		vp_states_add(1); }
}
/* ---- one number ---- */
static long b_units(void) { return 40; }
static void b_run(long u) {
	static const uint32_t W[] = { 0, 1, 2, 0x7f, 0x80, 0xff, 0x100, 0x1234, 0x7fff, 0x8000, 0xffff, 0x10000, 0x123456, 0xff0000, 0x7fffffff, 0x80000000, 0xdeadbeef, 0xff000000, 0xfffffffe, 0xffffffff };
	for(int i = 0; i < VP_N(W); i++) { uint32_t x = W[u % 20], y = u / 20 ? ~W[i] : W[i]; vp_trace("x=%x y=%x", x, y);
#define REF32(v) ((uint32_t)(v) >> 24 | ((uint32_t)(v) >> 8 & 0xff00) | ((uint32_t)(v) << 8 & 0xff0000) | (uint32_t)(v) << 24)
#define REF16(v) ((uint16_t)((uint16_t)(v) >> 8 | (uint16_t)(v) << 8))
#define NUMB(E) { uint32_t v = (E); VP_CHECK(byteswap32(E) == REF32(v) && le32(E) == v && (uint16_t)byteswap16(E) == REF16(v) && (uint16_t)le16(E) == (uint16_t)v, "byteswap of %s", #E); \
	VP_CHECK(~byteswap32(E) == ~REF32(v) && (byteswap32(E) ^ 0u) == REF32(v) && (byteswap32(E) & 0xff) == v >> 24 && byteswap32(byteswap32(E)) == v && le32(E) * 1 == v, "byteswap of %s inside an expression", #E); \
	uint64_t q = (uint64_t)(E) << 32 | 0x01020304; VP_CHECK(byteswap64((uint64_t)(E) << 32 | 0x01020304) == ((uint64_t)0x04030201 << 32 | REF32(q >> 32)), "byteswap64 of %s", #E); vp_trans(10); }
		NUMB(x) NUMB(x + y) NUMB(x - y) NUMB(x * y) NUMB(x | y) NUMB(x ^ y) NUMB(x & y) NUMB(x >> 3) NUMB(x ? y : 7u) NUMB(y < 2 ? x : y) NUMB(-x) NUMB(~x) NUMB(*&x)
		size_t s = x & 0xffff, t = y & 0xff;
#define SIZ(E) { size_t v = (E); VP_CHECK(BA_SIZE_REQUIRED(E) == (v + 7) / 8 && 2 * BA_SIZE_REQUIRED(E) + 1 == 2 * ((v + 7) / 8) + 1 && BA_SIZE_REQUIRED(E) % 4 == (v + 7) / 8 % 4, "BA_SIZE_REQUIRED of %s", #E); \
	VP_CHECK(BASE64ENC_BYTES(E) == (v + 2) / 3 * 4 && BASE64ENC_BUFSIZE(E) == (v + 2) / 3 * 4 + 1 && BASE64DEC_BYTES(E) == v / 4 * 3 && BASE64DEC_BUFSIZE(E) == v / 4 * 3 + 1, "base64 sizes of %s", #E); \
	VP_CHECK(2 * BASE64ENC_BUFSIZE(E) == 2 * ((v + 2) / 3 * 4 + 1) && 2 * BASE64DEC_BUFSIZE(E) == 2 * (v / 4 * 3 + 1) && BASE64ENC_BYTES(E) / 4 == (v + 2) / 3 && 100 % (BASE64DEC_BYTES(E) + 1) == 100 % (v / 4 * 3 + 1) && BASE64ENC_BUFSIZE(E) % 4 == 1, "base64 sizes of %s inside an expression", #E); vp_trans(12); }
		SIZ(s) SIZ(s + t) SIZ(s * t) SIZ(s | t) SIZ(s ^ t) SIZ(s & t) SIZ(s >> 3) SIZ(s ? t : 7) SIZ(t < 2 ? s : t) SIZ(s == t) SIZ(s && t) SIZ(*&s) SIZ(s = s) SIZ(s % (t + 1)) SIZ(s << 1)
		vp_states_add(1); }
}
/* ---- bits: index and array as expressions ---- */
static long c_units(void) { return 24; }
static void c_run(long u) {
	unsigned char *a = vp_buf(3), *other = vp_buf(3), *arr[2] = { other, a }, **pp = &arr[1]; 
	for(size_t y = 0; y < 24; y++) for(int w = 0; w < 8; w++) { size_t x = u; memset(a, w & 1 ? 0xff : 0x5a, 3); memset(other, w & 1 ? 0 : 0xa5, 3); vp_trace("index %zu and %zu", x, y);
#define AB(A, E) { size_t v = (E); if(v < 24) { unsigned char o[3]; memcpy(o, a, 3); int bit = o[v / 8] >> v % 8 & 1; VP_CHECK(BA_GET(A, E) == bit && !BA_GET(A, E) == !bit && BA_GET(A, E) + 1 == bit + 1 && BA_GET_SWAPPED(A, E) == (o[v / 8] >> (7 - v % 8) & 1), "bit %s of %s", #E, #A); VP_CHECK(!memcmp(a, o, 3), "reading changes"); \
	if(w < 2) BA_SET_TRUE(A, E); else BA_SET_FALSE(A, E); o[v / 8] = (o[v / 8] & ~(1 << v % 8)) | (w < 2) << v % 8; VP_CHECK(!memcmp(a, o, 3), "BA_SET_TRUE/FALSE(%s, %s)", #A, #E); if(w & 2) BA_SET(A, E, w & 1 ? w & 4 : w & 2); else BA_SET(A, E, w > 3 || x == y); int to = w & 2 ? (w & 1 ? w & 4 : w & 2) : (w > 3 || x == y); o[v / 8] = (o[v / 8] & ~(1 << v % 8)) | !!to << v % 8; VP_CHECK(!memcmp(a, o, 3), "BA_SET(%s, %s) to %d", #A, #E, to); vp_trans(6); } }
#define IX(E) AB(a, E) AB(x + 1 ? a : other, E) AB(*pp, E) AB(arr[1], E) AB(a + 0, E)
		IX(x) IX(x + y) IX(x - y) IX(x | y) IX(x ^ y) IX(x & y) IX(x >> 1) IX(x ? y : 7) IX(y < 2 ? x : y) IX(x == y) IX(*&x) IX(x % (y + 1)) vp_states_add(1); }
	vp_buf_reset();
}
/* ---- strings ---- */
static long d_units(void) { return 6 * 6; }
static void d_run(long u) {
	static char *T[] = { "", "a", "ab", "abc", "a\n", "ab\r\n" }; size_t n1 = strlen(T[u % 6]), n2 = strlen(T[u / 6]); vp_trace("%s, %s", vp_shows(T[u % 6]), vp_shows(T[u / 6]));
	stringptr arr[3] = { { T[u % 6], n1 }, { T[u / 6], n2 }, { "x", 1 } }, *p = arr, *q = arr + 1, **pp = &p, *nul = 0; char *s = T[u % 6], *t = T[u / 6]; int c = u & 1; static const char *WHY = "accessor macro with %s";
#define ACC(E) { stringptr *v = (E); VP_CHECK(stringptr_getsize(E) == v->size && stringptr_get(E) == v->ptr && !!stringptr_empty(E) == !v->size && stringptr_getsize_s(E) == v->size && stringptr_get_s(E) == v->ptr && !!stringptr_empty_s(E) == !v->size, WHY, #E); \
	VP_CHECK(stringptr_getsize(E) * 2 + 1 == v->size * 2 + 1 && 1 + stringptr_getsize_s(E) == 1 + v->size && stringptr_getsize_s(E) * 3 == v->size * 3 && !stringptr_empty(E) == !!v->size && !stringptr_empty_s(E) == !!v->size && *stringptr_get(E) == *v->ptr && *stringptr_get_s(E) == *v->ptr && stringptr_get_s(E)[0] == v->ptr[0], WHY, #E); vp_trans(14); }
	ACC(p) ACC(q) ACC(p + 1) ACC(arr) ACC(arr + 2) ACC(&arr[c]) ACC(c ? p : q) ACC(c == 0 ? q : p) ACC(*pp) ACC(1 + *pp) ACC(q - 1) ACC(nul ? nul : q) ACC(p = arr) ACC((stringptr*)p)
#define NUL(E) VP_CHECK(stringptr_getsize_s(E) == 0 && stringptr_get_s(E) == 0 && stringptr_empty_s(E) && stringptr_getsize_s(E) + 1 == 1 && !stringptr_empty_s(E) == 0, WHY, #E);
	NUL(nul) NUL(c ? nul : SPNIL) NUL(SPNIL) NUL((stringptr*)0) NUL(p == q ? p : nul) NUL(nul = 0)
	/* constructors */
	stringptr lit = SPINITIALIZER("four"), made = SP_INIT(s, c ? n1 : n1 + 0), *l1 = SPLITERAL("con" "cat"), *l2 = SPL("zero\0in"), *m = SPMAKE(c ? s : t, c ? n1 : n2), arrlit[] = { SPINITIALIZER(""), SPINITIALIZER("b"), SP_INIT(t, n2) }; SPDECLAREC(dc, c ? s : t); static char st[8] = "1234567";
	VP_CHECK(lit.size == 4 && !memcmp(lit.ptr, "four", 5) && made.ptr == s && made.size == n1 && l1->size == 6 && !memcmp(l1->ptr, "concat", 7) && l2->size == 7 && !memcmp(l2->ptr, "zero\0in", 8) && m->ptr == (c ? s : t) && m->size == (c ? n1 : n2) && arrlit[0].size == 0 && arrlit[1].size == 1 && *arrlit[1].ptr == 'b' && arrlit[2].ptr == t && arrlit[2].size == n2 && dc->ptr == (c ? s : t) && dc->size == (c ? n1 : n2) && (SPLITERAL(st))->size == 7, "constructor macros");
	VP_CHECK(SPNIL == 0 && !!EQ(c ? p : q, c ? q : p) == (n1 == n2 && !memcmp(s, t, n1)) && EQ(p, p) && !!EQ(SPMAKE(s, n1), SPMAKE(t, n2)) == (n1 == n2 && !memcmp(s, t, n1)), "EQ");
	stringptr *d = SDUP(c ? p : q); size_t dn = d->size, want = 0; VP_CHECK(dn == (c ? n1 : n2) && !memcmp(d->ptr, c ? s : t, dn + 1), "SDUP"); while(want < dn && (d->ptr[dn - 1 - want] == '\n' || d->ptr[dn - 1 - want] == '\r')) want++; size_t g = CHOMP(c ? d : d + 0); VP_CHECK(g == want && d->size == dn - want, "CHOMP cuts %zu of %s", g, vp_shows(c ? s : t));
	stringptr *dd[2] = { d, stringptr_copy(q) }; if(c) stringptr_free(dd[c]); else stringptr_free(dd[0]); VP_CHECK(!dd[c] && dd[!c], "stringptr_free leaves the pointer"); stringptr_free(*(dd + !c)); VP_CHECK(!dd[0] && !dd[1], "stringptr_free"); stringptr_free(nul);
	/* comparison helpers */
	VP_CHECK((mem_equal(s, t, n1 < n2 ? n1 : n2)) == !memcmp(s, t, n1 < n2 ? n1 : n2) && (str_equal(c ? s : t, c ? t : s)) == !strcmp(s, t) && !mem_equal(c ? s : t, c ? s : t, n1 & n2) == 0 && !str_equal(s, t) == !!strcmp(s, t) && str_equal(s + 0, s) + 1 == 2 && mem_equal(s, c ? s : s, n1 | 0) * 5 == 5, "mem_equal, str_equal");
	VP_CHECK(strlitlen("") == 0 && strlitlen("abc") == 3 && strlitlen("a" "bc" "d") == 4 && strlitlen("x\0y") == 3 && 2 * strlitlen("abc") == 6 && strlitlen("ab") * 3 == 6 && 10 - strlitlen("ab") == 8 && strlitlen(st) == 7, "strlitlen");
	int ia[7]; long la[3][5]; VP_CHECK(ARRAY_SIZE(ia) == 7 && ARRAY_SIZE(la) == 3 && ARRAY_SIZE(la[1]) == 5 && ARRAY_SIZE(*la) == 5 && 100 / ARRAY_SIZE(la[c]) == 20 && ARRAY_SIZE(T) * 2 == 12 && ARRAY_SIZE(*(la + c)) == 5 && 7 % ARRAY_SIZE(la) == 1 && WORD_SIZE == sizeof(void*) && WORD_SIZE * 2 == 2 * sizeof(void*), "ARRAY_SIZE"); (void)ia;
	vp_trans(30); vp_states_add(1);
}
/* ---- tagged log arguments: every form, through log_put ---- */
static long e_units(void) { return 64; }
static void e_run(long u) {
	int a = NV[u % 8], b = NV[u / 8], fd = memfd_create("v", 0); char e[400], g[400]; stringptr S1 = { "one", 3 }, S2 = { "second", 6 }, *sp[2] = { &S1, &S2 }; long L = a * 5000000000L; unsigned long U = (unsigned long)b * 3; vp_trace("a=%d b=%d", a, b);
#define LG(E, F) { int v = (E); if(ftruncate(fd, 0) || lseek(fd, 0, SEEK_SET)) vp_fail("memfd"); log_put(fd, VARII(E), VARISL("|"), VARIU((unsigned)(E)), VARISL("|"), VARIL(L | (E)), VARISL("|"), VARIUL(U ^ (unsigned long)(E)), VARISL("|"), VARIC(a < (E) ? "lt" : "ge"), VARICC(b ? "nz" : "z"), VARIS((E) ? sp[0] : sp[1]), VARIS(sp[(E) & 1]), VNIL); \
	int n = snprintf(e, sizeof e, "%d|%u|%ld|%lu|%s%s%s%s\n", v, (unsigned)v, L | v, U ^ (unsigned long)v, a < v ? "lt" : "ge", b ? "nz" : "z", v ? "one" : "second", v & 1 ? "second" : "one"); ssize_t r = pread(fd, g, sizeof g, 0); VP_CHECK(r == n && !memcmp(g, e, n), "log_put with %s: %s, must be %s", F, vp_show(g, r < 0 ? 0 : r), vp_shows(e)); vp_trans(8); }
#define LG2(E) LG(E, #E)
	FORMS2(LG2, a, b)
	close(fd); vp_states_add(1);
}
/* ---- lists: list, index and value as expressions; every result used inside an expression ---- */
typedef tglist(int) ilist; typedef tgilist(int, size_t) xlist;
static int icmp(const void *a, const void *b) { return *(const int*)a - *(const int*)b; }
static long f_units(void) { return 5 * 5; }
static void f_run(long u) {
	int n = u % 5 + 1, x = u / 5 % n, y, c = u & 1; long live = vp_live(); static char TX[64];
	for(y = 0; y < n; y++) {
		vp_trace("%d items, x=%d y=%d", n, x, y);
		sblist *l = sptrlist_new(c ? n : 2), *o = stringptrlist_new(c + 1), *k = kv_new(c | 2), *s = stringlist_new(c ? 1 : 3), *ls[4] = { l, o, k, s }; ilist tl, *t = &tl; tglist_init(t); xlist xl, *z = &xl; tgilist_init(z); void *ptrs[8]; char *strs[8];
		for(int i = 0; i < n; i++) { ptrs[i] = TX + i; strs[i] = TX + 2 * i; VP_CHECK(sptrlist_add(c ? l : ls[0], ptrs[i + 0]) == 1 && sptrlist_get_count(l) == i + 1u && stringptrlist_add(c ? o : ls[1], c ? TX + i : TX + i, i | 8) + 1 == 2 && kv_add(ls[1 + 1], TX + i, c ? i : i + 0, i & 1 ? TX : TX + 1) && stringlist_add(*(ls + 3), *(strs + i)) && tglist_add(c ? t : &tl, c ? i * 10 : i * 10) && tgilist_add(z, i * 10 | 0), "adding to lists"); }
#define I(E) { size_t v = (E); if(v < (size_t)n) { \
	VP_CHECK(sptrlist_get(l, E) == TX + v && (char*)sptrlist_get(ls[0], E) + 1 == TX + v + 1 && stringptrlist_get(o, E)->ptr == TX + v && stringptrlist_get(c ? o : ls[1], E)->size == (v | 8) && kv_get(k, E)->ptr == TX + v && kv_get(ls[2], E)->size == v && kv_get(k, E)->value == (v & 1 ? TX : TX + 1) && stringlist_get(s, E) == TX + 2 * v && tglist_get(t, E) == (int)v * 10 && tglist_get(&tl, E) + 1 == (int)v * 10 + 1 && tgilist_get(z, E) == (int)v * 10 && -tgilist_get(c ? z : &xl, E) == -(int)v * 10, "item %s", #E); \
	void *nv = TX + 40; VP_CHECK(sptrlist_set(l, nv, E) == 1 && sptrlist_get(l, v) == nv && sptrlist_set(ls[0], ptrs[v], E) && stringptrlist_set(o, E, c ? TX + 50 : TX + 50, x ^ y) == 1 && stringptrlist_get(o, v)->ptr == TX + 50 && stringptrlist_get(o, v)->size == (size_t)(x ^ y) && stringptrlist_set(o, E, TX + v, v | 8) && kv_set(k, E, TX + 9, x | y, c ? TX : 0) && kv_get(k, v)->ptr == TX + 9 && kv_get(k, v)->size == (size_t)(x | y) && kv_get(k, v)->value == (c ? TX : 0) && kv_set(k, E, TX + v, v, v & 1 ? TX : TX + 1), "overwriting item %s", #E); \
	VP_CHECK(tglist_set(t, x | 64, E) && tglist_get(t, v) == (x | 64) && tglist_set(&tl, c ? 5 : 6, E) && tglist_get(t, v) == (c ? 5 : 6) && tglist_set(t, (int)v * 10, E) && tgilist_set(z, c ? 5 : 6, E) && tgilist_get(z, v) == (c ? 5 : 6) && tgilist_set(z, (int)v * 10, E), "overwriting typed item %s", #E); vp_trans(24); } }
		I(x) I(x + y) I(x - y) I(x | y) I(x ^ y) I(x & y) I(x ? y : 0) I(y < 1 ? x : y) I(x == y) I(x && y) I(!x) I(n - 1 - x) I(x * y) I(tmp1 = y)
		VP_CHECK(sblist_getsize(c ? l : ls[0]) * 2 == 2u * n && 10 - sblist_get_count(*(ls + 1)) == 10u - n && stringptrlist_getsize(ls[0 + 1]) + 1 == n + 1u && kv_getsize(c ? k : ls[2]) % 7 == n % 7u && stringlist_getsize(c ? s : s) == (size_t)n && !sblist_empty(c ? l : o) && !stringptrlist_empty(c ? o : o) && tglist_getsize(c ? t : &tl) * 3 == 3u * n && tglist_get_count(t) == (size_t)n && !tglist_empty(t) && tgilist_getsize(c ? z : &xl) * 2 == 2u * n && !tgilist_empty(z) && tglist_itemsize(t) * 2 == 2 * sizeof(int) && tgilist_itemsize(c ? z : &xl) == sizeof(int), "sizes");
		/* insertion and deletion at an index expression */
#define ID(E) { size_t v = (E); if(v <= (size_t)n) { VP_CHECK(tglist_insert(t, c ? -1 : -2, E) == 1 && tglist_getsize(t) == n + 1u && tglist_get(t, v) == (c ? -1 : -2) && tgilist_insert(z, x | -8, E) && tgilist_get(z, v) == (x | -8), "inserting at %s", #E); int r; r = stringptrlist_insert(o, E, TX + 33, x | y); VP_CHECK(r == 1 && stringptrlist_get(o, v)->ptr == TX + 33 && stringptrlist_get(o, v)->size == (size_t)(x | y) && stringptrlist_getsize(o) == n + 1u, "inserting at %s", #E); \
	tglist_delete(t, E); if(c) tgilist_delete(z, E); else tgilist_delete(&xl, E); sblist_delete(o, E); for(int i = 0; i < n; i++) VP_CHECK(tglist_getsize(t) == (size_t)n && tglist_get(t, i) == i * 10 && tgilist_getsize(z) == (size_t)n && tgilist_get(z, i) == i * 10 && stringptrlist_get(o, i)->ptr == TX + i, "after deleting at %s item %d is wrong", #E, i); vp_trans(6); } }
		ID(x) ID(x + y) ID(x - y) ID(x | y) ID(x ^ y) ID(x & y) ID(x ? y : 0) ID(y < 1 ? x : y) ID(x == y) ID(n - x) ID(x * y) ID(tmp1 = y)
		{ int key = x * 10 + (c ? 1 : 0), arr[2] = { -5, key }; size_t p; p = tglist_insert_sorted(t, arr[c | 1], icmp); VP_CHECK(p <= (size_t)n && tglist_get(t, p) == key, "sorted insertion"); tglist_sort(c ? t : &tl, c ? icmp : icmp); for(int i = 0; i < n; i++) VP_CHECK(tglist_get(t, i) <= tglist_get(t, i + 1), "sorting"); }
		if(c) sptrlist_free(ls[0]); else sptrlist_free(l); if(c) stringptrlist_free(*(ls + 1)); else stringptrlist_free(o); kv_free(c ? k : ls[2]); stringlist_free(c ? s : ls[3]); if(c) tglist_free_items(c ? t : &tl); else tglist_free_items(&tl); if(c) tgilist_free_items(z); else tgilist_free_items(c ? z : &xl); VP_LEAKCHECK(live, "lists"); vp_states_add(1);
	}
}
/* ---- loops: every pair nested, left early, skipped in, as branches of an if, over a list given as an expression ---- */
typedef hbmap(int, int, 3) hm; typedef bmap(int, int) bm;
static unsigned ihash(int a) { return a; }
static int seen[400], ns, exp_[400], ne, brk_, skip;
static int rec(int v) { if(ns < 400) seen[ns++] = v; return v; }
static int ex(int v) { if(ne < 400) exp_[ne++] = v; return v; }
static void same_seq(const char *w) { VP_CHECK(ns == ne && !memcmp(seen, exp_, ns * sizeof *seen), "%s: visits %d items, must be %d (or not these)", w, ns, ne); ns = ne = 0; vp_trans(1); }
static long g_units(void) { return 5 * 5; }
static void g_run(long u) {
	int n = u % 5, m = u / 5; sblist *a = sblist_new(sizeof(int), 2), *b = sblist_new(sizeof(int), 1), *sa = stringlist_new(1), *sb = stringlist_new(4); ilist ta, tb; tglist_init(&ta); tglist_init(&tb); static char *W = "0123456789abcdef"; hm ha, hb; hbmap_init(&ha, icmp, ihash); hbmap_init(&hb, icmp, ihash);
	for(int i = 0; i < n; i++) { int v = i; char *w = W + i; sblist_add(a, &v); stringlist_add(sa, w); tglist_add(&ta, v); hbmap_insert(&ha, v, v); } for(int i = 0; i < m; i++) { int v = 8 + i; char *w = W + v; sblist_add(b, &v); stringlist_add(sb, w); tglist_add(&tb, v); int kk = i; hbmap_insert(&hb, kk, v); }
	sblist *sl[2] = { a, b }, *ss[2] = { sa, sb }; ilist *tt[2] = { &ta, &tb }; hm *hh[2] = { &ha, &hb }; (void)tt; vp_trace("lists of %d and %d items", n, m);
/* kinds: LIST 0 or 1, V the visited value */
#define K0(L, BODY) { int *p; sblist_iter(L ? b : a, p) { int V = *p; BODY } }
#define K1(L, BODY) { int *p; sblist_iter_counter(L ? b : a, ii, p) { int V = *p; VP_CHECK(p == sblist_get(sl[L], ii), "counter"); BODY } }
#define K2(L, BODY) { int *p; size_t ii; sblist_iter_counter2(sl[L], ii, p) { int V = *p; VP_CHECK(p == sblist_get(sl[L], ii), "counter"); BODY } }
#define K3(L, BODY) { int *p; ssize_t ii; sblist_iter_counter2s(*(sl + L), ii, p) { int V = *p; VP_CHECK(p == sblist_get(sl[L], ii), "counter"); BODY } }
#define K4(L, BODY) { size_t ii; stringlist_iter(L ? sb : sa, ii) { int V = stringlist_get(ss[L], ii) - W; BODY } }
#define K5(L, BODY) { char *w; stringlist_foreach(ss[L + 0], w) { int V = w - W; BODY } }
#define K6(L, BODY) { size_t ii; tglist_foreach(L ? &tb : &ta, ii) { int V = tglist_get(L ? &tb : &ta, ii); BODY } }
#define K7(L, BODY) { hbmap_iter ii; hbmap_foreach(L ? &hb : &ha, ii) { int V = hbmap_getval(hh[L], ii); BODY } }
#define ONEK(K) for(brk_ = -1; brk_ < 12; brk_++) for(skip = -1; skip < 12; skip++) { K(0, if(V == brk_) break; if(V == skip) continue; rec(V);) for(int i = 0; i < n; i++) { if(i == brk_) break; if(i == skip) continue; ex(i); } same_seq(#K " with break and continue"); }
	ONEK(K0) ONEK(K1) ONEK(K2) ONEK(K3) ONEK(K4) ONEK(K6)
#define ONEH(K) for(brk_ = -1; brk_ < 12; brk_++) for(skip = -1; skip < 12; skip++) { int got = 0, stop = 0; K(0, if(V == brk_) { stop = 1; break; } if(V == skip) continue; got |= 1 << V;) int all = (1 << n) - 1; if(skip >= 0 && skip < n) all &= ~(1 << skip); VP_CHECK(stop == (brk_ >= 0 && brk_ < n) && (stop ? !(got & ~all) : got == all), #K " with break and continue"); vp_trans(1); }
	ONEH(K5) ONEH(K7)
#define NEST(K, KK) for(brk_ = -1; brk_ < 12; brk_ += 3) { K(0, rec(V); int V0 = V; KK(1, if(V == brk_ + V0) break; rec(100 * V0 + V);) ) for(int i = 0; i < n; i++) { ex(i); for(int j = 8; j < 8 + m; j++) { if(j == brk_ + i) break; ex(100 * i + j); } } same_seq(#K " around " #KK); K(0, int V0 = V; KK(0, rec(100 * V0 + V); ) ) for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) ex(100 * i + j); same_seq(#K " around " #KK " over the same list"); }
#define NESTK(K) NEST(K, K0) NEST(K, K1) NEST(K, K2) NEST(K, K3) NEST(K, K4) NEST(K, K6)
	NESTK(K0) NESTK(K1) NESTK(K2) NESTK(K3) NESTK(K4) NESTK(K6)
	/* nested over several lines, and the bucketed map around and inside */
	{ char *x, *y; int k = 0;
	  stringlist_foreach(sa, x) {
		stringlist_foreach(sb, y) {
			VP_CHECK(x == W + k / (m ? m : 1) && y == W + 8 + k % (m ? m : 1), "nested stringlist_foreach"); k++;
		}
	  } VP_CHECK(k == n * m, "nested stringlist_foreach visits %d", k); }
	{ hbmap_iter x, y; int sum = 0, cnt = 0; hbmap_foreach(&ha, x) hbmap_foreach(&hb, y) { cnt++; sum += 100 * hbmap_getval(&ha, x) + hbmap_getval(&hb, y); } int want = 0; for(int i = 0; i < n; i++) for(int j = 0; j < m; j++) want += 100 * i + 8 + j; VP_CHECK(cnt == n * m && sum == want, "nested hbmap_foreach"); }
	/* branches of an if without braces */
	for(int c = 0; c < 2; c++) { int *p; size_t i; ssize_t j; hbmap_iter h; 
		if(c) sblist_iter(a, p) rec(*p); else rec(-1); if(c) for(int q = 0; q < n; q++) ex(q); else ex(-1); same_seq("sblist_iter in if");
		if(c) sblist_iter_counter(a, q, p) rec(*p); else sblist_iter_counter(b, q, p) rec(*p); if(c) for(int q = 0; q < n; q++) ex(q); else for(int q = 8; q < 8 + m; q++) ex(q); same_seq("sblist_iter_counter in if");
		if(c) sblist_iter_counter2(a, i, p) rec(*p); else sblist_iter_counter2s(b, j, p) rec(*p); if(c) for(int q = 0; q < n; q++) ex(q); else for(int q = 8; q < 8 + m; q++) ex(q); same_seq("counter2 in if");
		if(c) tglist_foreach(&ta, i) rec(i); else stringlist_iter(sb, i) rec(i); for(int q = 0; q < (c ? n : m); q++) ex(q); same_seq("tglist_foreach in if");
		if(c) stringlist_iter(sa, i) rec(i); else rec(-1); if(c) for(int q = 0; q < n; q++) ex(q); else ex(-1); same_seq("stringlist_iter in if");
		if(c) sblist_iter_counter2s(a, j, p) rec(*p); else if(n) tglist_foreach(&ta, i) rec(i); else rec(-2); if(!c && !n) ex(-2); else for(int q = 0; q < n; q++) ex(q); same_seq("sblist_iter_counter2s in if");
		if(n) if(c) stringlist_iter(sb, i) rec(i); else tglist_foreach(&tb, i) rec(i + 100); else rec(-3); if(!n) ex(-3); else for(int q = 0; q < m; q++) ex(c ? q : q + 100); same_seq("loops in nested ifs");
		int k = 0; if(c) hbmap_foreach(&ha, h) k++; else k = -1; VP_CHECK(k == (c ? n : -1), "hbmap_foreach in if");
		if(c) sblist_set_blockitems(a, 4); else sblist_set_blockitems(c ? a : b, m | 1); VP_CHECK(c ? a->blockitems == 4 : b->blockitems == (size_t)(m | 1), "sblist_set_blockitems"); }
	/* deleting while looping, every subset: with the signed counter stepping back */
	for(int mask = 0; mask < 1 << n; mask++) { sblist *d = sblist_new(sizeof(int), 2); for(int i = 0; i < n; i++) sblist_add(d, &i); int *p; ssize_t i; sblist_iter_counter2s(d, i, p) { int v = rec(*p); if(mask >> v & 1) { sblist_delete(d, i); i--; } } for(int q = 0; q < n; q++) ex(q); same_seq("deleting while looping"); int k = 0; for(int q = 0; q < n; q++) if(!(mask >> q & 1)) { VP_CHECK(*(int*)sblist_get(d, k) == q, "item left"); k++; } VP_CHECK(sblist_getsize(d) == (size_t)k, "items left"); sblist_free(d); }
	sblist_free(a); sblist_free(b); stringlist_free(sa); stringlist_free(sb); tglist_free_items(&ta); tglist_free_items(&tb); if(n) hbmap_fini(&ha, 0); else hbmap_fini(n ? &hb : &ha, m & 0); hbmap_fini(hh[1], 0); vp_states_add(1);
}
/* ---- arguments that mention the caller's own variables, whatever these are called ---- */
static int icmp2(const void *a, const void *b) { return icmp(b, a); } static unsigned ihash2(int a) { return a / 2; } static unsigned ihash3(int a) { return 7; }
static int (*const CMP[3])(const void*, const void*) = { icmp, icmp2, icmp }; static unsigned (*const HASH[3])(int) = { ihash, ihash2, ihash3 };
static hm M3[3]; static bm B3[3]; static ilist T3[3]; static xlist Z3[3]; static sblist *L3[3], *S3[3];
#define NAMES(B) B(i) B(j) B(k) B(n) B(m) B(p) B(q) B(l) B(s) B(x) B(y) B(it) B(iter) B(tmp) B(a) B(b) B(c) B(r) B(ret) B(res) B(len) B(nyu) B(lst) B(count) B(size) B(items) B(item) B(itemsize) B(buckets) B(bucket) B(keys) B(key) B(values) B(val) B(value) B(index) B(idx) B(pos) B(h) B(f) B(v) B(w) B(t) B(d) B(e) B(o) B(u) B(z) B(hash) B(map) B(list) B(ptr) B(new) B(old) B(cur) B(next) B(end) B(start) B(bit) B(byte) B(str) B(buf)
#define byindex(N) static void idx_##N(int items_) { size_t N; \
	for(N = 0; N < 3; N++) { hbmap_init(&M3[N], CMP[N], HASH[N]); bmap_init(&B3[N], CMP[N]); tglist_init(&T3[N]); tgilist_init(&Z3[N]); L3[N] = sblist_new(sizeof(int), N + 1); S3[N] = stringlist_new(N + 1); } \
	for(N = 0; N < 3; N++) for(int add_ = 0; add_ < items_; add_++) { int kk_ = add_ * 3 + N, vv_ = kk_ * 2; char *cc_ = "0123456789abcdefghijklmnopqrst" + kk_; hbmap_insert(&M3[N], kk_, vv_); bmap_insert(&B3[N], kk_, vv_); tglist_add(&T3[N], kk_ + N); tgilist_insert(&Z3[N], kk_ + N, 0); sblist_add(L3[N], &kk_); stringlist_add(S3[N], cc_); } \
	for(N = 0; N < 3; N++) { int got_ = 0, kk_, *pp_; char *cc_; hbmap_iter hh_; hbmap_foreach(&M3[N], hh_) { got_++; VP_CHECK(hbmap_getkey(&M3[N], hh_) % 3 == (int)N && hbmap_getval(&M3[N], hh_) == 2 * hbmap_getkey(&M3[N], hh_), "a map indexed by a variable named " #N); } VP_CHECK(got_ == items_ && bmap_getsize(&B3[N]) == (size_t)items_ && tglist_getsize(&T3[N]) == (size_t)items_ && tgilist_getsize(&Z3[N]) == (size_t)items_, "lists indexed by a variable named " #N ": %d items", got_); \
		for(kk_ = N; kk_ < items_ * 3; kk_ += 3) { ssize_t at_ = bmap_find(&B3[N], kk_); VP_CHECK(at_ != -1 && bmap_getkey(&B3[N], at_) == kk_ && *bmap_get(&B3[N], kk_) == 2 * kk_ && hbmap_contains(&M3[N], kk_) && *hbmap_get(&M3[N], kk_) == 2 * kk_ && tglist_get(&T3[N], kk_ / 3) == kk_ + (int)N && tgilist_get(&Z3[N], items_ - 1 - kk_ / 3) == kk_ + (int)N && at_ == (N == 1 ? items_ - 1 - kk_ / 3 : kk_ / 3), "entry of a list indexed by a variable named " #N); } \
		got_ = 0; sblist_iter(L3[N], pp_) { VP_CHECK(*pp_ == got_ * 3 + (int)N, "sblist_iter over a list indexed by " #N); got_++; } VP_CHECK(got_ == items_, "sblist_iter over a list indexed by " #N); got_ = 0; stringlist_foreach(S3[N], cc_) got_++; VP_CHECK(got_ == items_, "stringlist_foreach over a list indexed by " #N); vp_trans(6 + items_); } \
	for(N = 0; N < 3; N++) { hbmap_fini(&M3[N], N & 0); bmap_fini(&B3[N], N & 0); tglist_free_items(&T3[N]); tgilist_free_items(&Z3[N]); sblist_free(L3[N]); stringlist_free(S3[N]); } } \
	static void ptr_##N(int items_) { int add_, kk_; { hm *N = &M3[1]; hbmap_init(N, icmp, ihash); for(add_ = 0; add_ < items_; add_++) hbmap_insert(N, add_, add_); for(add_ = 0; add_ < items_; add_++) VP_CHECK(hbmap_get(N, add_) && *hbmap_get(N, add_) == add_, "map named " #N); hbmap_iter hh_; int got_ = 0; hbmap_foreach(N, hh_) got_++; VP_CHECK(got_ == items_, "map named " #N); if(items_) { kk_ = 0; hbmap_delete(N, hbmap_find(N, kk_)); VP_CHECK(!hbmap_contains(N, kk_), "map named " #N); } hbmap_fini(N, 0); } \
		{ bm *N = &B3[1]; bmap_init(N, icmp); for(add_ = 0; add_ < items_; add_++) bmap_insert(N, add_, add_); for(add_ = 0; add_ < items_; add_++) VP_CHECK(bmap_get(N, add_) && *bmap_get(N, add_) == add_, "map named " #N); if(items_) { kk_ = 0; bmap_delete(N, bmap_find(N, kk_)); VP_CHECK(!bmap_contains(N, kk_), "map named " #N); } bmap_fini(N, 0); } \
		{ ilist *N = &T3[1]; tglist_init(N); for(add_ = 0; add_ < items_; add_++) tglist_insert(N, add_, 0); tglist_sort(N, icmp); for(add_ = 0; add_ < items_; add_++) VP_CHECK(tglist_get(N, add_) == add_, "list named " #N); kk_ = 1; tglist_insert_sorted(N, kk_, icmp); tglist_free_items(N); } \
		{ sblist *N = sblist_new(sizeof(int), 1); int *pp_, got_ = 0; for(add_ = 0; add_ < items_; add_++) sblist_add(N, &add_); sblist_iter(N, pp_) VP_CHECK(*pp_ == got_++, "list named " #N); VP_CHECK(got_ == items_, "list named " #N); sblist_free(N); } \
		{ unsigned char N[3] = { 0, 0, 0 }; for(add_ = 0; add_ < items_; add_++) { BA_SET(N, add_, 1); VP_CHECK(BA_GET(N, add_) && !BA_GET(N, add_ + 1), "bits named " #N); } for(add_ = 0; add_ < items_; add_++) { BA_SET(N, add_, 0); VP_CHECK(!BA_GET(N, add_), "bits named " #N); } } \
		{ int N = items_; VP_CHECK(MIN(N, 2) == (items_ < 2 ? items_ : 2) && MAX(2, N) == (items_ > 2 ? items_ : 2) && byteswap32((uint32_t)N) == (uint32_t)items_ << 24 && byteswap64(N) == (uint64_t)items_ << 56 && BA_SIZE_REQUIRED(N) == (items_ + 7) / 8 && BASE64ENC_BYTES(N) == (items_ + 2) / 3 * 4, "a number named " #N); } }
#undef NUL
NAMES(byindex)
#define ref(N) { #N, idx_##N, ptr_##N },
static const struct { const char *name; void (*f)(int), (*g)(int); } NAME[] = { NAMES(ref) };
static long h_units(void) { return VP_N(NAME) * 6; }
static void h_run(long u) { vp_trace("%d items, variable named %s", (int)(u % 6), NAME[u / 6].name); long live = vp_live(); NAME[u / 6].f(u % 6); NAME[u / 6].g(u % 6); VP_LEAKCHECK(live, "lists indexed by %s", NAME[u / 6].name); vp_states_add(1); }
const vp_scenario vp_scenarios[] = {
	{ "min-max", a_units, a_run, "MIN and MAX with 19 forms of either argument over all values of 4 variables from 8, also inside larger expressions and nested" },
	{ "numbers", b_units, b_run, "byte order and size macros with 13..15 argument forms over 800 value pairs" },
	{ "bits", c_units, c_run, "bit reading and setting with 12 index forms x 5 array forms x all bits of 3 bytes" },
	{ "strings", d_units, d_run, "slice accessors, constructors and comparison helpers with all forms of pointer expressions over 36 pairs of texts" },
	{ "log-arguments", e_units, e_run, "the tagged log arguments with 19 forms over 64 value pairs" },
	{ "lists", f_units, f_run, "access, overwriting, insertion, deletion and size macros of six list types with 14 index forms, lists of 1..5 items" },
	{ "loops", g_units, g_run, "8 kinds of loops over lists of 0..4 items: every break and continue position, every pair nested, as branches of an if, deleting every subset while looping" },
	{ "names", h_units, h_run, "60 names for the variable an argument mentions, as index of lists in arrays and as pointer to the list, for the macros of the map, typed and generic lists; 0..5 items" },
	{ 0 }
};
