#include "engine.h"
#include "strs.h"
#include "stringptr.h"
#include "strlib.h"
const char vp_property[] = "C10";
static stringptr *mk(const char *b, size_t n) { stringptr *s = vp_buf(sizeof *s); s->ptr = vp_copy(b, n); s->size = n; return s; }
static stringptr *mkz(const char *b, size_t n) { stringptr *s = vp_buf(sizeof *s); s->ptr = vp_buf(n + 1); memcpy(s->ptr, b, n); s->ptr[n] = 0; s->size = n; return s; }
static int m_here(const char *h, size_t hn, size_t p, const char *n, size_t nn) { if(p > hn || nn > hn - p) return 0; for(size_t i = 0; i < nn; i++) if(h[p+i] != n[i]) return 0; return 1; }
static uint32_t m_hash(const char *b, size_t n) { uint32_t h = 0; for(size_t i = 0; i < n; i++) { h = (h << 4) + (unsigned char)b[i]; h ^= (h >> 24) & 0xf0; } return h & 0xfffffff; }
static void pair(const char *a, size_t an, const char *b, size_t bn) {
	size_t k = vp_buf_mark();
	stringptr *x = mk(a, an), *y = mk(b, bn); int r, e;
	vp_trace("haystack %s needle %s", vp_show(a, an), vp_show(b, bn));
	e = an == bn && !memcmp(a, b, an);
	r = stringptr_eq(x, y); VP_CHECK(!!r == e, "eq(%s,%s)=%d", vp_show(a, an), vp_show(b, bn), r);
	r = stringptr_eq(y, x); VP_CHECK(!!r == e, "eq(%s,%s)=%d", vp_show(b, bn), vp_show(a, an), r);
	int any = 0; for(size_t p = 0; p <= an; p++) any |= m_here(a, an, p, b, bn);
	r = stringptr_contains(x, y); VP_CHECK(!!r == any, "contains(%s,%s)=%d", vp_show(a, an), vp_show(b, bn), r);
	for(size_t p = 0; p <= an + 2; p++) { r = stringptr_here(x, p, y); VP_CHECK(!!r == m_here(a, an, p, b, bn), "here(%s,%zu,%s)=%d", vp_show(a, an), p, vp_show(b, bn), r); }
	r = stringptr_here(x, (size_t)-1, y); VP_CHECK(!r, "here(%s,-1,%s)=%d", vp_show(a, an), vp_show(b, bn), r);
	vp_trans(an + 6); vp_states_add(1); vp_buf_release(k);
}
static void single(const char *a, size_t n) {
	size_t k = vp_buf_mark(); long live = vp_live();
	stringptr *x = mk(a, n), *c; vp_trace("string %s", vp_show(a, n));
	VP_CHECK(stringptr_hash(x) == m_hash(a, n), "hash(%s)=%x must be %x", vp_show(a, n), stringptr_hash(x), m_hash(a, n));
	c = stringptr_copy(x); VP_CHECK(c && c->size == n && c->ptr != x->ptr && !memcmp(c->ptr, a, n) && c->ptr[n] == 0, "copy(%s)", vp_show(a, n)); stringptr_free(c); VP_CHECK(!c, "stringptr_free does not null the pointer");
	char *d = stringptr_strdup(x); VP_CHECK(d && !memcmp(d, a, n) && d[n] == 0, "strdup(%s)", vp_show(a, n)); free(d);
	for(size_t l = 0; l <= n; l++) { char *src = vp_copy(a, l); d = strdup_n(src, l); if(l == 0) VP_CHECK(!d, "strdup_n with length 0"); else VP_CHECK(d && !memcmp(d, a, l) && d[l] == 0, "strdup_n(%s,%zu) gives %s", vp_show(a, l), l, vp_show(d, l + 1)); free(d); }
	static const int probe[] = { 'a', 'b', 0, '\n', '\r', '/', 0xE4, (char)0xE4, 'z', 0xff, -1, 0x80, (char)0x80, 0x7f };
	for(int i = 0; i < VP_N(probe); i++) { ssize_t e = -1; for(size_t j = 0; j < n; j++) if((unsigned char)a[j] == (unsigned char)probe[i]) e = j; char *r = stringptr_rchr(x, probe[i]); VP_CHECK(r == (e < 0 ? 0 : x->ptr + e), "rchr(%s,%d) = %zd, must be %zd", vp_show(a, n), probe[i], r ? r - x->ptr : -1, e); }
	VP_CHECK(stringptr_getsize_s(x) == n && stringptr_get_s(x) == x->ptr && !!stringptr_empty(x) == (n == 0) && !!stringptr_empty_s(x) == (n == 0), "accessor macros");
	for(size_t cnt = 0; cnt <= n + 2; cnt++) {
		size_t c0 = cnt == n + 2 ? (size_t)-1 : cnt; int ok = c0 <= n;
		stringptr *y = mkz(a, n); char *p0 = y->ptr; int r = stringptr_shiftleft(y, c0);
		VP_CHECK(!!r == ok, "shiftleft(%s,%zd)=%d", vp_show(a, n), (ssize_t)c0, r); VP_CHECK(y->ptr == p0 && y->size == (ok ? n - c0 : n) && !memcmp(p0, a, y->size) && (ok ? p0[y->size] == 0 : !memcmp(p0, a, n)), "shiftleft(%s,%zd): wrong result", vp_show(a, n), (ssize_t)c0);
		if(ok) VP_CHECK(!memcmp(p0 + y->size + (c0 > 0), a + y->size + (c0 > 0), n - y->size - (c0 > 0)), "shiftleft(%s,%zd) changed other bytes", vp_show(a, n), (ssize_t)c0);
		y = mkz(a, n); p0 = y->ptr; r = stringptr_shiftright(y, c0);
		VP_CHECK(!!r == ok, "shiftright(%s,%zd)=%d", vp_show(a, n), (ssize_t)c0, r); VP_CHECK(y->ptr == p0 + (ok ? c0 : 0) && y->size == (ok ? n - c0 : n) && !memcmp(p0, a, n) && p0[n] == 0, "shiftright(%s,%zd): wrong result", vp_show(a, n), (ssize_t)c0);
	}
	size_t tail = 0; while(tail < n && (a[n-1-tail] == '\n' || a[n-1-tail] == '\r')) tail++;
	stringptr *y = mkz(a, n); char *p0 = y->ptr; size_t r = stringptr_chomp(y);
	VP_CHECK(r == tail && y->ptr == p0 && y->size == n - tail && !memcmp(p0, a, n - tail) && p0[y->size] == 0, "chomp(%s) = %zu, size %zu; must remove %zu", vp_show(a, n), r, y->size, tail);
	if(!memchr(a, 0, n)) { stringptr out = { (char*)1, 77 }; char *z = vp_buf(n + 1); memcpy(z, a, n); z[n] = 0; stringptr *o = stringptr_fromchar(z, &out); VP_CHECK(o == &out && out.ptr == z && out.size == n, "fromchar(%s): size %zu", vp_show(a, n), out.size); }
	vp_trans(20 + 3 * n); vp_states_add(1); VP_LEAKCHECK(live, "%s", vp_show(a, n)); vp_buf_release(k);
}
static const char AL[] = { 'a', 'b', 0, '\n', '\r', '/', (char)0xE4 };
static long s_units(void) { return 7 * 7 + 1; }
static void s_run(long u) { char b[16]; int L = VP_T(5, 6); if(u == 49) { for(long i = 0; i < strs_count(7, 1); i++) single(b, strs_get(i, AL, 7, b)); return; }
	b[0] = AL[u / 7]; b[1] = AL[u % 7]; for(long i = 0; i < strs_count(7, L - 2); i++) single(b, 2 + strs_get(i, AL, 7, b + 2)); }
static const char A3[] = { 'a', 'b', 0 };
static long p_units(void) { return strs_count(3, VP_T(6, 7)); }
static void p_run(long u) { char a[12], b[12]; int an = strs_get(u, A3, 3, a); for(long i = 0; i < strs_count(3, 4); i++) pair(a, an, b, strs_get(i, A3, 3, b)); }
static long p2_units(void) { return strs_count(7, 3); }
static void p2_run(long u) { char a[12], b[12]; int an = strs_get(u, AL, 7, a); for(long i = 0; i < strs_count(7, VP_T(2, 3)); i++) pair(a, an, b, strs_get(i, AL, 7, b)); }
/* long strings: one differing byte at each position; needle at every offset */
static long l_units(void) { return 90; }
static void l_run(long u) {
	char a[300], b[300]; size_t n = u + 1;
	for(size_t i = 0; i < n; i++) a[i] = 'a' + i % 3;
	single(a, n); for(size_t i = 0; i < n; i++) { memcpy(b, a, n); b[i] ^= 0x80; pair(a, n, b, n); pair(b, n, a, n); if(i % 4 == 0) single(b, n); b[i] = 0; pair(b, n, a, n); }
	for(size_t i = 0; i < n; i++) { memset(b, '\n', n); b[i] = 'x'; single(b, n); for(size_t j = 1; j <= n - i && j < 40; j += 3) { memset(b, 'a', n); memset(b + i, 'b', j); pair(b, n, b + i, j); } }
	memset(a, 'a', n); for(size_t k = 0; k <= n; k += 1 + n / 16) { memset(b, 'a', k); b[k] = 'b'; a[n-1] = 'b'; pair(a, n, b, k + 1); }
	for(int byte = 0; byte < 256; byte++) { memset(b, byte, n); if(n < 12) single(b, n); }
}
static const char *pool[] = { "", "a", "\0", "b\n", "longer string of some thirty bytes", "xyz" }; static const size_t pooln[] = { 0, 1, 1, 2, 34, 3 };
static long c_units(void) { return 6 * 6; }
static void c_run(long u) {
	long live = vp_live(); size_t total = 0; char exp[400]; stringptr *s[5]; int n = 1 + vp_choose(VP_T(4, 5)); size_t k = vp_buf_mark();
	for(int i = 0; i < n; i++) { int c = i == 0 ? u % 6 : i == 1 ? u / 6 : vp_choose(6); s[i] = mk(pool[c], pooln[c]); memcpy(exp + total, pool[c], pooln[c]); total += pooln[c]; }
	stringptr *r = n == 1 ? stringptr_concat(s[0], (stringptr*)0) : n == 2 ? stringptr_concat(s[0], s[1], (stringptr*)0) : n == 3 ? stringptr_concat(s[0], s[1], s[2], (stringptr*)0) : n == 4 ? stringptr_concat(s[0], s[1], s[2], s[3], (stringptr*)0) : stringptr_concat(s[0], s[1], s[2], s[3], s[4], (stringptr*)0);
	VP_CHECK(r && r->size == total && !memcmp(r->ptr, exp, total) && r->ptr[total] == 0, "concat of %d strings gives %s, must be %s", n, r ? vp_show(r->ptr, r->size) : "null", vp_show(exp, total));
	vp_trace("concat of %d -> %s", n, vp_show(exp, total)); vp_trans(1); vp_state(vp_hash(exp, total, n)); stringptr_free(r); vp_buf_release(k);
	VP_LEAKCHECK(live, "concat");
}
static long n_units(void) { return 300; }
static void n_run(long u) { long live = vp_live(); size_t n = u < 260 ? u : (size_t)1 << (u - 250) % 24; stringptr *s = stringptr_new(n); VP_CHECK(s && s->size == n && s->ptr && s->ptr[n] == 0, "new(%zu)", n); memset(s->ptr, 'q', n); VP_CHECK(s->size == n && s->ptr[n] == 0, "new(%zu): buffer overlaps its header or terminator", n); stringptr_free(s);
	vp_trace("new(%zu)", n); vp_trans(1); vp_states_add(1); VP_LEAKCHECK(live, "new");
	if(u == 0) { stringptr o = { (char*)1, 9 }; stringptr_fromchar(0, &o); VP_CHECK(o.ptr == 0 && o.size == 0, "fromchar(null)"); VP_CHECK(!stringptr_copy(0) && !stringptr_strdup(0) && !strdup_n(0, 4) && stringptr_chomp(0) == 0 && !stringptr_shiftleft(0, 0) && !stringptr_shiftright(0, 0) && !stringptr_rchr(0, 'a'), "null arguments");
		stringptr e = { (char*)"", 0 }; VP_CHECK(stringptr_eq(0, 0) && !stringptr_eq(&e, 0) && !stringptr_eq(0, &e), "eq with null"); VP_CHECK(stringptr_getsize_s((stringptr*)0) == 0 && stringptr_get_s((stringptr*)0) == 0 && stringptr_empty_s((stringptr*)0), "null-safe accessors");
		SPDECLAREC(q, "hello"); VP_CHECK(q->size == 5 && EQ(q, SPL("hello")) && !EQ(q, SPL("hellp")), "macros"); } }
/* one occurrence at every position of strings of every length: found there and nowhere else */
static long o_units(void) { return VP_T(300, 1100); }
static void o_run(long u) {
	static char a[70010]; size_t n = u < 290 ? u + 1 : (size_t)1 << (u < 298 ? u - 281 : 10); if(u > 300) n = u;
	if(n > 66000) n = 66000; memset(a, 'a', n); size_t mk_ = vp_buf_mark(); stringptr *x = mk(a, n); char *e; stringptr *nd = mk("\xffz", 2), *n1 = mk("\xff", 1);
	VP_CHECK(!stringptr_rchr(x, 0xff) && !stringptr_contains(x, nd) && !stringptr_contains(x, n1), "absent byte found in %zu bytes", n);
	for(size_t p = 0; p < n; p += n > 5000 && p > 300 && p < n - 300 ? 97 : 1) { x->ptr[p] = (char)0xff; e = x->ptr + p; VP_CHECK(stringptr_rchr(x, 0xff) == e, "rchr: the only occurrence at %zu of %zu is not found", p, n); VP_CHECK(stringptr_contains(x, n1), "contains: the only occurrence at %zu of %zu is not found", p, n); VP_CHECK(stringptr_here(x, p, n1) && !(p && stringptr_here(x, p - 1, n1)) && !stringptr_here(x, p + 1, n1), "here at %zu of %zu", p, n);
		if(p) { VP_CHECK(!stringptr_contains(x, nd), "contains at %zu of %zu", p, n); x->ptr[p-1] = (char)0xff; x->ptr[p] = 'z'; VP_CHECK(stringptr_contains(x, nd) && stringptr_here(x, p - 1, nd) && stringptr_rchr(x, 0xff) == e - 1, "two bytes at %zu of %zu are not found", p - 1, n); x->ptr[p-1] = 'a'; } x->ptr[p] = 'a'; vp_trans(5); }
	VP_CHECK(stringptr_hash(x) == m_hash(a, n), "hash of %zu bytes", n); vp_trace("%zu bytes", n); vp_states_add(n); vp_buf_release(mk_);
}
/* every byte value, every pair of byte values */
static long y_units(void) { return 256; }
static void y_run(long u) { char a[4], b[4]; for(int d = 0; d < 256; d++) { a[0] = u; a[1] = d; single(a, 2); pair(a, 2, a + 1, 1); b[0] = d; pair(a, 1, b, 1); pair(a, 2, b, 1); b[1] = u; pair(a, 2, b, 2); a[2] = u; pair(a, 3, b, 2); a[0] = 'q'; a[1] = u; a[2] = d; b[0] = 'q'; b[1] = u; b[2] = 'q'; pair(a, 3, b, 3); size_t k = vp_buf_mark(); stringptr *x = mk(a, 3); for(int sg = 0; sg < 2; sg++) { char *r = stringptr_rchr(x, sg ? (int)(char)u : (int)u); VP_CHECK(r == x->ptr + ((char)u == (char)d ? 2 : 1), "rchr(%s, %ld)", vp_show(a, 3), u); } vp_buf_release(k); } }
/* sizes around powers of two and ten: every function once with the interesting position at the start, in the middle and at the end */
#define WHI VP_T(17, 20)
static long w_units(void) { return sizes_count(7, WHI); }
static void w_run(long u) {
	size_t n = sizes_get(7, WHI, u), k = vp_buf_mark(); long live = vp_live(); char *a = malloc(n), *b = malloc(n), *d; stringptr *x, *y, *c;
	for(size_t i = 0; i < n; i++) a[i] = "abcdefgh\0\n"[(i * 7 + i / 251) % 10]; a[n-1] = 'e'; a[0] = 's';
	memcpy(b, a, n); vp_trace("%zu bytes", n); x = mk(a, n); y = mk(b, n);
	VP_CHECK(stringptr_eq(x, y) && stringptr_contains(x, y) && stringptr_here(x, 0, y) && !stringptr_here(x, 1, y), "a string of %zu bytes does not equal itself", n);
	VP_CHECK(stringptr_hash(x) == m_hash(a, n), "hash of %zu bytes", n);
	size_t pos[] = { 0, 1, n / 2, n - 2, n - 1, 127, 128, n > 255 ? 255 : 3, n > 256 ? 256 : 4, n > 65535 ? 65535 : 5, n > 65536 ? 65536 : 6 };
	for(int i = 0; i < VP_N(pos); i++) if(pos[i] < n) { size_t p = pos[i]; y->ptr[p] ^= 0x80; VP_CHECK(!stringptr_eq(x, y) && !stringptr_eq(y, x) && !stringptr_contains(x, y) && !stringptr_here(x, 0, y), "two strings of %zu bytes that differ at %zu are taken as equal", n, p);
		VP_CHECK(stringptr_rchr(y, (unsigned char)y->ptr[p]) == y->ptr + p, "rchr of %zu bytes at %zu", n, p); y->ptr[p] ^= 0x80; vp_trans(6); }
	/* shorter and longer operands */
	stringptr *sh = mk(a, n - 1), *su = mk(a + 1, n - 1), *bad = mk(a, n - 1), *e1 = mk(a + n - 1, 1); bad->ptr[n-2] ^= 0x80;
	VP_CHECK(!stringptr_eq(x, sh) && !stringptr_eq(sh, x), "eq of %zu and %zu bytes", n, n - 1); VP_CHECK(stringptr_contains(x, sh) && !stringptr_contains(sh, x) && stringptr_contains(x, su) && stringptr_here(x, 1, su) && stringptr_here(x, 0, sh) && !stringptr_here(sh, 0, x) && !stringptr_contains(x, bad), "contains/here of %zu and %zu bytes", n, n - 1);
	VP_CHECK(stringptr_here(x, n - 1, e1) && !stringptr_here(x, n, e1), "here at the end of %zu bytes", n);
	for(size_t nl = 2; nl < n; nl *= 2) { stringptr *nd = mk(a + n - nl, nl); VP_CHECK(stringptr_contains(x, nd) && stringptr_here(x, n - nl, nd), "needle of %zu at the end of %zu bytes", nl, n); nd->ptr[nl-1] ^= 0x80; VP_CHECK(!stringptr_contains(x, nd), "wrong needle of %zu found in %zu bytes", nl, n); nd->ptr[nl-1] ^= 0x80; nd->ptr[0] ^= 0x80; VP_CHECK(!stringptr_here(x, n - nl, nd), "wrong needle of %zu found at the end of %zu bytes", nl, n); vp_trans(4); }
	c = stringptr_copy(x); VP_CHECK(c && c->size == n && !memcmp(c->ptr, a, n) && c->ptr[n] == 0, "copy of %zu bytes", n); stringptr_free(c);
	d = stringptr_strdup(x); VP_CHECK(d && !memcmp(d, a, n) && d[n] == 0, "strdup of %zu bytes", n); free(d);
	d = strdup_n(x->ptr, n); VP_CHECK(d && !memcmp(d, a, n) && d[n] == 0, "strdup_n of %zu bytes", n); free(d);
	{ char *z = vp_buf(n + 1); for(size_t i = 0; i < n; i++) z[i] = a[i] ? a[i] : '0'; z[n] = 0; stringptr o, *r = stringptr_fromchar(z, &o); VP_CHECK(r == &o && o.ptr == z && o.size == n, "fromchar of %zu bytes: %zu", n, o.size); }
	c = stringptr_concat(x, sh, x, (stringptr*)0); VP_CHECK(c && c->size == 3 * n - 1 && !memcmp(c->ptr, a, n) && !memcmp(c->ptr + n, a, n - 1) && !memcmp(c->ptr + 2 * n - 1, a, n) && c->ptr[3*n-1] == 0, "concat of %zu bytes", n); stringptr_free(c);
	c = stringptr_concat(e1, x, (stringptr*)0); VP_CHECK(c && c->size == n + 1 && c->ptr[0] == 'e' && !memcmp(c->ptr + 1, a, n) && c->ptr[n+1] == 0, "concat of 1 and %zu bytes", n); stringptr_free(c);
	/* all byte values, in three phases */
	for(int ph = 0; ph < 3; ph++) { for(size_t i = 0; i < n; i++) b[i] = (char)(i * 3 + i / 256 + ph * 85); stringptr *f = mk(b, n), *h = mk(b + 1, n - 1); c = stringptr_concat(f, h, f, (stringptr*)0); VP_CHECK(c && c->size == 3 * n - 1 && !memcmp(c->ptr, b, n) && !memcmp(c->ptr + n, b + 1, n - 1) && !memcmp(c->ptr + 2 * n - 1, b, n) && c->ptr[3*n-1] == 0, "concat of %zu bytes of all values", n); stringptr_free(c);
		c = stringptr_copy(f); VP_CHECK(c && c->size == n && !memcmp(c->ptr, b, n) && c->ptr[n] == 0, "copy of %zu bytes of all values", n); stringptr_free(c); d = stringptr_strdup(f); VP_CHECK(d && !memcmp(d, b, n) && d[n] == 0, "strdup of %zu bytes of all values", n); free(d); VP_CHECK(stringptr_hash(f) == m_hash(b, n) && stringptr_contains(f, h) && stringptr_here(f, 1, h), "hash, contains and here of %zu bytes of all values", n); vp_trans(6); }
	memcpy(b, a, n);
	size_t cuts[] = { 0, 1, n / 2, n - 1, n, n + 1, 255, 256, 257, 65535, 65536, 65537 };
	for(int i = 0; i < VP_N(cuts); i++) { size_t c0 = cuts[i]; int ok = c0 <= n; stringptr *z = mkz(a, n); char *p0 = z->ptr; int r = stringptr_shiftleft(z, c0); VP_CHECK(!!r == ok && z->ptr == p0 && z->size == (ok ? n - c0 : n) && !memcmp(p0, a, z->size) && p0[z->size] == 0, "shiftleft of %zu bytes by %zu", n, c0);
		z = mkz(a, n); p0 = z->ptr; r = stringptr_shiftright(z, c0); VP_CHECK(!!r == ok && z->ptr == p0 + (ok ? c0 : 0) && z->size == (ok ? n - c0 : n) && !memcmp(p0, a, n), "shiftright of %zu bytes by %zu", n, c0); vp_trans(2); }
	for(int i = 0; i < VP_N(cuts); i++) { size_t t = cuts[i], tl = t; if(t > n) continue; memcpy(b, a, n); for(size_t j = n - t; j < n; j++) b[j] = j % 3 ? '\n' : '\r'; while(tl < n && (b[n-1-tl] == '\n' || b[n-1-tl] == '\r')) tl++; stringptr *z = mkz(b, n); size_t r = stringptr_chomp(z); VP_CHECK(r == tl && z->size == n - tl && !memcmp(z->ptr, b, n - tl) && z->ptr[n-tl] == 0, "chomp of %zu line ends of %zu bytes: %zu", tl, n, r); vp_trans(1); }
	free(a); free(b); vp_buf_release(k); vp_states_add(40); vp_trans(20); VP_LEAKCHECK(live, "%zu bytes", n);
}
const vp_scenario vp_scenarios[] = {
	{ "single", s_units, s_run, "all strings to length 5 (6) over {a,b,NUL,LF,CR,/,0xE4}: hash, copy, duplicate, last occurrence, all cuts, chomp" },
	{ "pairs", p_units, p_run, "all haystacks to length 6 (7) x needles to length 4 over {a,b,NUL}, all positions" },
	{ "pairs7", p2_units, p2_run, "all haystacks to length 3 x needles to length 2 (3) over 7 bytes" },
	{ "long", l_units, l_run, "lengths 1..90: one differing byte at every position, needles at every offset, all byte values" },
	{ "only", o_units, o_run, "lengths 1..290 (1100) and powers of two to 65536: the only occurrence at every position" },
	{ "concat", c_units, c_run, "all concatenations of up to 4 (5) strings from 6 shapes" },
	{ "new", n_units, n_run, "new strings of lengths 0..259 and powers of two; null arguments" },
	{ "bytevalues", y_units, y_run, "all strings of two bytes over all 256 values; every pair of byte values compared, searched for and found" },
	{ "wide", w_units, w_run, "sizes around all powers of two and ten from 127 to 131074 (2^20 + 2): every function, with differences, needles, cuts and line ends at the start, middle, end and around 2^8 and 2^16" },
	{ 0 }
};
