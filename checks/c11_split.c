#include "engine.h"
#include "strs.h"
#include "stringptrlist.h"
#include "kvlist.h"
const char vp_property[] = "C11";
static stringptr *mk(const char *b, size_t n) { stringptr *s = vp_buf(sizeof *s); s->ptr = vp_copy(b, n); s->size = n; return s; }
static stringptr *mkz(const char *b, size_t n) { stringptr *s = vp_buf(sizeof *s); s->ptr = vp_buf(n + 1); memcpy(s->ptr, b, n); s->ptr[n] = 0; s->size = n; return s; }
#define MP 1100000
static size_t ps[MP], pl[MP]; static int np;
static void pieces(const char *a, size_t n, const char *d, size_t dn) { np = 0; size_t i = 0, st = 0; while(i < n) { if(dn && dn <= n - i && !memcmp(a + i, d, dn)) { ps[np] = st; pl[np++] = i - st; i += dn; st = i; } else i++; } ps[np] = st; pl[np++] = n - st; }
static void check_list(stringptrlist *l, stringptr *x, const char *a, const char *what) {
	VP_CHECK(l, "%s returned null", what); VP_CHECK(stringptrlist_getsize(l) == (size_t)np, "%s: %zu pieces, must be %d", what, (size_t)stringptrlist_getsize(l), np);
	for(int i = 0; i < np; i++) { stringptr *s = stringptrlist_get(l, i); VP_CHECK(s->size == pl[i] && s->ptr == x->ptr + ps[i] && !memcmp(s->ptr, a + ps[i], pl[i]) && s->ptr[pl[i]] == 0, "%s: piece %d is wrong (size %zu, must be %zu at offset %zu)", what, i, s->size, pl[i], ps[i]); }
}
static void split(const char *a, size_t n, const char *d, size_t dn) {
	size_t k = vp_buf_mark(); long live = vp_live(); char w[200]; stringptr *x, *dd = mk(d, dn); stringptrlist *l;
	vp_trace("split %s by %s", vp_show(a, n > 40 ? 40 : n), vp_show(d, dn));
	pieces(a, n, d, dn);
	snprintf(w, sizeof w, "splits(%s, %s)", vp_show(a, n > 40 ? 40 : n), vp_show(d, dn));
	x = mkz(a, n); l = stringptr_splits(x, dd); check_list(l, x, a, w); VP_CHECK(x->size == n, "%s changed the source length", w); stringptrlist_free(l);
	if(dn == 1) { for(int sign = 0; sign < 2; sign++) { x = mkz(a, n); l = stringptr_splitc(x, sign ? (signed char)d[0] : (unsigned char)d[0]); snprintf(w, sizeof w, "splitc(%s, %d)", vp_show(a, n > 40 ? 40 : n), d[0]); check_list(l, x, a, w); stringptrlist_free(l); }
		if(d[0] == '\n') { x = mkz(a, n); l = stringptr_linesplit(x); check_list(l, x, a, "linesplit"); stringptrlist_free(l); } }
	vp_trans(2); vp_states_add(1); VP_LEAKCHECK(live, "%s", w); vp_buf_release(k);
}
static void replace(const char *a, size_t n, const char *d, size_t dn, const char *w, size_t wn) {
	static char e[8 << 20]; size_t en = 0, k = vp_buf_mark(); long live = vp_live(); pieces(a, n, d, dn);
	for(int i = 0; i < np; i++) { memcpy(e + en, a + ps[i], pl[i]); en += pl[i]; if(i < np - 1) { memcpy(e + en, w, wn); en += wn; } }
	stringptr *r = stringptr_replace(mkz(a, n), mk(d, dn), mk(w, wn));
	vp_trace("replace %s in %s by %s", vp_show(d, dn), vp_show(a, n > 40 ? 40 : n), vp_show(w, wn));
	VP_CHECK(r, "replace returned null"); VP_CHECK(r->size == en && !memcmp(r->ptr, e, en) && r->ptr[en] == 0, "replace(%s, %s, %s) gives %s, must be %s", vp_show(a, n), vp_show(d, dn), vp_show(w, wn), vp_show(r->ptr, r->size), vp_show(e, en));
	stringptr_free(r); VP_LEAKCHECK(live, "replace(%s, %s, %s)", vp_show(a, n), vp_show(d, dn), vp_show(w, wn)); vp_trans(1); vp_states_add(1); vp_buf_release(k);
}
static const char A2[] = { 'a', 'b' }, A4[] = { 'a', '\n', 0, (char)0xE4 };
static long a_units(void) { return strs_count(2, VP_T(9, 10)); }
static void a_run(long u) { char a[16], d[8]; int n = strs_get(u, A2, 2, a); for(long i = 0; i < strs_count(2, 4); i++) { int dn = strs_get(i, A2, 2, d); split(a, n, d, dn); static const char *W[] = { "", "a", "b", "ab", "aaa", "xyzxyz" }; for(int w = 0; w < 6; w++) replace(a, n, d, dn, W[w], strlen(W[w])); } }
static long b_units(void) { return strs_count(4, VP_T(5, 6)); }
static void b_run(long u) { char a[16], d[8], w[4]; int n = strs_get(u, A4, 4, a); for(long i = 0; i < strs_count(4, 2); i++) { int dn = strs_get(i, A4, 4, d); split(a, n, d, dn); for(long j = 0; j < strs_count(4, 1); j++) replace(a, n, d, dn, w, strs_get(j, A4, 4, w)); } }
/* many pieces: list growth */
static long c_units(void) { return VP_T(150, 400); }
static void c_run(long u) { static char a[3000]; long n = u; memset(a, ',', n); split(a, n, ",", 1); replace(a, n, ",", 1, "", 0); replace(a, n, ",", 1, "++", 2); replace(a, n, ",,", 2, ";", 1);
	for(long i = 0; i < n; i++) { memset(a, 'x', n); a[i] = ','; split(a, n, ",", 1); replace(a, n, ",", 1, "yy", 2); if(i) { a[i-1] = ','; split(a, n, ",,", 2); } }
	for(long p = 1; p < 20; p++) { for(long i = 0; i < n; i++) a[i] = i % p == p - 1 ? ',' : 'a' + i % 26; split(a, n, ",", 1); replace(a, n, ",", 1, "", 0); char d[40]; for(long q = 0; q < p && q < n; q++) d[q] = a[q]; if(p <= n) { split(a, n, d, p); replace(a, n, d, p, "Z", 1); } } }
static long d_units(void) { return 4; }
static void d_run(long u) { static const long N[] = { 4095, 4097, 65535, 66000 }; static char a[70000]; long n = N[u]; for(long i = 0; i < n; i++) a[i] = i % 3 ? 'a' : ';'; split(a, n, ";", 1); split(a, n, ";a", 2); replace(a, n, ";", 1, "", 0); replace(a, n, ";a", 2, "12345", 5); memset(a, ';', n); split(a, n, ";", 1); replace(a, n, ";", 1, "ab", 2); }
/* joining */
static long j_units(void) { return 6 + 13; }
static void j_run(long u) {
	static const char *pool[] = { "", "a", "\n", "bc\r", "a\0b" }; static const size_t pn[] = { 0, 1, 1, 3, 3 };
	int small = u > 5; if(small) u -= 6;   /* up to 5 entries of 5 shapes, up to 12 of 2 shapes */
	long live = vp_live(); size_t k = vp_buf_mark(); stringptrlist *l = stringptrlist_new(2); char e1[200], e2[200]; size_t n1 = 0, n2 = 0; int items[16];
	for(long i = 0; i < u; i++) { int c = items[i] = vp_choose(small ? 2 : 5); stringptr *s = mk(pool[c], pn[c]); VP_CHECK(stringptrlist_add(l, s->ptr, s->size) == 1, "add"); memcpy(e1 + n1, pool[c], pn[c]); n1 += pn[c]; e1[n1++] = '\n'; memcpy(e2 + n2, pool[c], pn[c]); n2 += pn[c]; e2[n2++] = '\r'; e2[n2++] = '\n'; }
	stringptr *r = stringptrlist_tostring(l); VP_CHECK(r && r->size == n1 && !memcmp(r->ptr, e1, n1) && r->ptr[n1] == 0, "tostring gives %s, must be %s", r ? vp_show(r->ptr, r->size) : "null", vp_show(e1, n1)); stringptr_free(r);
	r = stringptrlist_tostring_dos(l); VP_CHECK(r && r->size == n2 && !memcmp(r->ptr, e2, n2) && r->ptr[n2] == 0, "tostring_dos gives %s, must be %s", r ? vp_show(r->ptr, r->size) : "null", vp_show(e2, n2)); stringptr_free(r);
	kvlist *kv = kv_new(1); for(long i = 0; i < u; i++) VP_CHECK(kv_add(kv, (char*)pool[items[i]], pn[items[i]], (void*)(uintptr_t)(100 + i)) == 1, "kv_add");
	VP_CHECK(kv_getsize(kv) == (size_t)u, "kv size");
	for(int c = 0; c < 6; c++) { const char *p = c < 5 ? pool[c] : "a\0c"; size_t n = c < 5 ? pn[c] : 3; stringptr *w = mk(p, n); long e = -1; for(long i = 0; i < u && e < 0; i++) if(c == items[i]) e = i;
		ssize_t f = stringptrlist_find(l, w); VP_CHECK(f == e, "find(%s) = %zd, must be %ld", vp_show(p, n), f, e); VP_CHECK(!!stringptrlist_contains(l, w) == (e >= 0), "contains(%s)", vp_show(p, n));
		void *val = (void*)7; int g = kv_find(kv, w, &val); VP_CHECK(!!g == (e >= 0), "kv_find(%s) = %d", vp_show(p, n), g); VP_CHECK(val == (e >= 0 ? (void*)(uintptr_t)(100 + e) : (void*)7), "kv_find(%s): value", vp_show(p, n)); vp_trans(3); }
	if(u > 1) { kv_set(kv, 1, "zz", 2, (void*)1); void *val = 0; VP_CHECK(kv_find(kv, SPL("zz"), &val) && val == (void*)1 && kv_get(kv, 1)->size == 2, "kv_set"); }
	VP_CHECK(stringptrlist_find(0, SPL("a")) == -1 && stringptrlist_find(l, 0) == -1, "find with null");
	vp_state(vp_hash(e2, n2, u)); vp_trace("joined %ld entries: %s", u, vp_show(e1, n1));
	kv_free(kv); stringptrlist_free(l); VP_LEAKCHECK(live, "join"); vp_buf_release(k);
}
static long k_units(void) { return 120; }
static void k_run(long u) { /* long lists: find every entry, join all */
	long live = vp_live(); stringptrlist *l = stringptrlist_new(16); kvlist *kv = kv_new(16); static char buf[400][8]; char e[4000]; size_t n = 0; int N = u * 3;
	for(int i = 0; i < N; i++) { size_t m = sprintf(buf[i], "e%d", i % (N - N / 4 + 1)); stringptrlist_add(l, buf[i], m); kv_add(kv, buf[i], m, (void*)(uintptr_t)i); n += sprintf(e + n, "%s\n", buf[i]); }
	stringptr *r = stringptrlist_tostring(l); VP_CHECK(r && r->size == n && !memcmp(r->ptr, e, n), "tostring of %d entries", N); stringptr_free(r);
	for(int i = 0; i < N; i++) { stringptr w = { buf[i], strlen(buf[i]) }; int ex = i % (N - N / 4 + 1); VP_CHECK(stringptrlist_find(l, &w) == ex, "find entry %d of %d", i, N); void *v = 0; VP_CHECK(kv_find(kv, &w, &v) && v == (void*)(uintptr_t)ex, "kv_find entry %d of %d", i, N); vp_trans(2); }
	vp_trace("%d entries joined and looked up", N); vp_states_add(1); stringptrlist_free(l); kv_free(kv); VP_LEAKCHECK(live, "lists"); }
/* empty entries anywhere in long lists */
static long h_units(void) { return 130 + 7; }
static void h_run(long u) { static const int X[] = { 254, 255, 256, 257, 1023, 1024, 1025 }; int N = u < 130 ? u + 1 : X[u - 130]; static char buf[1030][8]; static char e[1030 * 10];
	for(int kind = 0; kind < 3; kind++) for(int at = 0; at <= N; at++) { if(N > 130 && at > 3 && at < N - 3 && at % 64 > 1) continue; long live = vp_live(); stringptrlist *l = stringptrlist_new(16); kvlist *kv = kv_new(16); long first = -1;
		for(int i = 0; i < N; i++) { int empty = kind == 0 ? i == at : kind == 1 ? i < at : i >= at; size_t m = empty ? 0 : sprintf(buf[i], "%d", i); buf[i][m] = 0; if(empty && first < 0) first = i; VP_CHECK(stringptrlist_add(l, buf[i], m) == 1 && kv_add(kv, buf[i], m, buf[i]) == 1, "add"); }
		for(int dos = 0; dos < 2; dos++) { size_t n = 0; for(int i = 0; i < N; i++) n += sprintf(e + n, "%s%s", buf[i], dos ? "\r\n" : "\n"); stringptr *r = dos ? stringptrlist_tostring_dos(l) : stringptrlist_tostring(l); VP_CHECK(r && r->size == n && !memcmp(r->ptr, e, n + 1), "joining %d entries, %s %d empty: %zu bytes, must be %zu", N, kind == 0 ? "entry" : kind == 1 ? "all before" : "all from", at, r ? r->size : 0, n); stringptr_free(r); }
		char no = 0; stringptr w = { &no, 0 }; void *v = 0; VP_CHECK(stringptrlist_find(l, &w) == first && !!stringptrlist_contains(l, &w) == (first >= 0), "find of the empty entry"); VP_CHECK(!!kv_find(kv, &w, &v) == (first >= 0) && (first < 0 || v == buf[first]), "kv_find of the empty key"); vp_trans(5);
		/* every entry gets a copy of its own */
		VP_CHECK(stringptrlist_dup_entries(l) == -1, "dup_entries of %d entries", N); for(int i = 0; i < N; i++) { stringptr *x = stringptrlist_get(l, i); VP_CHECK(x->ptr && x->ptr != buf[i] && x->size == strlen(buf[i]) && !memcmp(x->ptr, buf[i], x->size + 1), "entry %d of %d after dup_entries", i, N); if(x->size) x->ptr[0] ^= 0x40; } for(int i = 0; i < N; i++) { stringptr *x = stringptrlist_get(l, i); char d[12]; sprintf(d, "%d", i); VP_CHECK(!buf[i][0] || (!strcmp(buf[i], d) && x->ptr[0] == (d[0] ^ 0x40)), "entries %d shares memory", i); }
		VP_CHECK(stringptrlist_add_strdup(l, &(stringptr){ buf[N-1], strlen(buf[N-1]) }) == 1 && stringptrlist_getsize(l) == N + 1u, "add_strdup"); { stringptr *x = stringptrlist_get(l, N); VP_CHECK(x->ptr != buf[N-1] && !strcmp(x->ptr, buf[N-1]) && x->size == strlen(buf[N-1]), "entry added by add_strdup"); }
		stringptrlist_freestrings(l); VP_CHECK(stringptrlist_getsize(l) == N + 1u, "number of entries after freestrings"); for(int i = 0; i <= N; i++) { stringptr *x = stringptrlist_get(l, i); VP_CHECK(!x->ptr && !x->size, "entry %d after freestrings", i); } stringptr *r = stringptrlist_tostring(l); VP_CHECK(r && r->size == N + 1u && r->ptr[0] == '\n' && r->ptr[N] == '\n', "joining released entries"); stringptr_free(r); stringptrlist_freeall(l); kv_free(kv); vp_trans(4); VP_LEAKCHECK(live, "lists"); vp_states_add(1); }
	vp_trace("%d entries with empty ones", N); }
/* every byte value as delimiter, content and replacement; every pair of byte values */
static long y_units(void) { return 256; }
static void y_run(long u) { char c = u, a[16], d[2] = { c, c }; static const char *S[] = { "?", "??", "x?", "?x", "x?y", "x?y??z", "???", "y?x??" };
	for(int o = 0; o < 256; o++) { char q = o; for(int i = 0; i < 8; i++) { int n = strlen(S[i]); for(int j = 0; j < n; j++) a[j] = S[i][j] == '?' ? c : q; split(a, n, d, 1); if(i == 5) { split(a, n, d, 2); replace(a, n, d, 1, "<>", 2); replace(a, n, "y", 1, d, 2); char w[2] = { c, q }; split(a, n, w, 2); replace(a, n, w, 2, "-", 1); } } }
	/* lists of one-byte entries */
	long live = vp_live(); stringptrlist *l = stringptrlist_new(4); kvlist *kv = kv_new(4); static char all[256]; for(int i = 0; i < 256; i++) { all[i] = i; stringptrlist_add(l, all + (i + u) % 256, 1); kv_add(kv, all + (i + u) % 256, 1, all + i); }
	for(int i = 0; i < 256; i++) { char q = i; stringptr w = { &q, 1 }; int e = (i - u + 256) % 256; void *v = 0; VP_CHECK(stringptrlist_find(l, &w) == e && stringptrlist_contains(l, &w), "find of the one-byte entry %02x", i); VP_CHECK(kv_find(kv, &w, &v) && v == all + e, "kv_find of the one-byte key %02x", i); vp_trans(2); }
	stringptr *r = stringptrlist_tostring(l), *r2 = stringptrlist_tostring_dos(l); VP_CHECK(r && r2 && r->size == 512 && r2->size == 768, "joined size"); for(int i = 0; i < 256; i++) VP_CHECK(r->ptr[2 * i] == all[(i + u) % 256] && r->ptr[2 * i + 1] == '\n' && r2->ptr[3 * i] == all[(i + u) % 256] && r2->ptr[3 * i + 1] == '\r' && r2->ptr[3 * i + 2] == '\n', "joined list of all byte values at entry %d", i);
	stringptr_free(r); stringptr_free(r2); stringptrlist_free(l); kv_free(kv); VP_LEAKCHECK(live, "lists"); }
/* sizes around powers of two and ten as source, piece, delimiter and replacement length and as number of pieces and entries */
#define WHI VP_T(17, 20)
static long w_units(void) { return sizes_count(7, WHI) * 3; }
static void w_run(long u) { vp_hang_limit(240);
	size_t n = sizes_get(7, WHI, u / 3); char *a = malloc(3 * n + 16), *d = malloc(n + 4);
	if(u % 3 == 0) { /* source and piece length */
		for(size_t i = 0; i < n; i++) a[i] = "abcdefgh\0\n"[(i * 7 + i / 251) % 10]; split(a, n, ";", 1); split(a, n, ";;", 2); replace(a, n, ";", 1, "xx", 2);
		size_t pos[] = { 0, 1, n / 2, n - 3, n - 2, n - 1, 255, 256, 65535, 65536 };
		for(int i = 0; i < VP_N(pos); i++) if(pos[i] < n) { char s0 = a[pos[i]], s1 = 0; a[pos[i]] = ';'; split(a, n, ";", 1); replace(a, n, ";", 1, "xyz", 3); replace(a, n, ";", 1, "", 0); if(pos[i] + 1 < n) { s1 = a[pos[i] + 1]; a[pos[i] + 1] = ';'; split(a, n, ";;", 2); split(a, n, ";", 1); replace(a, n, ";;", 2, "", 0); a[pos[i] + 1] = s1; } a[pos[i]] = s0; }
		for(int i = 0; i < VP_N(pos); i++) if(pos[i] < n) a[pos[i]] = ';'; split(a, n, ";", 1); replace(a, n, ";", 1, "xyz", 3);
		if(n > 140000) n = 140000; /* lists grow by 16 entries: a million pieces would be copied for minutes */
		memset(a, ';', n); split(a, n, ";", 1); split(a, n, ";;", 2); replace(a, n, ";", 1, "ab", 2); replace(a, n, ";;", 2, "", 0); }
	else if(u % 3 == 1) { /* delimiter and replacement length */
		for(size_t i = 0; i < n; i++) d[i] = 'a' + (i * 5 + i / 255) % 25; d[0] = 'z'; memcpy(a, "12", 2); memcpy(a + 2, d, n); memcpy(a + n + 2, "3", 1); memcpy(a + n + 3, d, n); a[2*n+3] = '4'; split(a, 2 * n + 4, d, n); split(a + 2, 2 * n + 1, d, n); replace(a, 2 * n + 4, d, n, "--", 2); replace(a, 2 * n + 4, d, n, "", 0); replace("p;q;;r", 6, ";", 1, d, n); replace(a, 2 * n + 4, d, n, d, n);
		a[n+1] ^= 0x40; split(a, 2 * n + 4, d, n); replace(a, 2 * n + 4, d, n, "-", 1); a[n+1] ^= 0x40; a[n+3] = '!'; split(a, 2 * n + 4, d, n); split(d, n, a + 2, n + 1); split(d, n, d, n); replace(d, n, d, n, "x", 1);
		/* delimiters that overlap themselves: a run of one byte, and a two-byte period */
		if(n <= 5000) for(int per = 1; per <= 2; per++) { size_t L[] = { 2 * n, 2 * n - 1, 3 * n - 1, n + 1, n - 1, n + n / 2 }; for(size_t i = 0; i < n; i++) d[i] = 'a' + i % per; for(int i = 0; i < VP_N(L); i++) { for(size_t j = 0; j < L[i]; j++) a[j] = 'a' + j % per; split(a, L[i], d, n); replace(a, L[i], d, n, "-", 1); char c0 = a[L[i] / 2]; a[L[i] / 2] = 'z'; split(a, L[i], d, n); a[L[i] / 2] = c0; } } }
	else { /* number and length of entries */
		long live = vp_live(); size_t k = vp_buf_mark(); stringptrlist *l = stringptrlist_new(n > 17000 ? n / 3 : 16); kvlist *kv = kv_new(n > 17000 ? n / 3 : 16); static char dig[1048600 * 8]; size_t m = 0; for(size_t i = 0; i < n; i++) { char *q = dig + i * 8; size_t z = sprintf(q, "%zx", i); m += z + 1; VP_CHECK(stringptrlist_add(l, q, z) && kv_add(kv, q, z, (void*)(i + 1)), "add %zu", i); }
		VP_CHECK(stringptrlist_getsize(l) == n && kv_getsize(kv) == n, "number of entries"); size_t pos[] = { 0, 1, n / 2, n - 2, n - 1, 255, 256, 65535, 65536 };
		for(int i = 0; i < VP_N(pos); i++) if(pos[i] < n) { char *q = dig + pos[i] * 8; stringptr *w = mk(q, strlen(q)); void *v = 0; VP_CHECK(stringptrlist_find(l, w) == (ssize_t)pos[i] && stringptrlist_contains(l, w), "find of entry %zu of %zu", pos[i], n); VP_CHECK(kv_find(kv, w, &v) && v == (void*)(pos[i] + 1), "kv_find of entry %zu of %zu", pos[i], n); vp_trans(2); }
		VP_CHECK(stringptrlist_find(l, SPL("none")) == -1 && !stringptrlist_contains(l, SPL("none")), "absent entry found");
		for(int dos = 0; dos < 2; dos++) { stringptr *r = dos ? stringptrlist_tostring_dos(l) : stringptrlist_tostring(l); VP_CHECK(r && r->size == m + dos * n && r->ptr[r->size] == 0, "joined size of %zu entries: %zu", n, r ? r->size : 0); char *q = r->ptr; for(size_t i = 0; i < n; i++) { size_t z = strlen(dig + i * 8); VP_CHECK(!memcmp(q, dig + i * 8, z) && !memcmp(q + z, dos ? "\r\n" : "\n", 1 + dos), "entry %zu of %zu joined", i, n); q += z + 1 + dos; } stringptr_free(r); }
		stringptrlist_free(l); kv_free(kv);
		/* entries of length n */
		l = stringptrlist_new(1); memset(d, 'q', n); kv = kv_new(1); stringptr *big = mk(d, n), *b2 = mk(d, n), *b3 = mk(d, n - 1); b2->ptr[n-1] = 'r'; stringptr *es[] = { b3, b2, big, mk("x", 1) }; m = 0; for(int i = 0; i < 4; i++) { stringptrlist_add(l, es[i]->ptr, es[i]->size); kv_add(kv, es[i]->ptr, es[i]->size, es[i]); m += es[i]->size + 1; }
		for(int i = 0; i < 4; i++) { void *v = 0; stringptr *w = mk(es[i]->ptr, es[i]->size); VP_CHECK(stringptrlist_find(l, w) == i && kv_find(kv, w, &v) && v == es[i], "find of an entry of %zu bytes", es[i]->size); }
		for(int dos = 0; dos < 2; dos++) { stringptr *r = dos ? stringptrlist_tostring_dos(l) : stringptrlist_tostring(l); VP_CHECK(r && r->size == m + dos * 4, "joined size of long entries"); char *q = r->ptr; for(int i = 0; i < 4; i++) { size_t z = es[i]->size; VP_CHECK(!memcmp(q, es[i]->ptr, z) && !memcmp(q + z, dos ? "\r\n" : "\n", 1 + dos), "entry of %zu bytes joined", z); q += z + 1 + dos; } stringptr_free(r); }
		stringptrlist_free(l); kv_free(kv); VP_LEAKCHECK(live, "lists"); vp_buf_release(k); vp_states_add(4); vp_trace("%zu entries", n); }
	free(a); free(d);
}
const vp_scenario vp_scenarios[] = {
	{ "ab", a_units, a_run, "all sources to length 9 (10) and delimiters to length 4 over {a,b} x 6 replacements" },
	{ "bytes", b_units, b_run, "all sources to length 5 (6), delimiters to 2, replacements to 1 over {a,LF,NUL,0xE4}" },
	{ "growth", c_units, c_run, "source lengths 0..149 (399): all-delimiter, one delimiter at each position, periods 1..19" },
	{ "long", d_units, d_run, "sources around 2^12 and 2^16 bytes with thousands of pieces" },
	{ "join", j_units, j_run, "all lists of up to 5 entries from 5 shapes and of up to 12 empty and one-byte entries: join, join with CR LF, find, key/value find" },
	{ "biglists", k_units, k_run, "lists of up to 357 entries with duplicates: join and find every entry" },
	{ "holes", h_units, h_run, "lists of 1..130 entries and around 2^8, 2^10: every single entry, every prefix and every suffix empty, joined both ways, looked up, duplicated and released" },
	{ "bytevalues", y_units, y_run, "every byte value as delimiter against every byte value as content, in 8 shapes; as entries and keys of lists" },
	{ "wide", w_units, w_run, "sizes around all powers of two and ten from 127 to 131074 (2^20 + 2) as length of the source, of pieces, of the delimiter and of the replacement, and as number and length of list entries" },
	{ 0 }
};
