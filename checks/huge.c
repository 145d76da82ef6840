/* Sizes beyond 2^31 and 2^32 bytes, on an uninstrumented -O2 build; memory is mapped lazily and each property has a single unit,
   so that at most about 12 GB are in use at a time. -DHUGE selects the property. */
#include "engine.h"
#include <sys/mman.h>
#include <sys/stat.h>
#include <fcntl.h>
#define G4 ((size_t)1 << 32)
#define G2 ((size_t)1 << 31)
static void *zeros(size_t n) { void *p = mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if(p == MAP_FAILED) { perror("mmap"); _exit(78); } return p; }
static int allzero(const char *p, size_t n) { const char *e = p + n; while(p < e) { size_t k = e - p > 1 << 20 ? 1 << 20 : e - p; if(k && (p[0] || memcmp(p, p + 1, k - 1))) return 0; p += k; vp_beat(); } return 1; }
static int allbyte(const char *p, size_t n, char c) { const char *e = p + n; while(p < e) { size_t k = e - p > 1 << 20 ? 1 << 20 : e - p; if(k && (p[0] != c || memcmp(p, p + 1, k - 1))) return 0; p += k; vp_beat(); } return 1; }
static long units(void) { return 1; }
/* with less than 20 GB to spare the scenario explores nothing, and says so, rather than run out of memory */
static int roomy(void) { char line[200]; size_t kb = 0; FILE *f = fopen("/proc/meminfo", "r"); while(f && fgets(line, sizeof line, f)) if(sscanf(line, "MemAvailable: %zu", &kb) == 1) break; if(f) fclose(f); if(kb < (size_t)20 << 20) { vp_trace("skipped: only %zu kB of memory available", kb); return 0; } return 1; }
#if HUGE == 1
#include "sblist.h"
const char vp_property[] = "C01";
#define IS ((size_t)1 << 20)
#define N 4200
static uint32_t *m; static size_t mn;
static void full(sblist *l, const char *op) { VP_CHECK(sblist_getsize(l) == mn, "%s: length %zu, must be %zu", op, (size_t)sblist_getsize(l), mn); char *b = sblist_get(l, 0); for(size_t i = 0; i < mn; i++) { char *p = sblist_get(l, i); VP_CHECK(p == b + i * IS, "%s: item %zu lies elsewhere", op, i); uint32_t a, z; memcpy(&a, p, 4); memcpy(&z, p + IS - 4, 4); VP_CHECK(a == m[i] && z == ~m[i], "%s: item %zu of %zu is wrong", op, i, mn); } VP_CHECK(!sblist_get(l, mn), "%s: item behind the end", op); vp_trans(mn); vp_states_add(1); vp_beat(); }
static void *item(uint32_t id) { static char *b; if(!b) b = zeros(IS); memcpy(b, &id, 4); id = ~id; memcpy(b + IS - 4, &id, 4); return b; }
static void run(long u) {
	if(!roomy()) return; vp_hang_limit(VP_T(240, 600)); m = calloc(N + 10, 4); sblist *l = sblist_new(IS, 100); for(size_t i = 0; i < N; i++) { VP_CHECK(sblist_add(l, item(i + 1)) == 1, "add %zu", i); m[mn++] = i + 1; vp_beat(); } full(l, "appending");
	size_t pos[] = { 0, 2047, 2048, 2049, 4095, 4096, 4097, N - 1 }; uint32_t id = 100000;
	for(int i = 0; i < VP_N(pos); i++) { size_t p = pos[i]; VP_CHECK(sblist_set(l, item(++id), p) == 1, "set"); m[p] = id; vp_beat(); } full(l, "overwriting");
	for(int i = 0; i < VP_N(pos); i += 2) { size_t p = pos[i]; VP_CHECK(sblist_insert(l, item(++id), p) == 1, "insert"); memmove(m + p + 1, m + p, (mn - p) * 4); m[p] = id; mn++; full(l, "inserting"); sblist_delete(l, p + 1); memmove(m + p + 1, m + p + 2, (mn - p - 2) * 4); mn--; full(l, "deleting"); }
	while(mn > 4090) { sblist_delete(l, mn - 1); mn--; vp_beat(); } full(l, "deleting at the end"); sblist_free(l); vp_trace("%d items of 1 MiB", N);
	/* more than 2^32 items of one byte */
	l = sblist_new(1, G4 + 64); unsigned char c; for(size_t i = 0; i < G4 + 40; i++) { c = i >> 24 ^ i; if(!sblist_add(l, &c)) vp_fail("adding item %zu", i); if(!(i & 0xffffff)) vp_beat(); } VP_CHECK(sblist_getsize(l) == G4 + 40, "%zu items", (size_t)sblist_getsize(l));
	size_t q[] = { 0, G2 - 1, G2, G2 + 1, G4 - 1, G4, G4 + 1, G4 + 39 }; for(int i = 0; i < VP_N(q); i++) { unsigned char *p = sblist_get(l, q[i]); VP_CHECK(p && *p == (unsigned char)(q[i] >> 24 ^ q[i]), "item %zu", q[i]); c = 0xA0 + i; VP_CHECK(sblist_set(l, &c, q[i]), "set item %zu", q[i]); } for(int i = 0; i < VP_N(q); i++) VP_CHECK(*(unsigned char*)sblist_get(l, q[i]) == 0xA0 + i, "item %zu after setting", q[i]); VP_CHECK(!sblist_get(l, G4 + 40), "item behind the end");
	for(int i = 0; i < 3; i++) { size_t p = G4 + 20 - i * 10; c = 0x10 + i; unsigned char w = *(unsigned char*)sblist_get(l, p); VP_CHECK(sblist_insert(l, &c, p), "insert"); VP_CHECK(*(unsigned char*)sblist_get(l, p) == c && *(unsigned char*)sblist_get(l, p + 1) == w, "inserted item %zu", p); sblist_delete(l, p); VP_CHECK(*(unsigned char*)sblist_get(l, p) == w && sblist_getsize(l) == G4 + 40, "deleted item %zu", p); } c = 0x77; VP_CHECK(sblist_insert(l, &c, 0), "insert at the front"); VP_CHECK(*(unsigned char*)sblist_get(l, 0) == 0x77 && *(unsigned char*)sblist_get(l, G4 + 40) == 0xA7 && *(unsigned char*)sblist_get(l, G4 + 1) == 0xA5, "after inserting at the front"); sblist_delete(l, 0); VP_CHECK(*(unsigned char*)sblist_get(l, G4 + 39) == 0xA7, "after deleting at the front"); sblist_free(l); vp_states_add(20); vp_trans(40); vp_trace("2^32 + 40 items of 1 byte");
}
const vp_scenario vp_scenarios[] = { { "huge", units, run, "4200 items of 1 MiB and 2^32 + 40 items of one byte: operations around 2^31, 2^32 and the ends" }, { 0 } };
#elif HUGE == 2
#include "sblist.h"
const char vp_property[] = "C02";
static long ncmp; static unsigned char *lo, *hi; static int cmpr(const void *a, const void *b, void *x) { unsigned char p = *(unsigned char*)a, q = *(unsigned char*)b; if(x != &ncmp) vp_fail("context"); return p < q ? -1 : p > q; } static int cmp(const void *a, const void *b) { unsigned char x = *(unsigned char*)a, y = *(unsigned char*)b; ncmp++; return x < y ? -1 : x > y; }
static void run(long u) {
	/* a sorted list of 2^32 + 1000 one-byte keys, grown through the list's own interface */
	if(!roomy()) return; vp_hang_limit(VP_T(240, 600)); size_t n = G4 + 1000; sblist *l = sblist_new(1, n + 8); size_t b[] = { 0, 1000, G2 - 1, G2, G2 + 5, G4 - 1, G4, G4 + 1, n - 1, n }; unsigned char c; size_t i = 0; for(int k = 0; k < 9; k++) for(c = 10 + 10 * k; i < b[k + 1]; i++) { if(!sblist_add(l, &c)) vp_fail("adding item %zu", i); if(!(i & 0xffffff)) vp_beat(); }
	for(int k = 0; k < 9; k++) { c = 10 + 10 * k; ssize_t r = sblist_bsearch(l, &c, cmp); VP_CHECK(r >= (ssize_t)b[k] && r < (ssize_t)b[k + 1], "key at %zu..%zu found at %zd", b[k], b[k + 1], r); r = sblist_bsearch_r(l, &c, cmpr, &ncmp); VP_CHECK(r >= (ssize_t)b[k] && r < (ssize_t)b[k + 1], "key at %zu..%zu found at %zd (_r)", b[k], b[k + 1], r); c += 5; r = sblist_bsearch(l, &c, cmp); VP_CHECK(r == -1, "absent key found at %zd", r); r = sblist_bsearch_r(l, &c, cmpr, &ncmp); VP_CHECK(r == -1, "absent key found at %zd (_r)", r); vp_trans(2); vp_states_add(2); } c = 1; VP_CHECK(sblist_bsearch(l, &c, cmp) == -1, "key below all found");
	for(int k = 8; k >= 0; k -= 2) { c = 15 + 10 * k; ssize_t r = k & 2 ? sblist_insert_sorted(l, &c, cmp) : sblist_insert_sorted_r(l, &c, cmpr, &ncmp); VP_CHECK(r == (ssize_t)b[k + 1] && *(unsigned char*)sblist_get(l, r) == c && *(unsigned char*)sblist_get(l, r - 1) == c - 5, "insertion position %zd, must be %zu", r, b[k + 1]); vp_trans(1); vp_states_add(1); vp_beat(); } sblist_free(l); vp_trace("2^32 + 1000 keys"); (void)lo; (void)hi;
}
const vp_scenario vp_scenarios[] = { { "huge", units, run, "2^32 + 1000 one-byte keys: every key and gap searched, insertions around 2^31 and 2^32" }, { 0 } };
#elif HUGE == 10
#include "stringptr.h"
const char vp_property[] = "C10";
static void run(long u) {
	if(!roomy()) return; vp_hang_limit(VP_T(240, 600)); size_t n = G4 + 100; char *a = zeros(n + 1), *b = zeros(n + 1); stringptr x = { a, n }, y = { b, n }; size_t pos[] = { 5, G2 - 1, G2, G2 + 1, G4 - 1, G4, G4 + 1, n - 1 };
	VP_CHECK(stringptr_eq(&x, &y), "two equal strings of %zu bytes", n); vp_beat(); stringptr z = { b, 100 }, one = { "\x07", 1 }, sh = { b, n - 1 }; VP_CHECK(!stringptr_eq(&x, &z) && !stringptr_eq(&z, &x) && !stringptr_eq(&x, &sh), "strings of %zu and 100 bytes are taken as equal", n); VP_CHECK(!stringptr_contains(&z, &x) && !stringptr_here(&z, 0, &x) && !stringptr_here(&x, 1, &y) && !stringptr_here(&x, G4, &y), "a longer string found in a shorter one");
	for(int i = 0; i < VP_N(pos); i++) { size_t p = pos[i]; a[p] = 7; VP_CHECK(!stringptr_eq(&x, &y), "strings differing at %zu", p); vp_beat(); VP_CHECK(stringptr_rchr(&x, 7) == a + p, "last occurrence at %zu", p); vp_beat(); VP_CHECK(stringptr_here(&x, p, &one) && !stringptr_here(&x, p - 1, &one) && !stringptr_here(&x, p & 0xffffffff ? (p & 0xffffffff) + (p < G4) : 0, &one), "here at %zu", p); a[p] = 0; vp_trans(5); vp_states_add(1); }
	a[G4 + 50] = 7; VP_CHECK(stringptr_contains(&x, &one), "contains at 2^32 + 50"); a[G4 + 50] = 0; vp_beat(); VP_CHECK(!stringptr_rchr(&x, 9), "absent byte found");
	uint32_t h = 0; a[3] = 'q'; a[G4 + 7] = 'r'; a[n-1] = 's'; for(size_t i = 0; i < n; i++) { h = (h << 4) + (unsigned char)a[i]; h ^= (h >> 24) & 0xf0; if(!(i & 0xffffff)) vp_beat(); } VP_CHECK(stringptr_hash(&x) == (h & 0xfffffff), "hash of %zu bytes", n); vp_beat();
	stringptr *c = stringptr_copy(&x); VP_CHECK(c && c->size == n && c->ptr[3] == 'q' && c->ptr[G4 + 7] == 'r' && c->ptr[n-1] == 's' && !c->ptr[n] && !c->ptr[7] && stringptr_eq(c, &x), "copy of %zu bytes", n); stringptr_free(c); vp_beat();
	stringptr t = { "tail", 4 }; c = stringptr_concat(&x, &t, (stringptr*)0); VP_CHECK(c && c->size == n + 4 && c->ptr[3] == 'q' && c->ptr[G4 + 7] == 'r' && !memcmp(c->ptr + n - 1, "stail", 6), "concat of %zu and 4 bytes", n); stringptr_free(c); vp_beat();
	char *d = stringptr_strdup(&x); VP_CHECK(d && d[3] == 'q' && d[G4 + 7] == 'r' && d[n-1] == 's' && !d[n], "strdup of %zu bytes", n); free(d);
	size_t cut[] = { 1, G2, G4 - 1, G4, G4 + 1, n, n + 1 }; for(int i = 0; i < VP_N(cut); i++) { stringptr v = { a, n }; int ok = cut[i] <= n, r = stringptr_shiftright(&v, cut[i]); VP_CHECK(!!r == ok && v.ptr == a + (ok ? cut[i] : 0) && v.size == (ok ? n - cut[i] : n), "shiftright by %zu", cut[i]); v = (stringptr){ b, n }; r = stringptr_shiftleft(&v, cut[i]); VP_CHECK(!!r == ok && v.ptr == b && v.size == (ok ? n - cut[i] : n), "shiftleft by %zu", cut[i]); vp_trans(2); }
	madvise(a, n, MADV_DONTNEED); memset(a, '\n', n); a[20] = 'x'; stringptr v = { a, n }; size_t r = stringptr_chomp(&v); VP_CHECK(r == n - 21 && v.size == 21 && !a[21], "chomp of %zu line ends: %zu", n - 21, r); memset(a, 'k', 30); memset(a, 'k', n); a[n] = 0; stringptr_fromchar(a, &v); VP_CHECK(v.size == n && v.ptr == a, "fromchar: %zu", v.size); munmap(a, n + 1); munmap(b, n + 1);
	c = stringptr_new(n); VP_CHECK(c && c->size == n && c->ptr, "new"); c->ptr[n-1] = 1; c->ptr[G4] = 2; VP_CHECK(!c->ptr[n] && c->size == n, "new"); stringptr_free(c); vp_states_add(20); vp_trace("strings of %zu bytes", n);
}
const vp_scenario vp_scenarios[] = { { "huge", units, run, "strings of 2^32 + 100 bytes: every function, positions around 2^31, 2^32 and the end" }, { 0 } };
#elif HUGE == 15
#include "stringptr.h"
#include "filelib.h"
const char vp_property[] = "C15";
static int on, idle; static size_t wn, want; static uint64_t wsum; ssize_t __real_write(int, const void*, size_t);
ssize_t __wrap_write(int f, const void *b, size_t n) { if(!on) return __real_write(f, b, n); if(n > 0x7ffff000) n = 0x7ffff000; const unsigned char *p = b; for(size_t i = 0; i < n; i += i + 8 < n && !memcmp(p + i, "\0\0\0\0\0\0\0\0", 8) ? 8 : 1) wsum += p[i] * (wn + i + 1); wn += n; if(wn > want) vp_fail("writing a string of %zu bytes: %zu bytes written so far", want, wn); if(n) { idle = 0; vp_beat(); } else if(++idle > 1000) vp_fail("writing without end: %zu bytes so far", wn); return n; }
static void run(long u) {
	if(!roomy()) return; vp_hang_limit(VP_T(240, 600)); static const size_t SZ[] = { ((size_t)1 << 31) + 9, G4, G4 + 12 };
	for(int i = 0; i < 3; i++) { size_t n = SZ[i]; char path[40]; snprintf(path, sizeof path, "huge%d", (int)getpid()); int f = open(path, O_RDWR | O_CREAT | O_TRUNC, 0600); if(f < 0 || ftruncate(f, n) || pwrite(f, "AB", 2, 0) != 2 || pwrite(f, "C", 1, n - 1) != 1 || pwrite(f, "D", 1, G2 + 3) != 1) { vp_trace("skipped: the file system refuses the sparse file"); unlink(path); return; } if(n > G4 && pwrite(f, "E", 1, G4 + 1) != 1) { vp_trace("skipped"); unlink(path); return; } close(f);
		VP_CHECK((size_t)getfilesize(path) == n, "size of a file of %zu bytes", n); stringptr *s = stringptr_fromfile(path); VP_CHECK(s && s->size == n, "reading a file of %zu bytes: %zu", n, s ? s->size : 0); VP_CHECK(!memcmp(s->ptr, "AB", 3) && s->ptr[n-1] == 'C' && !s->ptr[n] && s->ptr[G2 + 3] == 'D' && (n <= G4 || s->ptr[G4 + 1] == 'E') && allzero(s->ptr + 2, G2 - 10), "contents of a file of %zu bytes", n); unlink(path); vp_beat();
		wn = wsum = 0; want = n; on = 1; size_t r = stringptr_tofile(path, s); on = 0; uint64_t e = 'A' * 1ull + 'B' * 2ull + 'C' * (uint64_t)n + 'D' * (uint64_t)(G2 + 4) + (n > G4 ? 'E' * (uint64_t)(G4 + 2) : 0); VP_CHECK(r == n && wn == n && wsum == e, "writing %zu bytes: reported %zu, written %zu", n, r, wn); stringptr_free(s); unlink(path); vp_trans(4); vp_states_add(2); vp_trace("%zu bytes", n); }
}
const vp_scenario vp_scenarios[] = { { "huge", units, run, "files of 2^31 + 9, 2^32 and 2^32 + 12 bytes read (sparse) and written (recorded by a stand-in)" }, { 0 } };
#elif HUGE == 18
#include "strlib.h"
const char vp_property[] = "C18";
static void run(long u) {
	if(!roomy()) return; vp_hang_limit(VP_T(240, 600)); size_t n = G4 + 5, o = BASE64ENC_BYTES(n); VP_CHECK(o == (n + 2) / 3 * 4, "documented size for %zu bytes: %zu", n, o); unsigned char *a = zeros(n); char *d = zeros(o + 1); a[0] = 0xff; a[n-1] = 0xff; memset(d, '?', 1); d[o] = '?';
	base64enc(d, a, n); VP_CHECK(!d[o] && strlen(d) == o, "length of the encoding"); VP_CHECK(!memcmp(d, "/wAA", 4), "start of the encoding"); VP_CHECK(allbyte(d + 4, o - 8, 'A'), "middle of the encoding"); size_t rem = n % 3; VP_CHECK(!memcmp(d + o - 4, rem == 1 ? "/w==" : rem == 2 ? "AP8=" : "AAD/", 4), "end of the encoding: %s", d + o - 4); vp_beat();
	munmap(a, n); size_t ds = BASE64DEC_BUFSIZE(o); a = zeros(ds); memset(a, 1, 1); size_t r = base64dec(a, d, ds); VP_CHECK(r == n, "decoding %zu characters returned %zu", o, r); VP_CHECK(a[0] == 0xff && a[n-1] == 0xff && !a[n] && allzero((char*)a + 1, n - 2), "decoded bytes"); vp_beat(); VP_CHECK(base64dec(a, d, n) == 0, "decoding %zu bytes into %zu", n, n); munmap(a, ds);
	/* the text variant */ memset(d, 'k', G4 + 3); d[G4 + 3] = 0; size_t e = BASE64ENC_BUFSIZE(G4 + 3); char *t = zeros(e); VP_CHECK(base64enc_str(t, (unsigned char*)d, e) == 1 && strlen(t) == e - 1, "base64enc_str of 2^32 + 3 bytes"); vp_beat(); VP_CHECK(base64enc_str(t, (unsigned char*)d, e - 1) == 0, "base64enc_str into one byte too few"); munmap(t, e); munmap(d, o + 1); vp_trans(5); vp_states_add(3); vp_trace("%zu bytes", n);
}
const vp_scenario vp_scenarios[] = { { "huge", units, run, "2^32 + 5 bytes encoded and decoded; a text of 2^32 + 3 characters" }, { 0 } };
#elif HUGE == 19
#include "strlib.h"
const char vp_property[] = "C19";
static void run(long u) {
	if(!roomy()) return; vp_hang_limit(VP_T(240, 600)); size_t n = G4 + 7; unsigned char *a = zeros(n); char *d = zeros(2 * n + 1); a[0] = 0x1f; a[n-1] = 0xe2; a[G2] = 0xab; d[2*n] = '?'; raw2hex(d, a, n); vp_beat(); VP_CHECK(!d[2*n] && !memcmp(d, "1f0", 3) && !memcmp(d + 2 * n - 4, "00e2", 4) && !memcmp(d + 2 * G2, "ab", 2) && allbyte(d + 2, 2 * G2 - 2, '0') && allbyte(d + 2 * G2 + 2, 2 * (n - G2) - 4, '0'), "hex form of %zu bytes", n);
	memset(a, 0, 1); a[n-1] = 0; a[G2] = 0; size_t r = hex2raw(d, a); VP_CHECK(r == n, "hex2raw returned %zu for %zu bytes", r, n); VP_CHECK(a[0] == 0x1f && a[n-1] == 0xe2 && a[G2] == 0xab && allzero((char*)a + 1, G2 - 1) && allzero((char*)a + G2 + 1, n - G2 - 2), "bytes back"); vp_beat(); d[2*n-1] = 0; r = hex2raw(d, a); VP_CHECK(r == n && a[0] == 1 && a[1] == 0xf0 && a[n-1] == 0x0e, "odd length"); munmap(a, n); munmap(d, 2 * n + 1); vp_trans(3); vp_states_add(3); vp_trace("%zu bytes", n);
}
const vp_scenario vp_scenarios[] = { { "huge", units, run, "2^32 + 7 bytes to hex and back, and an odd number of digits" }, { 0 } };
#elif HUGE == 21
#include "strlib.h"
const char vp_property[] = "C21";
static void run(long u) {
	if(!roomy()) return; vp_hang_limit(VP_T(240, 600)); size_t n = G4 + 300, C = 1 << 20; unsigned char *a = zeros(n), s[256], key[] = "huge key"; int i, j = 0; rc4(a, a, n, key, 8); vp_beat(); for(i = 0; i < 256; i++) s[i] = i; for(i = 0; i < 256; i++) { j = (j + s[i] + key[i % 8]) & 255; unsigned char t = s[i]; s[i] = s[j]; s[j] = t; } i = j = 0;
	for(size_t k = 0; k < n; k++) { i = (i + 1) & 255; j = (j + s[i]) & 255; unsigned char t = s[i]; s[i] = s[j]; s[j] = t; if(a[k] != s[(s[i] + s[j]) & 255]) vp_fail("byte %zu of %zu is wrong", k, n); if(!(k % C)) vp_beat(); } munmap(a, n); vp_nchecks += n; vp_trans(1); vp_states_add(1); vp_trace("%zu bytes", n);
}
const vp_scenario vp_scenarios[] = { { "huge", units, run, "a message of 2^32 + 300 bytes in place" }, { 0 } };
#elif HUGE == 3
#include "tglist.h"
const char vp_property[] = "C03";
static int cmp(const void *a, const void *b) { unsigned char x = *(unsigned char*)a, y = *(unsigned char*)b; return x < y ? -1 : x > y; }
static void run(long u) {
	if(!roomy()) return; vp_hang_limit(VP_T(60, 600)); tglist(unsigned char) l; tglist_init(&l); size_t n = G4 + 40; size_t b[] = { 0, 1000, G2 - 1, G2, G2 + 5, G4 - 1, G4, G4 + 1, n }; size_t i = 0;
	for(int k = 0; k < 8; k++) for(unsigned char c = 10 + 10 * k; i < b[k + 1]; i++) { if(!tglist_add(&l, c)) vp_fail("adding item %zu", i); if(!(i & 0xffffff)) vp_beat(); } VP_CHECK(tglist_getsize(&l) == n, "%zu items, must be %zu", (size_t)tglist_getsize(&l), n);
	for(int k = 0; k < 8; k++) { VP_CHECK(tglist_get(&l, b[k]) == 10 + 10 * k && tglist_get(&l, b[k + 1] - 1) == 10 + 10 * k, "items %zu..%zu", b[k], b[k + 1]); unsigned char o = tglist_get(&l, b[k]); VP_CHECK(tglist_set(&l, 200 + k, b[k]) && tglist_get(&l, b[k]) == 200 + k, "set at %zu", b[k]); tglist_set(&l, o, b[k]); }
	for(int k = 7; k >= 0; k -= 3) { unsigned char c = 15 + 10 * k; size_t r = tglist_insert_sorted(&l, c, cmp); VP_CHECK(r == b[k + 1] && tglist_get(&l, r) == c && tglist_get(&l, r - 1) == c - 5 && (k == 7 || tglist_get(&l, r + 1) == c + 5), "sorted insertion at %zu, must be %zu", r, b[k + 1]); VP_CHECK(tglist_getsize(&l) == n + 1, "count after a sorted insertion"); vp_beat(); VP_CHECK(tglist_delete(&l, r), "delete"); VP_CHECK(tglist_getsize(&l) == n && tglist_get(&l, n - 1) == 80 && (k == 7 || tglist_get(&l, r) == c + 5), "after deleting item %zu", r); vp_beat(); }
	size_t q[] = { 500, G2, G4, n }; for(int k = 0; k < 4; k++) { size_t p = q[k]; unsigned char w = p < n ? tglist_get(&l, p) : 0; VP_CHECK(tglist_insert(&l, 250, p), "insert at %zu", p); VP_CHECK(tglist_getsize(&l) == n + 1 && tglist_get(&l, p) == 250 && (p == n || tglist_get(&l, p + 1) == w) && (p == n || tglist_get(&l, n) == 80), "insert at %zu", p); vp_beat(); VP_CHECK(tglist_delete(&l, p), "delete at %zu", p); VP_CHECK(tglist_getsize(&l) == n && tglist_get(&l, n - 1) == 80 && (p == n || tglist_get(&l, p) == w), "delete at %zu", p); vp_trans(2); vp_beat(); }
	for(int k = 0; k < 8; k++) VP_CHECK(tglist_get(&l, b[k]) == 10 + 10 * k && tglist_get(&l, b[k + 1] - 1) == 10 + 10 * k, "items %zu..%zu at the end", b[k], b[k + 1]); tglist_free_items(&l); vp_states_add(12); vp_trace("2^32 + 40 items");
}
const vp_scenario vp_scenarios[] = { { "huge", units, run, "a typed list of 2^32 + 40 one-byte items: operations around 2^31, 2^32 and the ends" }, { 0 } };
#elif HUGE == 11
#include "stringptrlist.h"
const char vp_property[] = "C11";
static void run(long u) {
	if(!roomy()) return; vp_hang_limit(VP_T(240, 600)); size_t n = G4 + 100; char *a = zeros(n + 1); size_t d[] = { 5, G2 - 1, G2, G2 + 9, G4 - 1, G4, G4 + 50 }; enum { D = VP_N(d) };
	/* cut at single characters and at a three character delimiter */
	for(int t = 0; t < 2; t++) { for(int i = 0; i < D; i++) if(!t) a[d[i]] = ';'; else if(i != 2 && i != 5) memcpy(a + d[i], "<=>", 3);
		stringptr s = { a, n }; stringptrlist *l = t ? stringptr_splits(&s, SPL("<=>")) : stringptr_splitc(&s, ';'); vp_beat(); size_t at = 0, k = 0, w = t ? 3 : 1; VP_CHECK(l && stringptrlist_getsize(l) == (t ? D - 2 : D) + 1u, "number of slices of %zu bytes", n);
		for(int i = 0; i <= D; i++) { if(t && (i == 2 || i == 5)) continue; size_t e = i == D ? n : d[i]; stringptr *x = stringptrlist_get(l, k); VP_CHECK(x->ptr == a + at && x->size == e - at, "slice %zu: %zu bytes at %zd, must be %zu at %zu", k, x->size, (ssize_t)(x->ptr - a), e - at, at); VP_CHECK(!a[e], "slice %zu is not terminated", k); k++; at = e + w; }
		if(t) for(int i = 0; i < D; i++) if(i != 2 && i != 5) VP_CHECK(a[d[i] + 1] == '=' && a[d[i] + 2] == '>', "more than the first byte of the delimiter was changed"); vp_trans(1);
		if(!t) { /* joined again, and found again */ stringptr *j = stringptrlist_tostring(l); vp_beat(); VP_CHECK(j && j->size == n + 1 && j->ptr[n] == '\n' && !j->ptr[n + 1], "joined length"); for(int i = 0; i < D; i++) VP_CHECK(j->ptr[d[i]] == '\n', "joined line end at %zu", d[i]); j->ptr[n] = 0; for(int i = 0; i < D; i++) j->ptr[d[i]] = 0; VP_CHECK(allzero(j->ptr, n), "joined bytes"); free(j);
			a[G4 + 60] = 'e'; j = stringptrlist_tostring_dos(l); vp_beat(); VP_CHECK(j && j->size == n - D + 2 * (D + 1) && !memcmp(j->ptr + j->size - 2, "\r\n", 3) && j->ptr[G4 + 60 + D] == 'e', "joined length (dos)"); for(int i = 0; i < D; i++) VP_CHECK(!memcmp(j->ptr + d[i] + i, "\r\n", 2), "joined line end at %zu (dos)", d[i]); free(j);
			stringptr last = { "\0\0\0\0\0\0\0\0\0e", 10 }; last.size = n - G4 - 51; char tail[64] = { 0 }; tail[9] = 'e'; last.ptr = tail; VP_CHECK(stringptrlist_find(l, &last) == D && stringptrlist_contains(l, &last), "finding the last slice"); stringptr big = { a + d[3] + 1, d[4] - d[3] - 1 }; VP_CHECK(stringptrlist_find(l, &big) == 4, "finding the slice of %zu bytes", big.size); a[G4 + 60] = 0; vp_beat();
			stringptrlist *m = stringptrlist_new(1); stringptr whole = { a, n }; a[0] = 'b'; a[G4 + 2] = 'm'; a[n-1] = 'z'; VP_CHECK(stringptrlist_add_strdup(m, &whole), "add_strdup"); stringptr *x = stringptrlist_get(m, 0); VP_CHECK(x->ptr != a && x->size == n && x->ptr[0] == 'b' && x->ptr[G4 + 2] == 'm' && x->ptr[n-1] == 'z' && !x->ptr[n], "add_strdup of %zu bytes", n); stringptrlist_freestrings(m); stringptrlist_set(m, 0, a, n); VP_CHECK(stringptrlist_dup_entries(m) == -1, "dup_entries"); x = stringptrlist_get(m, 0); VP_CHECK(x->ptr != a && x->size == n && x->ptr[0] == 'b' && x->ptr[G4 + 2] == 'm' && x->ptr[n-1] == 'z' && !x->ptr[n], "dup_entries of %zu bytes", n); stringptrlist_freeall(m); vp_beat(); a[0] = a[G4 + 2] = a[n-1] = 0; }
		stringptrlist_free(l); }
	memset(a, 0, 1); for(int i = 0; i < D; i++) memset(a + d[i], 0, 3); for(int i = 0; i < D; i++) if(i != 2 && i != 5) memcpy(a + d[i], "<=>", 3);
	stringptr s = { a, n }; stringptr *r = stringptr_replace(&s, SPL("<=>"), SPL("#")); vp_beat(); VP_CHECK(r && r->size == n - 2 * (D - 2) && !r->ptr[r->size], "length after replacing"); int k = 0; for(int i = 0; i < D; i++) if(i != 2 && i != 5) { VP_CHECK(r->ptr[d[i] - 2 * k] == '#', "replacement %d", k); r->ptr[d[i] - 2 * k] = 0; k++; } VP_CHECK(allzero(r->ptr, r->size), "bytes kept by replacing"); free(r); munmap(a, n + 1); vp_states_add(10); vp_trace("%zu bytes", n);
}
const vp_scenario vp_scenarios[] = { { "huge", units, run, "strings of 2^32 + 100 bytes split, joined, searched, duplicated and replaced in" }, { 0 } };
#elif HUGE == 20
#include "strlib.h"
const char vp_property[] = "C20";
static void run(long u) {
	if(!roomy()) return; vp_hang_limit(VP_T(240, 600)); size_t n = G4 + 100; char *a = zeros(n + 1); memset(a, 'k', n); memcpy(a + n - 20, "-Needle ", 8);
	VP_CHECK(strstr_uc(a, "NEEDLE", 6) == a + n - 19, "strstr_uc"); vp_beat(); VP_CHECK(findword(a, "NEEDLE", 6) == a + n - 19, "findword"); vp_beat(); VP_CHECK(strstar(a, "N*e*le", 6) == a + n - 19, "strstar"); vp_beat(); memcpy(a + n - 6, "e.TXT", 6); VP_CHECK(strends(a, "e.TXT") == 1 && !strends(a, "ee.TXT"), "strends"); vp_beat(); a[n - 25] = '!'; VP_CHECK(containsChar(a, '!') == 1 && containsChar(a, '?') == 0, "containsChar"); vp_beat(); char *c = strdup_n(a, n - 10); VP_CHECK(c && strlen(c) == n - 10 && !memcmp(c + n - 20, "-Needle kk", 11), "strdup_n"); free(c); munmap(a, n + 1); vp_trans(6); vp_states_add(6); vp_trace("%zu bytes", n);
}
const vp_scenario vp_scenarios[] = { { "huge", units, run, "texts of 2^32 + 100 bytes searched" }, { 0 } };
#endif
