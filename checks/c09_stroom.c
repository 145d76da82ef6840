#include "engine.h"
#include <fcntl.h>
#include <sys/stat.h>
#include "stringptrlist.h"
#include "strlib.h"
#include "filelist.h"
const char vp_property[] = "C09";
static unsigned long hit, globhit; static int oom_state = 1;
/* glob allocates inside libc: its documented answer to a failure is GLOB_NOSPACE */
int __real_glob(const char*, int, int (*)(const char*, int), glob_t*);
int __wrap_glob(const char *p, int f, int (*e)(const char*, int), glob_t *g) {
	int on = vp_oom_on; if(on == 2 || (on == 1 && vp_fault(1))) { vp_trace("    glob runs out of memory"); vp_oom_hits++; globhit++; g->gl_pathc = 0; g->gl_pathv = 0; return GLOB_NOSPACE; }
	vp_oom_on = 0; int r = __real_glob(p, f, e, g); vp_oom_on = on; return r;
}
#define FAULTY(EXPR) ({ vp_oom_on = oom_state; unsigned long h_ = vp_oom_hits; __typeof__(EXPR) r_ = (EXPR); oom_state = vp_oom_on; vp_oom_on = 0; hit = vp_oom_hits - h_; vp_trans(1); r_; })
static int fdcount(void) { int n = 0; for(int i = 0; i < 64; i++) if(fcntl(i, F_GETFD) != -1) n++; return n; }
static const char *LIT[] = { "", "a", "hello", "a,b,,c", ",,", "aXbXXc", "a\nb\n\nc\n", 0 };
static char longs[3000];
static const char *lit(int i, size_t *n) { if(LIT[i]) { *n = strlen(LIT[i]); return LIT[i]; } for(int k = 0; k < 2999; k++) longs[k] = k % 7 == 6 ? ',' : k % 50 == 49 ? 'X' : 'a' + k % 26; *n = 2999; return longs; }
#define NL VP_N(LIT)
static stringptr *mk(const char *b, size_t n) { stringptr *s = vp_buf(sizeof *s); s->ptr = vp_buf(n + 1); memcpy(s->ptr, b, n); s->ptr[n] = 0; s->size = n; return s; }
static char *what;
#define NEED(r) do { VP_CHECK((r) || hit, "%s failed though no allocation failed", what); } while(0)
static void sp_is(stringptr *r, const char *e, size_t n) { VP_CHECK(r->size == n && !memcmp(r->ptr, e, n) && r->ptr[n] == 0, "%s returned a wrong result as success (%zu bytes, must be %zu)%s", what, r->size, n, hit ? " after an allocation failed" : ""); }
/* reference split */
static size_t ps[4000], pl[4000]; static int np;
static void pieces(const char *a, size_t n, const char *d, size_t dn) { np = 0; size_t i = 0, st = 0; while(i < n) { if(dn && dn <= n - i && !memcmp(a + i, d, dn)) { ps[np] = st; pl[np++] = i - st; i += dn; st = i; } else i++; } ps[np] = st; pl[np++] = n - st; }
enum { COPY, CONCAT, FORMAT, FORMATL, SDUP_, DUPN, SPLITC, SPLITS, REPL, TOSTR, TODOS, ADDDUP, DUPALL, NFUN };
static char *nm[] = { "stringptr_copy", "stringptr_concat", "stringptr_format", "stringptr_format (long)", "stringptr_strdup", "strdup_n", "stringptr_splitc", "stringptr_splits", "stringptr_replace", "stringptrlist_tostring", "stringptrlist_tostring_dos", "stringptrlist_add_strdup", "stringptrlist_dup_entries" };
static void one(int f, int li) {
	size_t n; const char *a = lit(li, &n); stringptr *x = mk(a, n), *r; what = nm[f]; char *c; static char e[70000]; size_t en; int i;
	long live = vp_live();
	switch(f) {
	case COPY: r = FAULTY(stringptr_copy(x)); NEED(r); if(r) sp_is(r, a, n); stringptr_free(r); break;
	case CONCAT: { stringptr *y = mk("++", 2); r = FAULTY(stringptr_concat(x, y, x, NULL)); NEED(r); memcpy(e, a, n); memcpy(e + n, "++", 2); memcpy(e + n + 2, a, n); if(r) sp_is(r, e, 2 * n + 2); stringptr_free(r); break; }
	case FORMAT: r = FAULTY(stringptr_format("%s-%d", x->ptr, 42)); NEED(r); en = snprintf(e, sizeof e, "%s-42", a); if(r) sp_is(r, e, en); stringptr_free(r); break;
	case FORMATL: r = FAULTY(stringptr_format("%s%s%.300d", x->ptr, x->ptr, 5)); NEED(r); en = snprintf(e, sizeof e, "%s%s%.300d", a, a, 5); if(r) sp_is(r, e, en); stringptr_free(r); break;
	case SDUP_: c = FAULTY(stringptr_strdup(x)); NEED(c); if(c) VP_CHECK(!memcmp(c, a, n) && c[n] == 0, "%s: wrong copy", what); free(c); break;
	case DUPN: if(!n) break; c = FAULTY(strdup_n(x->ptr, n)); NEED(c); if(c) VP_CHECK(!memcmp(c, a, n) && c[n] == 0, "%s: wrong copy", what); free(c); break;
	case SPLITC: case SPLITS: { stringptrlist *l = f == SPLITC ? FAULTY(stringptr_splitc(x, ',')) : FAULTY(stringptr_splits(x, mk("X", 1))); NEED(l); pieces(a, n, f == SPLITC ? "," : "X", 1);
		if(l) { VP_CHECK(stringptrlist_getsize(l) == (size_t)np, "%s returned %zu of %d pieces as success", what, (size_t)stringptrlist_getsize(l), np); for(i = 0; i < np; i++) { stringptr *s = stringptrlist_get(l, i); VP_CHECK(s->size == pl[i] && s->ptr == x->ptr + ps[i], "%s: piece %d", what, i); } stringptrlist_free(l); } break; }
	case REPL: { stringptr *q = mk("XX", 2); static const char *W[] = { "X", "", ",", "a", "yyyyyy" }; for(i = 0; i < 3 && (i == 0 || n < 100); i++) { stringptr *src = mk(a, n), *w = mk(W[i], strlen(W[i])); pieces(a, n, W[i], strlen(W[i])); en = 0; for(int k = 0; k < np; k++) { memcpy(e + en, a + ps[k], pl[k]); en += pl[k]; if(k < np - 1) { memcpy(e + en, "XX", 2); en += 2; } } r = FAULTY(stringptr_replace(src, w, q)); NEED(r); if(r) sp_is(r, e, en); stringptr_free(r); } break; }
	case TOSTR: case TODOS: { stringptrlist *l = stringptrlist_new(4); en = 0; for(i = 0; i < 3; i++) { stringptrlist_add(l, x->ptr, n); memcpy(e + en, a, n); en += n; if(f == TODOS) e[en++] = '\r'; e[en++] = '\n'; } r = f == TOSTR ? FAULTY(stringptrlist_tostring(l)) : FAULTY(stringptrlist_tostring_dos(l)); NEED(r); if(r) sp_is(r, e, en); VP_CHECK(stringptrlist_getsize(l) == 3, "list changed"); stringptr_free(r); stringptrlist_free(l); break; }
	case ADDDUP: { stringptrlist *l = stringptrlist_new(2); int k = 0; for(i = 0; i < 6; i++) { int g = FAULTY(stringptrlist_add_strdup(l, x)); VP_CHECK(g == 1 || (g == 0 && hit), "%s returned %d%s", what, g, hit ? "" : " though no allocation failed"); k += g; VP_CHECK(stringptrlist_getsize(l) == (size_t)k, "%s: list length", what); }
		for(i = 0; i < k; i++) { stringptr *s = stringptrlist_get(l, i); VP_CHECK(s->size == n && !memcmp(s->ptr, a, n) && s->ptr[n] == 0 && s->ptr != x->ptr, "%s: entry %d", what, i); } stringptrlist_freeall(l); break; }
	case DUPALL: { stringptrlist *l = stringptrlist_new(4); int N = 5; for(i = 0; i < N; i++) stringptrlist_add(l, x->ptr, n); ssize_t g = FAULTY(stringptrlist_dup_entries(l)); VP_CHECK(g >= -1 && g < N && (g == -1 || hit), "%s returned %zd", what, g);
		for(i = 0; i < N; i++) { stringptr *s = stringptrlist_get(l, i); VP_CHECK(s->size == n && !memcmp(s->ptr, a, n), "%s: entry %d damaged", what, i); if(g == -1 || i < g) { VP_CHECK(s->ptr != x->ptr && s->ptr[n] == 0, "%s returned %zd, but entry %d is not duplicated", what, g, i); free(s->ptr); } else VP_CHECK(s->ptr == x->ptr, "%s returned %zd, but entry %d was replaced", what, g, i); }
		stringptrlist_free(l); break; }
	}
	VP_CHECK(f == SPLITC || f == SPLITS || f == REPL || (x->size == n && !memcmp(x->ptr, a, n)), "%s changed its input", what);
	VP_LEAKCHECK(live, "%s", what);
	vp_trace("%s of %s: %s", what, vp_show(a, n > 40 ? 40 : n), hit ? "an allocation failed" : "ok");
	vp_state(vp_mix(vp_mix(f * 100 + li, vp_oom_hits), vp_alloc_calls));
}
static long a_units(void) { return NFUN * NL; }
static void a_run(long u) { oom_state = 1; vp_fault_budget(2); one(u % NFUN, u / NFUN); vp_buf_reset(); }
/* lists of n entries, texts of n pieces */
static const int CNT[] = { 0, 1, 2, 3, 4, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 600, 1024 };
static long l_units(void) { return 6 * VP_N(CNT); }
static void l_run(long u) {
	int f = u % 6, N = CNT[u / 6], i; static char e[70000]; size_t en = 0; stringptr *r; static char *nm2[] = { "stringptr_splitc", "stringptr_splits", "stringptr_replace", "stringptrlist_tostring", "stringptrlist_add_strdup", "stringptrlist_dup_entries" }; what = nm2[f]; oom_state = 1; vp_fault_budget(N > 300 ? 1 : VP_T(1, 2)); long live = vp_live();
	char txt[5000]; size_t tn = 0; for(i = 0; i < N; i++) { for(int k = 0; k < i % 3; k++) txt[tn++] = 'a' + i % 26; txt[tn++] = ','; } txt[tn++] = 'z'; stringptr *x = mk(txt, tn);
	if(f < 3) pieces(txt, tn, ",", 1);
	if(f < 2) { stringptrlist *l = f == 0 ? FAULTY(stringptr_splitc(x, ',')) : FAULTY(stringptr_splits(x, mk(",", 1))); NEED(l); if(l) { VP_CHECK(stringptrlist_getsize(l) == (size_t)np, "%s returned %zu of %d pieces as success", what, (size_t)stringptrlist_getsize(l), np); for(i = 0; i < np; i++) { stringptr *s = stringptrlist_get(l, i); VP_CHECK(s->size == pl[i] && s->ptr == x->ptr + ps[i], "%s: piece %d", what, i); } stringptrlist_free(l); } }
	else if(f == 2) { for(i = 0; i < np; i++) { memcpy(e + en, txt + ps[i], pl[i]); en += pl[i]; if(i < np - 1) { memcpy(e + en, "--", 2); en += 2; } } r = FAULTY(stringptr_replace(x, mk(",", 1), mk("--", 2))); NEED(r); if(r) sp_is(r, e, en); stringptr_free(r); }
	else if(f == 3) { stringptrlist *l = stringptrlist_new(4); for(i = 0; i < N; i++) { stringptrlist_add(l, txt, i % 4); memcpy(e + en, txt, i % 4); en += i % 4; e[en++] = '\n'; } if(N) { r = FAULTY(stringptrlist_tostring(l)); NEED(r); if(r) sp_is(r, e, en); stringptr_free(r); } stringptrlist_free(l); }
	else if(f == 4) { stringptrlist *l = stringptrlist_new(2); int k = 0; for(i = 0; i < N; i++) { int g = FAULTY(stringptrlist_add_strdup(l, x)); VP_CHECK(g == 1 || (g == 0 && hit), "%s returned %d%s", what, g, hit ? "" : " though no allocation failed"); k += g; VP_CHECK(stringptrlist_getsize(l) == (size_t)k, "%s: list length", what); } for(i = 0; i < k; i++) { stringptr *s = stringptrlist_get(l, i); VP_CHECK(s->size == tn && !memcmp(s->ptr, txt, tn) && s->ptr[tn] == 0 && s->ptr != x->ptr, "%s: entry %d", what, i); } stringptrlist_freeall(l); }
	else { stringptrlist *l = stringptrlist_new(4); for(i = 0; i < N; i++) stringptrlist_add(l, x->ptr + i, 1); ssize_t g = FAULTY(stringptrlist_dup_entries(l)); VP_CHECK(g >= -1 && g < (N ? N : 1) && (g == -1 || hit), "%s of %d entries returned %zd", what, N, g); for(i = 0; i < N; i++) { stringptr *s = stringptrlist_get(l, i); VP_CHECK(s->size == 1 && s->ptr[0] == txt[i], "%s: entry %d damaged", what, i); if(g == -1 || i < g) { VP_CHECK(s->ptr != x->ptr + i && s->ptr[1] == 0, "%s returned %zd, but entry %d is not duplicated", what, g, i); free(s->ptr); } else VP_CHECK(s->ptr == x->ptr + i, "%s returned %zd, but entry %d was replaced", what, g, i); } stringptrlist_free(l); }
	VP_LEAKCHECK(live, "%s", what); vp_trace("%s with %d entries: %s", what, N, hit ? "an allocation failed" : "ok"); vp_state(vp_mix(vp_mix(5000 + u, vp_oom_hits), vp_alloc_calls)); vp_buf_reset();
}
/* two functions in a row: the first one's failure must not affect the second */
static long b_units(void) { return NFUN * NFUN * 2; }
static void b_run(long u) { oom_state = 1; vp_fault_budget(1); int li = u % 2 ? 5 : 3; one(u / 2 % NFUN, li); oom_state = 0; vp_fault_budget(0); one(u / 2 / NFUN, li); vp_buf_reset(); }
/* files */
static long f_units(void) { return 8 * 2; }
static void f_run(long u) {
	static const char *C[] = { "x", "a\nb\n", "\n\n\nq", "no newline at end", "l1\nl2\nl3\nl4\nl5\nl6\nl7\nl8\n", "", "abc\n", 0 }; char path[32]; snprintf(path, sizeof path, "o%d", (int)getpid()); const char *a = C[u / 2]; size_t n; static char bigf[70000]; if(a) n = strlen(a); else { for(n = 0; n < sizeof bigf; n++) bigf[n] = n % 500 == 499 ? '\n' : 'a' + n % 26; a = bigf; }
	int f = open(path, O_WRONLY | O_CREAT | O_TRUNC, 0600); if(write(f, a, n) != (ssize_t)n) vp_fail("write"); close(f);
	int fds = fdcount(); long live = vp_live(); oom_state = 1; vp_fault_budget(n > 1000 ? 1 : 2);
	if(u & 1) { what = "stringptr_fromfile"; stringptr *r = FAULTY(stringptr_fromfile(path)); VP_CHECK(r || hit || !n, "fromfile failed though no allocation failed"); if(r) sp_is(r, a, n); stringptr_free(r); }
	else { what = "stringptrlist_fromfile"; stringptrlist *l = stringptrlist_new(2); int g = FAULTY(stringptrlist_fromfile(l, path)); VP_CHECK(g || hit, "%s failed though no allocation failed", what); size_t N = stringptrlist_getsize(l); int lines = 0; size_t p = 0; while(p < n) { size_t L = 0; while(p + L < n && a[p + L] != '\n') L++; if((size_t)lines < N) { stringptr *s = stringptrlist_get(l, lines); VP_CHECK(s->size == L && !memcmp(s->ptr, a + p, L), "%s: entry %d", what, lines); } lines++; p += L + 1; } VP_CHECK(g ? N == (size_t)lines : N <= (size_t)lines, "%s returned %d with %zu of %d lines", what, g, N, lines); stringptrlist_freeall(l); }
	VP_CHECK(fdcount() == fds, "%s leaks a descriptor%s", what, hit ? " when memory runs out" : ""); VP_LEAKCHECK(live, "%s", what);
	vp_trace("%s of %zu bytes: %s", what, n, hit ? "an allocation failed" : "ok"); vp_state(vp_mix(vp_mix(1000 + u, vp_oom_hits), vp_alloc_calls));
}
/* directory search */
static char dir[64];
static long g_units(void) { return 16 * 3; }
static void g_run(long u) {
	int fl = u % 16, k = u / 16 * 9; long live; snprintf(dir, sizeof dir, "d%d.%d", (int)getpid(), k); if(mkdir(dir, 0700) == 0) for(int i = 0; i < k; i++) { char p[128]; snprintf(p, sizeof p, "%s/%sf%d", dir, i % 3 == 2 ? "." : "", i); close(open(p, O_WRONLY | O_CREAT, 0600)); }
	if(k == 0 && !(fl & 8)) return; /* no match at all is not a success */
	filelist l; stringptr d = { dir, strlen(dir) }; int fds = fdcount();
	int ref = filelist_search(&l, &d, SPL("*"), fl); VP_CHECK(ref == 0, "reference search failed with %d", ref); size_t N = stringptrlist_getsize(l.files); filelist_free(&l);
	live = vp_live(); memset(&l, 0, sizeof l); oom_state = 1; vp_fault_budget(2); globhit = 0;
	int r = FAULTY(filelist_search(&l, &d, SPL("*"), fl)); VP_CHECK(r == 0 || hit, "search failed with %d though no allocation failed", r);
	vp_trace("search %s flags %d: %d%s", dir, fl, r, hit ? " (an allocation failed)" : "");
	if(r == 0) { VP_CHECK(!globhit, "search succeeded though glob ran out of memory"); VP_CHECK(stringptrlist_getsize(l.files) == N, "search returned %zu of %zu entries as success after an allocation failed", (size_t)stringptrlist_getsize(l.files), N); for(size_t i = 0; i < N; i++) VP_CHECK(stringptrlist_get(l.files, i)->size && stringptrlist_get(l.files, i)->ptr, "entry %zu", i); filelist_free(&l); }
	else VP_CHECK(r == -1 || r == GLOB_NOSPACE, "search returned %d when memory ran out", r);
	VP_CHECK(fdcount() == fds, "search leaks a descriptor"); VP_LEAKCHECK(live, "filelist_search flags %d", fl); vp_state(vp_mix(vp_mix(2000 + u, vp_oom_hits), vp_alloc_calls));
}
const vp_scenario vp_scenarios[] = {
	{ "functions", a_units, a_run, "13 functions x 8 inputs x every allocation failing once or from there on, up to 2 failures" },
	{ "counts", l_units, l_run, "splitting into, replacing, joining and duplicating 0..1024 entries (26 counts) x every allocation failing once or from there on" },
	{ "after", b_units, b_run, "every function after every other one that ran out of memory" },
	{ "files", f_units, f_run, "reading 8 files as string and as list x every allocation failing" },
	{ "search", g_units, g_run, "directory search with 16 flag sets in directories of 0, 9, 18 files x every allocation (and glob itself) failing" },
	{ 0 }
};
