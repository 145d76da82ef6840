#include "engine.h"
#include <fcntl.h>
#include "strs.h"
#include "iniparser.h"
const char vp_property[] = "C12";
static const char *LN[] = { "[a]", "[b]", "[ab]", "[a] ", "k=v", "kk=w", "k=", "", "k", "x=k=1", "[]", "[] ", "[a", "[ab]\t ", "k =q", ";[a]", "K=V", " k=9", "[", "k=\tz " };
#define NLN VP_N(LN)
static const char *SEC[] = { "a", "b", "ab", "c", "aa", "n0", "n1" }, *KEY[] = { "k", "kk", "x", "z", "kkk", "K", "z0", "z1" };
static const char *ln[400]; static int n; static stringptrlist *L; static stringptr *ptrs[400];
static stringptr *mk(const char *b) { size_t m = strlen(b); stringptr *s = vp_buf(sizeof *s); s->ptr = vp_copy(b, m); s->size = m; return s; }
static int header(const char *l, const char *name) { size_t k = strlen(name); if(l[0] != '[' || strncmp(l + 1, name, k) || l[1 + k] != ']') return 0; l += k + 2; while(*l == ' ' || *l == '\t') l++; return !*l; }
static void section_at(const char *name, int from, size_t *st, size_t *cnt) { for(int i = from; i < n; i++) if(header(ln[i], name)) { *st = i + 1; int j = i + 1; while(j < n && ln[j][0] != '[') j++; *cnt = j - i - 1; return; } *st = *cnt = 0; }
static void values(ini_section *s) {
	for(int k = 0; k < VP_N(KEY); k++) { size_t kl = strlen(KEY[k]); stringptr *key = mk(KEY[k]), res = { (char*)1, 99 }; 
		for(int pass = 0; pass < 2; pass++) for(size_t from = s->startline; from <= s->startline + (pass ? s->linecount : 0); from++) { int e = -1; for(size_t i = from; i < s->startline + s->linecount; i++) if(!strncmp(ln[i], KEY[k], kl) && ln[i][kl] == '=') { e = i; break; }
			ssize_t r; if(pass) { r = iniparser_getvalue_at(L, s, key, &res, from); VP_CHECK(r == e, "value %s from line %zu: line %zd, must be %d", KEY[k], from, r, e); } else iniparser_getvalue(L, s, key, &res);
			if(e < 0) VP_CHECK(!res.ptr && !res.size, "key %s found as %s, must be absent", KEY[k], vp_show(res.ptr, res.size)); else VP_CHECK(res.ptr == ptrs[e]->ptr + kl + 1 && res.size == strlen(ln[e]) - kl - 1, "key %s: value %s, must be %s", KEY[k], res.ptr ? vp_show(res.ptr, res.size) : "null", vp_shows(ln[e] + kl + 1)); vp_trans(1); } }
}
static void build(void) { vp_buf_reset(); L = stringptrlist_new(4); for(int i = 0; i < n; i++) { ptrs[i] = mk(ln[i]); stringptrlist_add(L, ptrs[i]->ptr, ptrs[i]->size); } }
static void judge(void) {
	size_t cnt = 0; for(int i = 0; i < n; i++) { size_t m = strlen(ln[i]); while(m && (ln[i][m-1] == ' ' || ln[i][m-1] == '\t')) m--; if(m >= 3 && ln[i][0] == '[' && ln[i][m-1] == ']') cnt++; }
	size_t g = iniparser_count_sections(L); VP_CHECK(g == cnt, "%zu sections counted, must be %zu", g, cnt);
	for(int s = 0; s < VP_N(SEC); s++) { stringptr *name = mk(SEC[s]); size_t st, c; section_at(SEC[s], 0, &st, &c); ini_section r = iniparser_get_section(L, name); VP_CHECK(r.startline == st && r.linecount == c, "section %s: start %zu count %zu, must be %zu, %zu", SEC[s], r.startline, r.linecount, st, c); values(&r);
		ini_section it = { 0, 0 }; int from = 0, rounds = 0; do { section_at(SEC[s], from, &st, &c); it = iniparser_get_next_section(L, name, &it); VP_CHECK(it.startline == st && it.linecount == c, "next section %s after line %d: start %zu count %zu, must be %zu, %zu", SEC[s], from, it.startline, it.linecount, st, c); if(st) values(&it); from = st + c; VP_CHECK(++rounds <= n + 1, "endless"); vp_trans(1); } while(st); vp_trans(2); }
	ini_section w = iniparser_file_as_section(L); VP_CHECK(w.startline == 0 && w.linecount == (size_t)n, "whole file as section: %zu, %zu", w.startline, w.linecount); values(&w);
	if(vp_tracing) for(int i = 0; i < n; i++) vp_trace("line %d: %s", i, vp_shows(ln[i]));
	vp_states_add(1); stringptrlist_free(L); L = 0;
}
static long a_units(void) { return NLN * NLN; }
static void a_run(long u) { ln[0] = LN[u % NLN]; ln[1] = LN[u / NLN]; for(int i = 0; i < NLN; i++) { ln[2] = LN[i]; n = 3; build(); judge(); if(vp_tier) for(int j = 0; j < NLN; j++) { ln[3] = LN[j]; n = 4; build(); judge(); } } n = 2; build(); judge(); if(u < NLN) { n = 1; build(); judge(); } if(!u) { n = 0; build(); judge(); } }
static const char *SM[] = { "[a]", "[b]", "[ab]\t ", "k=v", "kk=w", "" };
static long b_units(void) { return 216; }
static void b_run(long u) { int D = VP_T(6, 7); long tot = D == 6 ? 216 : 1296; ln[0] = SM[u % 6]; ln[1] = SM[u / 6 % 6]; ln[2] = SM[u / 36]; n = D; for(long i = 0; i < tot; i++) { long v = i; for(int k = 3; k < D; k++) { ln[k] = SM[v % 6]; v /= 6; } build(); judge(); } }
/* through a real text: split into lines and looked up */
static long c_units(void) { return NLN * NLN * 2; }
static void c_run(long u) { int nl = u & 1; u >>= 1; char t[100]; snprintf(t, sizeof t, "%s\n%s%s", LN[u % NLN], LN[u / NLN], nl ? "\n" : ""); vp_buf_reset(); size_t m = strlen(t); stringptr *s = vp_buf(sizeof *s); s->ptr = vp_buf(m + 1); memcpy(s->ptr, t, m + 1); s->size = m; L = stringptr_linesplit(s); ln[0] = LN[u % NLN]; ln[1] = LN[u / NLN]; ln[2] = ""; n = stringptrlist_getsize(L); VP_CHECK(n == 2 + nl, "lines %d", n); for(int i = 0; i < n; i++) ptrs[i] = stringptrlist_get(L, i); judge(); }
/* long files */
static long d_units(void) { return 40; }
static void d_run(long u) { static char buf[400][40]; n = 0; for(int i = 0; i < 300 && n < 400; i++) { int k = (i * (u + 3) + i / 7) % 11; if(k == 0) sprintf(buf[n], "[%s]", SEC[(i / 3 + u) % 4]); else if(k < 4) sprintf(buf[n], "%s=%d", KEY[(i + u) % 6], i); else sprintf(buf[n], "k%d=%d", k, i); ln[n] = buf[n]; n++; } build(); for(int s = 0; s < VP_N(SEC); s++) ; judge(); }
/* names and keys of every length: a name never matches a longer or shorter one */
static long e_units(void) { return VP_T(40, 130); }
static void e_run(long u) { static char h[4][200], nm[200]; memset(nm, 'q', u + 1); nm[u + 1] = 0; for(int d = 0; d < 3; d++) { snprintf(h[d], 200, "[%.*s]", (int)u + d, "qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqq"); }
	for(int perm = 0; perm < 6; perm++) { int o[3]; o[0] = perm / 2; o[1] = (o[0] + 1 + perm % 2) % 3; o[2] = 3 - o[0] - o[1]; n = 3; for(int i = 0; i < 3; i++) ln[i] = h[o[i]]; build(); size_t st, c; section_at(nm, 0, &st, &c); ini_section r = iniparser_get_section(L, mk(nm)); VP_CHECK(r.startline == st && r.linecount == c, "section name of length %ld: start %zu, must be %zu", u + 1, r.startline, st); stringptrlist_free(L);
		char kv[3][200]; for(int i = 0; i < 3; i++) { snprintf(kv[i], 200, "%.*s=%d", (int)u + o[i], h[2] + 1, o[i]); if(h[2][1 + u + o[i]] == 0 || 1) { memset(kv[i], 'q', u + o[i]); kv[i][u + o[i]] = '='; kv[i][u + o[i] + 1] = '0' + o[i]; kv[i][u + o[i] + 2] = 0; } ln[i] = kv[i]; } build(); ini_section w = { 0, 3 }; stringptr res; iniparser_getvalue(L, &w, mk(nm), &res); VP_CHECK(res.size == 1 && *res.ptr == '1', "key of length %ld: value %s", u + 1, res.ptr ? vp_show(res.ptr, res.size) : "null"); stringptrlist_free(L); vp_trans(2); vp_states_add(2); }
	vp_trace("names of length %ld", u + 1); }
/* every byte value inside names, keys, values and noise lines */
static long y_units(void) { return 255; }
static void y_run(long u) { char c = u + 1; static char l[8][8], s0[4], s1[4]; if(c == '\n' || c == ']' || c == '}') return;
	for(int p = 0; p < 3; p++) { char nm[4] = "abc"; nm[p] = c; strcpy(s0, nm); nm[p] = c ^ 0x20 ? c ^ 0x20 : 'z'; strcpy(s1, nm); SEC[5] = s0; SEC[6] = s1; KEY[6] = strchr(s0, '=') ? "z" : s0; KEY[7] = strchr(s1, '=') ? "z" : s1;
		sprintf(l[0], "[%s]", s1); sprintf(l[1], "%s=1", s0); sprintf(l[2], "%s=%c%c", s1, c, c); sprintf(l[3], "[%s]", s0); sprintf(l[4], "[abc]"); sprintf(l[5], "%cbc=2", c); sprintf(l[6], "%s", s0);
		static const signed char F[][8] = { { 0, 1, 2, 3, 2, 1, -1 }, { 3, 1, 0, 2, -1 }, { 4, 1, 2, 3, 1, -1 }, { 3, 5, 1, 0, 5, 1, 2, -1 }, { 3, 6, 1, 0, 6, 2, -1 }, { 0, 1, -1 }, { 3, 2, -1 } };
		for(int f = 0; f < VP_N(F); f++) { n = 0; for(int i = 0; F[f][i] >= 0; i++) ln[n++] = l[F[f][i]]; build(); judge(); } }
	/* alone before and after a header and a key line */
	if(c == '[') return; static char one[8], two[8], three[8]; sprintf(one, "%c", c); sprintf(two, "%c[a]", c); sprintf(three, "%ck=3", c); const char *F2[][4] = { { one, "[a]", one, "k=v" }, { two, "k=v", "[a]", two }, { "[a]", three, "k=v", one }, { "[a]", "k=v", three, two } }; for(int f = 0; f < 4; f++) { n = 4; for(int i = 0; i < 4; i++) ln[i] = F2[f][i]; build(); judge(); }
}
/* every run of up to 5 blanks behind headers, keys, values and noise, in files of the same 5 lines in every order */
static long z_units(void) { return strs_count(2, 5); }
static void z_run(long u) { char t[8]; strs_get(u, " \t", 2, t); static char l[5][16]; static const char *B[] = { "[a]", "[b]", "k=v", "[]", "kk=" };
	for(int which = 0; which < 32; which++) { for(int i = 0; i < 5; i++) snprintf(l[i], sizeof l[i], "%s%s", B[i], which >> i & 1 ? t : "");
		for(int p = 0; p < 120; p++) { int o[5] = { 0, 1, 2, 3, 4 }, v = p; for(int i = 0; i < 4; i++) { int j = i + v % (5 - i); v /= 5 - i; int s = o[i]; o[i] = o[j]; o[j] = s; } n = 5; for(int i = 0; i < 5; i++) ln[i] = l[o[i]]; build(); judge(); } } }
/* sizes around powers of two and ten as number of lines before, in and between sections, and as length of names, keys, values and noise lines */
#define WHI VP_T(17, 18)
static long w_units(void) { return sizes_count(7, WHI) * 2; }
static void addl(stringptrlist *l, const char *t) { stringptrlist_add(l, (char*)t, strlen(t)); }
static void w_run(long u) {
	size_t N = sizes_get(7, WHI, u / 2), k = vp_buf_mark(); long live = vp_live(); ini_section r; stringptr res; ssize_t z; stringptr *A = mk("a"), *K = mk("k"), *Q = mk("q");
	if(u % 2 == 0) {
		stringptrlist *l = stringptrlist_new(N > 4100 ? N / 3 : 16); for(size_t i = 0; i < N; i++) addl(l, i % 5 ? "x=1" : ""); addl(l, "[a]"); for(size_t i = 0; i < N; i++) addl(l, "m=2"); addl(l, "k=first"); addl(l, "[b]"); addl(l, "q=inb"); addl(l, "[a]"); for(size_t i = 0; i + 1 < N; i++) addl(l, "k"); addl(l, "q=5");
		VP_CHECK(iniparser_count_sections(l) == 3, "sections counted"); r = iniparser_get_section(l, A); VP_CHECK(r.startline == N + 1 && r.linecount == N + 1, "section after %zu lines with %zu lines: %zu, %zu", N, N + 1, r.startline, r.linecount);
		iniparser_getvalue(l, &r, K, &res); VP_CHECK(res.size == 5 && !memcmp(res.ptr, "first", 5), "key behind %zu lines of the section", N); iniparser_getvalue(l, &r, Q, &res); VP_CHECK(!res.ptr && !res.size, "key of a later section found"); z = iniparser_getvalue_at(l, &r, K, &res, 2 * N + 1); VP_CHECK(z == (ssize_t)(2 * N + 1), "key at line %zu: %zd", 2 * N + 1, z); z = iniparser_getvalue_at(l, &r, K, &res, 2 * N + 2); VP_CHECK(z == -1 && !res.ptr, "key behind its section");
		r = iniparser_get_next_section(l, A, &r); VP_CHECK(r.startline == 2 * N + 5 && r.linecount == N, "second section: %zu, %zu must be %zu, %zu", r.startline, r.linecount, 2 * N + 5, N); iniparser_getvalue(l, &r, Q, &res); VP_CHECK(res.size == 1 && *res.ptr == '5', "key on the last of %zu lines", N); iniparser_getvalue(l, &r, K, &res); VP_CHECK(!res.ptr, "key without value found");
		r = iniparser_get_next_section(l, A, &r); VP_CHECK(!r.startline && !r.linecount, "third section"); r = iniparser_get_section(l, mk("b")); VP_CHECK(r.startline == 2 * N + 3 && r.linecount == 1, "section b"); r = iniparser_file_as_section(l); VP_CHECK(r.startline == 0 && r.linecount == 3 * N + 5, "whole file: %zu lines", r.linecount); iniparser_getvalue(l, &r, Q, &res); VP_CHECK(res.size == 3, "first q of the file"); stringptrlist_free(l);
		/* N sections of two names */
		l = stringptrlist_new(N > 4100 ? N / 3 : 16); for(size_t i = 0; i < N; i++) addl(l, i + 1 == N ? "[a]" : i % 300 == 299 ? "[q]" : "[b]"); addl(l, "k=v"); VP_CHECK(iniparser_count_sections(l) == N, "%zu sections counted", N); r = iniparser_get_section(l, A); VP_CHECK(r.startline == N && r.linecount == 1, "last of %zu sections", N); ini_section it = { 0, 0 }; for(size_t i = 299; i + 1 < N; i += 300) { it = iniparser_get_next_section(l, Q, &it); VP_CHECK(it.startline == i + 1 && it.linecount == 0, "section at line %zu", i); vp_trans(1); } it = iniparser_get_next_section(l, Q, &it); VP_CHECK(!it.startline, "one section too many"); stringptrlist_free(l); vp_trans(20);
	} else {
		char *b = malloc(N + 8), *c = malloc(N + 8), *d = malloc(N + 8), *e = malloc(N + 8), *f = malloc(N + 8); stringptr *nm = vp_buf(sizeof *nm); nm->size = N; nm->ptr = vp_buf(N); for(size_t i = 0; i < N; i++) nm->ptr[i] = 'a' + (i * 3 + i / 256) % 26;
		*b = '['; memcpy(b + 1, nm->ptr, N); memcpy(b + 1 + N, "]", 2); strcpy(c, b); c[N] ^= 1; strcpy(d, b); memcpy(d + N, "]", 2); memcpy(e, nm->ptr, N); memcpy(e + N, "=v", 3); memcpy(f, nm->ptr, N); f[N-1] ^= 1; memcpy(f + N, "=w", 3);
		stringptrlist *l = stringptrlist_new(N > 4100 ? N / 3 : 16); addl(l, c); addl(l, "k=1"); addl(l, d); addl(l, e); addl(l, b); addl(l, f); addl(l, "k=2"); addl(l, e); addl(l, nm->ptr[0] ? "tail" : ""); VP_CHECK(iniparser_count_sections(l) == 3, "sections with names of %zu", N);
		r = iniparser_get_section(l, nm); VP_CHECK(r.startline == 5 && r.linecount == 4, "name of %zu characters: start %zu", N, r.startline); iniparser_getvalue(l, &r, K, &res); VP_CHECK(res.size == 1 && *res.ptr == '2', "key in it"); z = iniparser_getvalue_at(l, &r, nm, &res, 5); VP_CHECK(z == 7 && res.size == 1 && *res.ptr == 'v', "key of %zu characters: line %zd", N, z); stringptrlist_free(l);
		/* value of N characters; header followed by N blanks; noise of N characters */
		memcpy(e, "k=", 2); memcpy(e + 2, nm->ptr, N); e[N+2] = 0; memcpy(f, "[a]", 3); memset(f + 3, ' ', N); f[N+3] = 0; f[N+1] = '\t'; memset(c, ' ', N); memcpy(c + N, "k=1", 4); memset(d, '-', N); memcpy(d + N, "[a]", 4);
		l = stringptrlist_new(1); addl(l, d); addl(l, f); addl(l, c); addl(l, e); addl(l, "[ab]"); VP_CHECK(iniparser_count_sections(l) == 2, "sections counted"); r = iniparser_get_section(l, A); VP_CHECK(r.startline == 2 && r.linecount == 2, "header with %zu blanks", N); iniparser_getvalue(l, &r, K, &res); VP_CHECK(res.size == N && res.ptr == e + 2, "value of %zu characters: %zu", N, res.size); stringptrlist_free(l); vp_trans(10);
		free(b); free(c); free(d); free(e); free(f);
	}
	vp_trace("size %zu", N); vp_states_add(2); VP_LEAKCHECK(live, "size %zu", N); vp_buf_release(k);
}
const vp_scenario vp_scenarios[] = {
	{ "lines", a_units, a_run, "all files of up to 3 (4) lines from 20 look-alike header, key and noise lines x 5 section names x 6 keys" },
	{ "deep", b_units, b_run, "all files of 6 (7) lines from 6 lines" },
	{ "text", c_units, c_run, "the same lines as one text, split into lines, with and without final newline" },
	{ "long", d_units, d_run, "files of 300 lines with repeated sections" },
	{ "names", e_units, e_run, "names and keys of length 1..40 (130) next to shorter and longer ones" },
	{ "blanks", z_units, z_run, "every run of up to 5 blanks behind any of 5 header and key lines, the lines in every order" },
	{ "bytevalues", y_units, y_run, "every byte value at every place of section names and keys next to names that differ in one bit, in values, and as noise lines" },
	{ "wide", w_units, w_run, "sizes around all powers of two and ten from 127 to 131074 (2^18 + 2) as number of lines before and in sections, number of sections, length of names, keys, values, trailing blanks and noise" },
	{ 0 }
};
