#include "engine.h"
#include "strs.h"
#include <fcntl.h>
#include <limits.h>
#include <sys/mman.h>
#include "format.h"
#include "stringptr.h"
const char vp_property[] = "C17";
typedef unsigned long long ull;
/* every argument travels in one 8-byte slot (x86-64 and aarch64 ABI) */
static ull ar[6];
#define ARGS ar[0], ar[1], ar[2], ar[3], ar[4], ar[5]
static int (*real_snprintf)(char*, size_t, const char*, ...) = snprintf;
static char e[16000000]; static int en;
static void cmp1(const char *f, char *d, size_t n, ssize_t r) {
	size_t st = n ? ((size_t)en < n - 1 ? (size_t)en : n - 1) : 0;
	VP_CHECK(r == (ssize_t)st, "format %s size %zu: returned %zd, must be %zu", vp_shows(f), n, r, st);
	if(n) VP_CHECK(!memcmp(d, e, st) && d[st] == 0, "format %s size %zu: stored %s, must be %s", vp_shows(f), n, vp_show(d, st + 1), vp_show(e, st));
}
static void at(const char *f, size_t n) { size_t k = vp_buf_mark(); char *d = vp_buf(n); memset(d, 0x55, n); ssize_t r = ((ssize_t(*)(char*, size_t, const char*, ...))ulz_snprintf)(d, n, f, ARGS); cmp1(f, d, n, r); vp_trans(1); vp_buf_release(k); }
static void valid(const char *fmt, int sizes) {
	size_t k = vp_buf_mark(); char *f = vp_str(fmt); en = real_snprintf(e, sizeof e, f, ARGS); if(en < 0 || en >= (int)sizeof e) vp_fail("oracle refuses %s", vp_shows(f));
	ssize_t r = ((ssize_t(*)(char*, size_t, const char*, ...))ulz_snprintf)(0, 0, f, ARGS); VP_CHECK(r == en, "format %s without destination: returned %zd, must be %d", vp_shows(f), r, en);
	r = ((ssize_t(*)(char*, size_t, const char*, ...))ulz_snprintf)(0, 77, f, ARGS); VP_CHECK(r == en, "format %s without destination (size 77): returned %zd, must be %d", vp_shows(f), r, en);
	if(sizes == 2) for(size_t n = 0; n <= (size_t)en + 2; n++) at(f, n); else { at(f, 0); at(f, 1); if(en > 2) at(f, en / 2); if(en) at(f, en); at(f, en + 1); at(f, en + 9); }
	stringptr *s = ((stringptr*(*)(char*, ...))stringptr_format)(f, ARGS); VP_CHECK(s && s->size == (size_t)en && !memcmp(s->ptr, e, en + 1), "stringptr_format(%s) gives %s, must be %s", vp_shows(f), s ? vp_show(s->ptr, s->size > 100 ? 100 : s->size) : "null", vp_show(e, en > 100 ? 100 : en)); stringptr_free(s);
	vp_trans(3); vp_states_add(1); vp_buf_release(k);
}
static void bad(const char *fmt) {
	size_t k = vp_buf_mark(); char *f = vp_str(fmt); long live = vp_live();
	for(size_t n = 0; n < 9; n++) { char *d = vp_buf(n); ssize_t r = ((ssize_t(*)(char*, size_t, const char*, ...))ulz_snprintf)(d, n, f, ARGS); VP_CHECK(r == -1, "unsupported format %s (size %zu): returned %zd, must be -1", vp_shows(f), n, r); }
	ssize_t r = ((ssize_t(*)(char*, size_t, const char*, ...))ulz_snprintf)(0, 0, f, ARGS); VP_CHECK(r == -1, "unsupported format %s (no destination): returned %zd, must be -1", vp_shows(f), r);
	stringptr *s = ((stringptr*(*)(char*, ...))stringptr_format)(f, ARGS); VP_CHECK(!s, "stringptr_format(%s) did not return null", vp_shows(f)); VP_LEAKCHECK(live, "stringptr_format(%s)", vp_shows(f));
	vp_trans(11); vp_states_add(1); vp_buf_release(k);
}
static const char *S[] = { "", "x", "hello", "%d", "0123456789012345678901234567890123456789", "-7" };
static const ull N[] = { 0, 1, -1ull, 9, 10, 42, 255, 256, -42ull, INT_MAX, (ull)(long long)INT_MIN, 0x80000000ull, 0xffffffffull, 0x100000000ull, LLONG_MAX, 1ull << 63, -1000000000ull, 1234567890123456789ull };
static const char *TOK[] = { "", "a", "%%", "%c", "%s", "%d", "%u", "%x", "%X", "%ld", "%lu", "%lld", "%llu", "%zd", "%zu", "%.1d", "%.4d", "%.12d", "%.2x", "%.8X", "%.40u", "%.0d", "%.3s", "%.20llu", "%.3zd", "%.10ld", "-", "\n" };
#define NT VP_N(TOK)
static int isstr(const char *t) { return *t == '%' && t[strlen(t) - 1] == 's'; } static int isconv(const char *t) { return t[0] == '%' && t[1] && t[1] != '%'; }
/* single conversions, all arguments, all precisions, every size */
static const char *CONV[] = { "d", "u", "x", "X", "ld", "lu", "lld", "llu", "zd", "zu", "s", "c" };
static long a_units(void) { return VP_N(CONV) * VP_T(72, 140); }
static void a_run(long u) {
	int c = u % VP_N(CONV), p = u / VP_N(CONV) - 1; char f[40]; if(CONV[c][0] == 'c' && p >= 0) return; if(p > 66 && !vp_tier) { static const int P[] = { 99, 100, 127, 999, 1001 }; p = P[p - 67 > 4 ? 4 : p - 67]; }
	for(int lead = 0; lead < 2; lead++) { if(p < 0) sprintf(f, "%s%%%s", lead ? "[" : "", CONV[c]); else sprintf(f, "%s%%.%d%s", lead ? "[" : "", p, CONV[c]); vp_trace("%s", f);
		if(CONV[c][0] == 's') for(int i = 0; i < VP_N(S); i++) { ar[0] = (ull)(uintptr_t)S[i]; valid(f, 2); }
		else if(CONV[c][0] == 'c') for(int i = 0; i < 256; i++) { ar[0] = i; valid(f, 2); ar[0] = i - 128; valid(f, 2); }
		else { for(int i = 0; i < VP_N(N); i++) { ar[0] = N[i]; valid(f, p > 150 ? 1 : 2); } if(p < 12) { for(int b = 0; b < 64; b++) { ar[0] = 1ull << b; valid(f, 1); ar[0]--; valid(f, 1); ar[0] = ~ar[0]; valid(f, 1); } ull t = 1; for(int k = 0; k < 20; k++, t *= 10) { ar[0] = t; valid(f, 1); ar[0] = t - 1; valid(f, 1); ar[0] = 0 - t; valid(f, 1); } for(int k = 0; k < 300; k++) { ar[0] = k; valid(f, 0); ar[0] = 0 - (ull)k; valid(f, 0); } } } }
}
/* sequences of tokens */
static const int argpick[6][6] = { { 0, 0, 0, 0, 0, 0 }, { 1, 2, 3, 4, 5, 6 }, { 2, 9, 4, 1, 3, 0 }, { 9, 10, 13, 14, 15, 2 }, { 15, 8, 2, 16, 17, 1 }, { 12, 11, 6, 5, 9, 8 } };
static void seq(const int *t, int k, int sizes) { char f[200] = ""; for(int i = 0; i < k; i++) strcat(f, TOK[t[i]]); for(int a = 0; a < VP_T(k < 3 ? 6 : 2, 6); a++) { int na = 0; for(int i = 0; i < k; i++) { const char *tt = TOK[t[i]]; if(!isconv(tt)) continue; if(isstr(tt)) ar[na] = (ull)(uintptr_t)S[argpick[a][na] % VP_N(S)]; else ar[na] = N[argpick[a][na] % VP_N(N)]; if(tt[1] == 'c' && !(ar[na] & 255)) ar[na] = 'z'; na++; } valid(f, sizes); } vp_trace("%s", vp_shows(f)); }
static long b_units(void) { return NT * NT; }
static void b_run(long u) { int t[4]; t[0] = u % NT; t[1] = u / NT; seq(t, 2, 2); for(int i = 1; i < NT; i++) { t[2] = i; seq(t, 3, 1); if(vp_tier) for(int j = 1; j < NT; j++) { t[3] = j; seq(t, 4, 0); } } }
/* every text over an alphabet of format characters, judged by the grammar */
static int grammar(const char *f) { /* 1 supported, 0 not, 2 not stated */
	int und = 0;
	for(; *f; f++) if(*f == '%') { f++; if(*f == '%' || *f == 'c') continue; if(*f == 's') continue; int prec = 0; if(*f == '.') { f++; if(*f < '0' || *f > '9') return und && 0; while(*f >= '0' && *f <= '9') f++; prec = 1; if(*f == '%' || *f == 'c') { und = 1; continue; } if(*f == 's') continue; }
		if(*f == 'p') { und = 1; continue; }
		if(*f == 'l') { f++; if(*f == 'l') f++; if(*f != 'd' && *f != 'u') return 0; continue; } if(*f == 'z') { f++; if(*f != 'd' && *f != 'u') return 0; continue; }
		if(*f != 'd' && *f != 'u' && *f != 'x' && *f != 'X') return 0; (void)prec; }
	return und ? 2 : 1;
}
static const char AL[] = { '%', '.', '3', 'd', 's', 'l', 'z', 'x', 'c', 'q' };
static long g_units(void) { return 1111; }
static void one_text(const char *f) { int g = grammar(f); for(int i = 0; i < 6; i++) ar[i] = (ull)(uintptr_t)S[2]; if(g == 1) valid(f, 1); else if(g == 0) bad(f); else { for(size_t n = 0; n < 5; n++) { size_t k = vp_buf_mark(); char *d = vp_buf(n); ((ssize_t(*)(char*, size_t, const char*, ...))ulz_snprintf)(d, n, vp_str(f), ARGS); vp_buf_release(k); } vp_trans(5); } }
static void g_run(long u) { char f[12]; int n = strs_get(u, AL, 10, f); f[n] = 0; one_text(f); vp_trace("texts starting with %s", vp_shows(f)); if(n == 3) { char h[12]; for(long i = 1; i < strs_count(10, VP_T(2, 3)); i++) { memcpy(h, f, 3); int m = strs_get(i, AL, 10, h + 3); h[3 + m] = 0; one_text(h); } } }
/* literal text of every length and size */
static long l_units(void) { return VP_T(40, 200); }
static void l_run(long u) { char f[300]; memset(f, 'q', u); for(long i = 0; i < u; i++) f[i] = 'a' + i % 26; f[u] = 0; valid(f, 2); ar[0] = (ull)(uintptr_t)f; char g[310]; strcpy(g, "%s"); valid(g, 2); snprintf(g, sizeof g, "%s%%d", f); ar[0] = -5; valid(g, 2); vp_trace("literal of length %ld", u); }
/* printing to descriptors */
ssize_t __real_write(int, const void*, size_t); ssize_t __wrap_write(int f, const void *b, size_t n) { VP_CHECK((ssize_t)n >= 0, "write is given the size %zu", n); return __real_write(f, b, n); }
static int tmpf = -1;
static void printed(const char *f) {
	for(int w = 0; w < 3; w++) { if(tmpf < 0) { char p[30]; snprintf(p, sizeof p, "p%d", (int)getpid()); tmpf = open(p, O_RDWR | O_CREAT | O_TRUNC, 0600); if(tmpf < 0) vp_fail("scratch"); } if(ftruncate(tmpf, 0)) vp_fail("ftruncate"); lseek(tmpf, 0, SEEK_SET); int g = grammar(f), len; if(g == 1) en = real_snprintf(e, sizeof e, f, ARGS); else en = 0;
		if(w < 2) { if(w) ((void(*)(int, const char*, ...))ulz_dprintf)(tmpf, f, ARGS); else ((void(*)(int, const char*, ...))ulz_fprintf)(tmpf, f, ARGS); } else { int sv = dup(1); dup2(tmpf, 1); ((void(*)(const char*, ...))ulz_printf)(f, ARGS); dup2(sv, 1); close(sv); }
		static char b[2200000]; len = pread(tmpf, b, sizeof b, 0); int ex = en > 4095 ? 4095 : en; VP_CHECK((en > 4095 ? len >= ex && len <= en : len == ex) && !memcmp(b, e, len), "%s of format %s wrote %d bytes %s, must be %d bytes %s", w == 2 ? "printf" : "fprintf", vp_shows(f), len, vp_show(b, len > 60 ? 60 : len), ex, vp_show(e, ex > 60 ? 60 : ex)); vp_trans(1); }
	vp_states_add(1);
}
static long p_units(void) { return NT; }
static void p_run(long u) { char f[100]; for(int i = 0; i < NT; i++) for(int a = 0; a < 3; a++) { const char *t[2] = { TOK[u], TOK[i] }; int na = 0; for(int k = 0; k < 2; k++) if(isconv(t[k])) { ar[na] = isstr(t[k]) ? (ull)(uintptr_t)S[argpick[a][na] % VP_N(S)] : t[k][1] == 'c' ? 'c' : N[argpick[a][na]]; na++; } sprintf(f, "%s%s", t[0], t[1]); printed(f); sprintf(f, "%s%s%%", t[0], t[1]); if(grammar(f) == 0) printed(f); } ar[0] = (ull)(uintptr_t)S[2]; printed("%q"); printed("abc%"); ar[0] = 1; printed("%.4094d"); printed("%.4095d"); printed("%.4096d"); printed("%.9000d"); vp_trace("printing %s...", vp_shows(TOK[u])); }
/* every byte value as literal, in strings, and after a percent sign */
static long y_units(void) { return 255; }
static void y_run(long u) { char c = u + 1, f[16], s[8]; sprintf(s, "a%c%c", c, c); for(int i = 0; i < 6; i++) ar[i] = (ull)(uintptr_t)s; static const char *P[] = { "?", "x?", "?x", "%s?", "?%s", "?%d?", "%c?%s?" }; if(c != '%') for(int i = 0; i < VP_N(P); i++) { int n = 0; for(const char *p = P[i]; *p; p++) f[n++] = *p == '?' ? c : *p; f[n] = 0; if(i == 5 || i == 6) ar[0] = 'k'; valid(f, 2); ar[0] = (ull)(uintptr_t)s; }
	static const char *B[] = { "%?", "%l?", "%ll?", "%z?", "%.3?", "%.3l?", "%.?", "ab%?c", "%s%?", "%?%?" }; for(int i = 0; i < VP_N(B); i++) { int n = 0; for(const char *p = B[i]; *p; p++) f[n++] = *p == '?' ? c : *p; f[n] = 0; one_text(f); } vp_trace("byte %ld", u + 1); }
/* sizes around powers of two and ten as length of literals and strings, as precision, and as number of conversions */
#define WHI VP_T(17, 20)
static long w_units(void) { return sizes_count(7, WHI) * 3; }
#if defined __x86_64__
static int from_array(char *d, size_t n, const char *f, ull *a, int lib) { va_list ap; struct { unsigned gp, fp; void *over, *save; } h = { 48, 304, a, 0 }; memcpy(&ap, &h, sizeof h); return lib ? (int)ulz_vsnprintf(d, n, f, ap) : vsnprintf(d, n, f, ap); }
#endif
static void w_run(long u) {
	size_t n = sizes_get(7, WHI, u / 3); char *f = malloc(n * 3 + 20), *t = malloc(n + 20);
	for(size_t i = 0; i < n; i++) t[i] = 'a' + (i * 3 + i / 255) % 26; t[n] = 0;
	if(u % 3 == 0) { strcpy(f, t); valid(f, 1); ar[0] = (ull)-5; ar[1] = (ull)(uintptr_t)"xyz"; strcat(f, "%d|%s"); valid(f, 1); sprintf(f, "%%d|%%s%s", t); valid(f, 1); sprintf(f, "%s%%q", t); bad(f); sprintf(f, "%s%%", t); bad(f); sprintf(f, "%%d%s", t); printed(f); }
	else if(u % 3 == 1) { ar[0] = (ull)(uintptr_t)t; ar[1] = 77; valid("%s", 1); valid("%s%x", 1); valid("<%s>", 1); sprintf(f, "%%.%zus|", n); valid(f, 1); sprintf(f, "%%.%zus|%%d", n - 1); valid(f, 1); sprintf(f, "%%.%zus|%%d", n + 1); valid(f, 1); ar[0] = (ull)(uintptr_t)"short"; valid(f, 1); ar[1] = (ull)(uintptr_t)t; valid("%.3s%s", 1); printed("%.3s%s");
		for(int c = 0; c < 10; c++) { ar[0] = c & 1 ? (ull)-12345 : 12345; ar[1] = 9; sprintf(f, "%%.%zu%s", n, CONV[c]); valid(f, 1); sprintf(f, "x%%.%zu%s%%d", n, CONV[c]); valid(f, 1); } }
	else {
#if defined __x86_64__
		static const char *C[] = { "%d", "%s", "%c", "%%", "%.3x", "%lld", "%zu", "%u", "%.2s", "%X" }; ull *a = malloc((n + 8) * sizeof *a); size_t na = 0, fl = 0; for(size_t i = 0; i < n; i++) { int c = (i + i / 10) % 10; if(fl + 8 > n * 3) break; fl += sprintf(f + fl, "%s", C[c]); if(c == 3) continue; a[na++] = c == 1 || c == 8 ? (ull)(uintptr_t)S[1 + i % 3] : c == 2 ? 'A' + i % 26 : i; }
		en = from_array(e, sizeof e, f, a, 0); if(en < 0 || en >= (int)sizeof e) vp_fail("oracle"); char *d = malloc(en + 1); VP_CHECK(from_array(0, 0, f, a, 1) == en, "%zu conversions: length", n); int r = from_array(d, en + 1, f, a, 1); VP_CHECK(r == en && !memcmp(d, e, en + 1), "%zu conversions: wrong text", n); r = from_array(d, en / 2, f, a, 1); VP_CHECK(r == en / 2 - 1 && !memcmp(d, e, r) && !d[r], "%zu conversions cut at half", n);
		strcat(f, "%q"); VP_CHECK(from_array(d, en + 1, f, a, 1) == -1, "bad conversion after %zu", n); free(d); free(a); vp_trans(4); vp_states_add(1);
#endif
	}
	vp_trace("size %zu", n); free(f); free(t);
}
/* destinations beyond 2 and 4 GiB (address space only) */
static long h_units(void) { return NT; }
static void h_run(long u) {
	static char *M; size_t full = ((size_t)1 << 32) + 8192; if(!M) { M = mmap(0, full, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if(M == MAP_FAILED) { M = 0; vp_fail("no address space"); } }
	static const ull SZ[] = { 32767, 32768, 65535, 65536, 65537, 1 << 20, INT_MAX - 1u, INT_MAX, INT_MAX + 1u, INT_MAX + 2u, 0xfffffffe, 0xffffffff, 0x100000000, 0x100000001, 0x100000002, 0x100000005, 0x100001000 };
	char f[100]; for(int i = 0; i < NT; i++) { const char *t[2] = { TOK[u], TOK[i] }; int na = 0; for(int k = 0; k < 2; k++) if(isconv(t[k])) { ar[na] = isstr(t[k]) ? (ull)(uintptr_t)S[2] : t[k][1] == 'c' ? 'c' : N[3 + na]; na++; } sprintf(f, "%s%s.", t[0], t[1]); if(grammar(f) != 1) continue; en = real_snprintf(e, sizeof e, f, ARGS);
		for(int z = 0; z < VP_N(SZ); z++) { memset(M, 0x55, 128); ssize_t r = ((ssize_t(*)(char*, size_t, const char*, ...))ulz_snprintf)(M, SZ[z], f, ARGS); cmp1(f, M, SZ[z], r); VP_CHECK(M[en + 1] == 0x55, "format %s writes behind the terminator", vp_shows(f)); vp_trans(1); } vp_states_add(1); }
	vp_trace("token %ld", u); }
/* precisions no int can hold: refused like every format that cannot be carried out */
static long v_units(void) { return 12; }
static void v_run(long u) {
	static const char *P[] = { "2147483648", "2147483649", "2147483657", "2147483660", "2147483699", "2999999999", "4294967295", "4294967296", "4294967297", "4294967299", "4294967306", "9999999999", "10000000001", "99999999999", "18446744073709551615", "18446744073709551616", "18446744073709551617", "18446744073709551626", "79228162514264337593543950339", "00000000000000000004294967297" };
	static const char *C[] = { "d", "u", "x", "X", "s", "ld", "lld", "zu", "zd", "lu", "llu", "5" }; if(u == 11) return; vp_hang_limit(120);
	for(int i = 0; i < VP_N(P); i++) for(int pre = 0; pre < 3; pre++) { char f[90]; sprintf(f, "%s%%.%s%s%s", pre == 1 ? "a%d" : "", P[i], C[u], pre == 2 ? "%d z" : ""); for(int a = 0; a < 6; a++) ar[a] = 7 + a; if(u == 4) ar[0] = ar[1] = (ull)(uintptr_t)"seven"; bad(f); }
	vp_trace("conversion %s with precisions beyond an int", C[u]);
}
const vp_scenario vp_scenarios[] = {
	{ "conversions", a_units, a_run, "12 conversions x precisions none,0..66 and around 100,1000 (thorough 0..138) x boundary arguments x every destination size" },
	{ "sequences", b_units, b_run, "all sequences of 2 and 3 (4) of 28 tokens x argument sets x destination sizes" },
	{ "texts", g_units, g_run, "all format texts to length 5 (6) over {%,.,3,d,s,l,z,x,c,q}: supported ones compared with snprintf, the others must give -1" },
	{ "literals", l_units, l_run, "literal and string arguments of every length to 39 (199) at every destination size" },
	{ "print", p_units, p_run, "the descriptor-printing variants on all token pairs, bad formats and long outputs" },
	{ "bytevalues", y_units, y_run, "every byte value as literal, in string arguments and at each place after a percent sign" },
	{ "big-destination", h_units, h_run, "all pairs of 28 tokens into destinations of 17 sizes from 2^15 to beyond 2^32" },
	{ "overflow", v_units, v_run, "11 conversions with 20 precisions no int can hold, in 3 surroundings: refused" },
	{ "wide", w_units, w_run, "sizes around all powers of two and ten from 127 to 131074 (2^20 + 2) as length of literals and strings, as precision of every conversion and as number of conversions" },
	{ 0 }
};
