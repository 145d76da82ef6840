/* C33: logger output captured on real descriptors; every other descriptor must stay untouched. */
#include "engine.h"
#include "strs.h"
#include <fcntl.h>
#include <limits.h>
#include <time.h>
#include <sys/time.h>
#include <sys/mman.h>
#include "logger.h"
#include "timelib.h"
#include "optparser.h"
const char vp_property[] = "C33";
static int fdv[4] = { -1, -1, -1, -1 }, target[4]; /* memory files; target[i]: descriptor number it is visible as */
static int keep1, keep2;
static time_t vt = -1;
time_t __real_time(time_t*); time_t __wrap_time(time_t *t) { if(vt == -1) return __real_time(t); if(t) *t = vt; return vt; }
int __real_gettimeofday(struct timeval*, void*); int __wrap_gettimeofday(struct timeval *t, void *z) { if(vt == -1) return __real_gettimeofday(t, z); t->tv_sec = vt; t->tv_usec = 0; return 0; }
int __real_clock_gettime(clockid_t, struct timespec*); int __wrap_clock_gettime(clockid_t c, struct timespec *t) { if(vt == -1) return __real_clock_gettime(c, t); t->tv_sec = vt; t->tv_nsec = 0; return 0; }
/* write: may leave errno changed whether it succeeds or not, and may fail */
static int we_on, we_errno, we_failat, we_n;
ssize_t __real_write(int, const void*, size_t); ssize_t __wrap_write(int f, const void *b, size_t n) { ssize_t r = we_on && we_n == we_failat ? -1 : __real_write(f, b, n); if(we_on) { we_n++; errno = we_errno; } return r; }
static void setup(void) {
	if(fdv[0] == -1) { for(int i = 0; i < 4; i++) { fdv[i] = memfd_create("log", 0); if(fdv[i] < 0) { perror("memfd"); _exit(78); } } int hi = 100; target[0] = 1; target[1] = 2; target[2] = fcntl(fdv[2], F_DUPFD, hi); target[3] = fcntl(fdv[3], F_DUPFD, 300 > 256 ? 150 : 150); keep1 = dup(1); keep2 = dup(2); }
	dup2(fdv[0], 1); dup2(fdv[1], 2); for(int i = 0; i < 4; i++) { ftruncate(fdv[i], 0); lseek(fdv[i], 0, SEEK_SET); }
}
static void restore(void) { dup2(keep1, 1); dup2(keep2, 2); }
static char got[4400000];
static void expect(int w, const char *e, size_t n, const char *what) {
	for(int i = 0; i < 4; i++) { ssize_t k = pread(fdv[i], got, sizeof got, 0); if(i != w) VP_CHECK(k == 0, "%s: %zd bytes written to descriptor %d (%s), the log goes to %d", what, k, target[i], vp_show(got, k), target[w]); }
	ssize_t k = pread(fdv[w], got, sizeof got, 0); VP_CHECK(k == (ssize_t)n && !memcmp(got, e, n), "%s: wrote %s, expected %s", what, vp_show(got, k), vp_show(e, n)); ftruncate(fdv[w], 0); lseek(fdv[w], 0, SEEK_SET); vp_trans(1);
}
/* argument menu */
typedef struct { int type; long v; const char *s; int n; } arg;
static arg A[] = { { VT_STRINGPTR, 0, "", 0 }, { VT_STRINGPTR, 0, 0, -1 }, { VT_STRINGPTR, 0, "a", 1 }, { VT_STRINGPTR, 0, "x\0y\n%s", 6 }, { VT_CHAR_STAR, 0, 0, -1 }, { VT_CHAR_STAR, 0, "", 0 }, { VT_CHAR_STAR, 0, "cs%d", 4 }, { VT_CONST_CHAR_STAR, 0, 0, -1 }, { VT_CONST_CHAR_STAR, 0, "const \xff", 7 },
	{ VT_INT, 0 }, { VT_INT, 1 }, { VT_INT, -1 }, { VT_INT, INT_MAX }, { VT_INT, INT_MIN }, { VT_INT, -10 }, { VT_UNSIGNED, 0 }, { VT_UNSIGNED, 42 }, { VT_UNSIGNED, 0x80000000L }, { VT_UNSIGNED, 0xffffffffL },
	{ VT_LONG, 0 }, { VT_LONG, -1 }, { VT_LONG, LONG_MAX }, { VT_LONG, LONG_MIN }, { VT_LONG, 4294967296L }, { VT_ULONG, 0 }, { VT_ULONG, -1L }, { VT_ULONG, LONG_MIN }, { VT_ULONG, 4294967296L }, { VT_ULONG, 0xffffffffL }, { 99, 5 } };
#define MS 52
static vario V[MS]; static stringptr SP[MS], *SPP[MS]; static char *CP[MS]; static int IV[MS]; static unsigned UV[MS]; static long LV[MS]; static unsigned long ULV[MS];
static char ebuf[2000]; static size_t en;
static void build(int slot, int k) {
	arg *a = &A[k]; vario *v = &V[slot]; v->type = a->type; char t[64] = "";
	switch(a->type) {
	case VT_STRINGPTR: if(a->n < 0) SPP[slot] = 0; else { SP[slot].ptr = vp_copy(a->s, a->n); SP[slot].size = a->n; SPP[slot] = &SP[slot]; memcpy(ebuf + en, a->s, a->n); en += a->n; } v->ptr = &SPP[slot]; return;
	case VT_CHAR_STAR: case VT_CONST_CHAR_STAR: CP[slot] = a->n < 0 ? 0 : vp_str(a->s); v->ptr = &CP[slot]; if(a->n > 0) { memcpy(ebuf + en, a->s, a->n); en += a->n; } return;
	case VT_INT: IV[slot] = a->v; v->ptr = &IV[slot]; snprintf(t, sizeof t, "%d", (int)a->v); break;
	case VT_UNSIGNED: UV[slot] = a->v; v->ptr = &UV[slot]; snprintf(t, sizeof t, "%u", (unsigned)a->v); break;
	case VT_LONG: LV[slot] = a->v; v->ptr = &LV[slot]; snprintf(t, sizeof t, "%ld", a->v); break;
	case VT_ULONG: ULV[slot] = a->v; v->ptr = &ULV[slot]; snprintf(t, sizeof t, "%lu", (unsigned long)a->v); break;
	default: v->ptr = &LV[slot]; break;
	}
	en += snprintf(ebuf + en, sizeof ebuf - en, "%s", t);
}
static void put(int w, const int *k, int n) {
	size_t mk = vp_buf_mark(); en = 0; for(int i = 0; i < n; i++) build(i, k[i]); ebuf[en++] = '\n'; int f = target[w];
	switch(n) { case 0: log_put(f, VNIL); break; case 1: log_put(f, &V[0], VNIL); break; case 2: log_put(f, &V[0], &V[1], VNIL); break; case 3: log_put(f, &V[0], &V[1], &V[2], VNIL); break; case 4: log_put(f, &V[0], &V[1], &V[2], &V[3], VNIL); break; }
	char what[100]; snprintf(what, sizeof what, "log_put with %d arguments (kinds %d %d %d %d)", n, n > 0 ? k[0] : -1, n > 1 ? k[1] : -1, n > 2 ? k[2] : -1, n > 3 ? k[3] : -1); expect(w, ebuf, en, what); vp_states_add(1); vp_buf_release(mk);
}
static long a_units(void) { return VP_N(A) * VP_N(A); }
static void a_run(long u) { setup(); int k[4]; k[0] = u % VP_N(A); k[1] = u / VP_N(A); if(u == 0) for(int w = 0; w < 4; w++) put(w, k, 0); if(k[1] == 0) for(int w = 0; w < 4; w++) put(w, k, 1); put(u % 4, k, 2); for(k[2] = 0; k[2] < VP_N(A); k[2]++) { put(2, k, 3); if(vp_tier) for(k[3] = 0; k[3] < VP_N(A); k[3]++) put(3, k, 4); } restore(); vp_trace("log_put starting with argument kinds %d, %d", k[0], k[1]); }
/* the macros of vario.h */
static long m_units(void) { return 1; }
static void m_run(long u) { setup(); stringptr *s = SPL("sp"); char *c = "cs"; const char *cc = "ccs"; for(int w = 0; w < 4; w++) { log_put(target[w], VARIS(s), VARISL(" lit "), VARIC(c), VARICC(cc), VARII(-5), VARIU(4294967295u), VARIL(-7L), VARIUL(18446744073709551615ul), VNIL); static const char e[] = "sp lit csccs-54294967295-718446744073709551615\n"; expect(w, e, sizeof e - 1, "all macros"); log_putspace(target[w]); expect(w, " ", 1, "log_putspace"); } errno = ENOENT; log_perror("what"); expect(1, "what: No such file or directory\n", 32, "log_perror"); restore(); vp_states_add(9); vp_trace("macros"); }
static long p_units(void) { return 300; }
static void p_run(long u) {
	setup(); char e[200]; int n;
	/* numbers */
	static const uint64_t base[] = { 0, 1, 10, 100, 1000, 127, 255, 256, 32768, 65536, 2147483648u, 4294967296u, 1000000000000ull, 9223372036854775808ull, 18446744073709551615ull, 9999999999999999999ull };
	for(int i = 0; i < VP_N(base); i++) for(int d = -1; d < 2; d++) for(int s = 0; s < 3; s++) { uint64_t v = base[i] * (u % 3 ? 1 : 1) + d * (int64_t)(u + 1); n = snprintf(e, sizeof e, s ? "%lld" : "%llu", (long long)v); log_putd(target[(u + i) % 4], v, s == 2 ? 64 : s); expect((u + i) % 4, e, n, s ? "log_putd signed" : "log_putd unsigned"); }
	/* errors */
	for(int k = 0; k < 3; k++) { const char *m = k == 0 ? "msg" : k == 1 ? "" : 0; char *cp = m ? vp_str(m) : 0; int no = u < 150 ? (int)u : u < 160 ? -(int)u : (int)u * 7; n = snprintf(e, sizeof e, "%s: %s\n", m ? m : "", strerror(no)); errno = no; log_puterror(target[u % 4], cp); expect(u % 4, e, n, "log_puterror"); }
	/* to a closed descriptor nothing is written anywhere */
	log_putc(190, "x"); log_putln(190); expect(0, "", 0, "logging to a closed descriptor");
	/* pieces */
	size_t L = u * (u > 100 ? 911 : 1); char *b = vp_buf(L + 1); for(size_t i = 0; i < L; i++) b[i] = 1 + i % 255; b[L] = 0; stringptr s = { vp_copy(b, L), L }; log_puts(target[u % 4], &s); expect(u % 4, b, L, "log_puts"); log_putc(target[u % 4], b); expect(u % 4, b, L, "log_putc"); log_puts(target[u % 4], 0); log_putc(target[u % 4], 0); expect(u % 4, "", 0, "null strings"); log_putln(target[u % 4]); expect(u % 4, "\n", 1, "log_putln");
	/* time stamp */
	vt = 1000000000 + u * 86399 * 37; char tb[64]; size_t tl = timestamp(tb, sizeof tb); struct tm tm; localtime_r(&vt, &tm); char te[64]; strftime(te, sizeof te, "%Y-%m-%d %H:%M:%S", &tm); log_timestamp(target[u % 4]); vt = -1; (void)tl; expect(u % 4, te, strlen(te), "log_timestamp");
	/* successive calls append */
	log_putc(target[2], "a"); log_putd(target[2], 5, 0); log_puts(target[2], SPL("b")); log_putln(target[2]); expect(2, "a5b\n", 4, "successive calls"); vp_states_add(60); restore(); vp_trace("numbers around the limits +-%ld, error number %ld, length %zu", u + 1, u, L);
}
/* errors reported while writing changes errno or fails */
static long q_units(void) { return 134; }
static void q_run(long u) { setup(); for(int e2 = 0; e2 < 134; e2 += 19) for(int fail = -1; fail < 6; fail++) for(int k = 0; k < 3; k++) { char e[200]; const char *m = k == 0 ? "msg" : k == 1 ? "" : "a longer message"; int n = 0; const char *pc[4] = { m, ": ", strerror(u), "\n" };
	/* how the line is cut into writes is free; only without a failing write the whole line is expected, else a subsequence of it in order */
	for(int i = 0; i < 4; i++) n += snprintf(e + n, sizeof e - n, "%s", pc[i]);
	int w = k == 2 ? 1 : (int)(u % 4); we_on = 1; we_errno = e2; we_failat = fail; we_n = 0; errno = u; if(k == 2) log_perror(m); else log_puterror(target[w], m); we_on = 0;
	for(int i = 0; i < 4; i++) if(i != w) VP_CHECK(pread(fdv[i], got, 10, 0) == 0, "log_puterror: bytes written to descriptor %d, the log goes to %d", target[i], target[w]);
	ssize_t g = pread(fdv[w], got, sizeof got, 0); ftruncate(fdv[w], 0); lseek(fdv[w], 0, SEEK_SET); vp_trans(1); vp_states_add(1);
	if(fail < 0 || fail >= we_n) VP_CHECK(g == n && !memcmp(got, e, n), "log_puterror with error number %ld while write changes errno to %d: wrote %s, expected %s", u, e2, vp_show(got, g), vp_show(e, n));
	else { ssize_t j = 0; for(int i = 0; i < n && j < g; i++) if(e[i] == got[j]) j++; VP_CHECK(j == g, "log_puterror with error number %ld while write %d fails with errno %d: wrote %s, which is not part of %s", u, fail, e2, vp_show(got, g), vp_show(e, n)); } }
	restore(); vp_trace("error number %ld while writing changes errno and fails", u); }
static const char *AV[] = { "", "a", "-x", "--long=v", "with space", "%s" };
static long o_units(void) { return VP_N(AV) * VP_N(AV); }
static void o_run(long u) { setup(); char *av[6] = { "prog", (char*)AV[u % VP_N(AV)], (char*)AV[u / VP_N(AV)], 0 }; char e[300]; for(int n = 0; n <= 3; n++) for(int x = 0; x < VP_N(AV); x++) { av[3] = (char*)AV[x]; av[n + 1] = 0; if(n >= 1) av[1] = (char*)AV[u % VP_N(AV)]; if(n >= 2) av[2] = (char*)AV[u / VP_N(AV)]; op_state st; op_init(&st, n + 1, av); op_printall(&st); int l = 0; for(int i = 1; i <= n; i++) l += snprintf(e + l, sizeof e - l, "%s\n", av[i]); expect(0, e, l, "op_printall"); vp_states_add(1); } restore(); vp_trace("op_printall %s %s", AV[u % VP_N(AV)], AV[u / VP_N(AV)]); }
/* many arguments */
static long n_units(void) { return 49 * VP_N(A); }
static void n_run(long u) { setup(); int n = u % 49, st = u / 49; size_t mk = vp_buf_mark(); vario *q[MS] = { 0 }; en = 0; for(int i = 0; i < n; i++) { build(i, (st + i * 7 + i / VP_N(A)) % VP_N(A)); q[i] = &V[i]; } ebuf[en++] = '\n';
#define Q8(k) q[k], q[k+1], q[k+2], q[k+3], q[k+4], q[k+5], q[k+6], q[k+7]
	log_put(target[u % 4], Q8(0), Q8(8), Q8(16), Q8(24), Q8(32), Q8(40), VNIL); char w[60]; snprintf(w, sizeof w, "log_put with %d arguments", n); expect(u % 4, ebuf, en, w); vp_states_add(1); vp_buf_release(mk); restore(); vp_trace("%d arguments", n); }
/* long strings */
static long z_units(void) { return sizes_count(7, VP_T(17, 18)); }
static void z_run(long u) { setup(); size_t L = sizes_get(7, VP_T(17, 18), u), mk = vp_buf_mark(); int w = u % 4; char *b = vp_buf(L + 1), *e = malloc(L * 2 + 30); for(size_t i = 0; i < L; i++) b[i] = 1 + (i * 3 + i / 255) % 255; b[L] = 0; stringptr s = { vp_copy(b, L), L }, *sp = &s; int no = u % 130; const char *er;
	log_puts(target[w], &s); expect(w, b, L, "log_puts of a long string"); log_putc(target[w], b); expect(w, b, L, "log_putc of a long string"); vario a = { .type = VT_STRINGPTR, .ptr = &sp }, c = { .type = VT_CHAR_STAR, .ptr = &b }; log_put(target[w], &a, &c, VNIL); memcpy(e, b, L); memcpy(e + L, b, L); e[2*L] = '\n'; expect(w, e, 2 * L + 1, "log_put of long strings");
	er = strerror(no); memcpy(e, b, L); int m = sprintf(e + L, ": %s\n", er); errno = no; log_puterror(target[w], b); expect(w, e, L + m, "log_puterror with a long text"); char *av[] = { (char*)"prog", b, (char*)"x", 0 }; op_state st; op_init(&st, 3, av); op_printall(&st); memcpy(e + L, "\nx\n", 3); expect(0, e, L + 3, "op_printall of a long argument"); s.ptr = vp_buf(L); memset(s.ptr, 0, L); memset(e, 0, L); log_puts(target[w], &s); expect(w, e, L, "log_puts of zero bytes");
	free(e); vp_buf_release(mk); vp_states_add(5); restore(); vp_trace("strings of %zu bytes", L); }
const vp_scenario vp_scenarios[] = {
	{ "arguments", a_units, a_run, "log_put with all sequences of up to 3 (4) arguments over 30 (all types, boundary values, null and empty strings) to four descriptors" },
	{ "macros", m_units, m_run, "all argument macros" },
	{ "pieces", p_units, p_run, "numbers around all limits, error numbers -159..2093, strings of 300 lengths, null strings, time stamps, closed descriptor" },
	{ "errno", q_units, q_run, "error messages for numbers 0..133 while every write changes errno (8 values) and while each single write fails" },
	{ "options", o_units, o_run, "op_printall with up to 3 arguments over 6" },
	{ "many", n_units, n_run, "log_put with 0..48 arguments, every argument kind at every place" },
	{ "wide", z_units, z_run, "strings of sizes around all powers of two and ten from 127 to 131074 (2^18 + 2)" },
	{ 0 }
};
