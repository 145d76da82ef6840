/* C32: sleeping under every interruption pattern (virtual clock), time differences, timestamp text. */
#include "engine.h"
#include <time.h>
#include <sys/time.h>
#include "timelib.h"
const char vp_property[] = "C32";
typedef __int128 i128;
/* virtual clock in nanoseconds */
static long long vnow_s, vnow_ns; static int vclock, vsleep; static i128 slept; static int scalls, serr;
static void adv(i128 d) { i128 t = (i128)vnow_s * 1000000000 + vnow_ns + d; vnow_s = t / 1000000000; vnow_ns = t % 1000000000; }
static const int EA[] = { EFAULT, EINVAL, EPERM };
/* one sleep of d ns: returns 0 or an errno, *rem set */
static int dosleep(i128 d, i128 *rem) {
	scalls++; if(scalls > 200) vp_fail("sleeping never ends (remaining time is not used up)");
	int c = vp_fault(5 + VP_N(EA)); i128 done;
	if(c == 0) { slept += d; adv(d); *rem = 0; vp_trace("    sleeps %lld ns", (long long)d); return 0; }
	if(c > 5) { serr = EA[c - 6]; vp_trace("    fails with %s", strerror(serr)); return serr; }
	done = c == 1 ? 0 : c == 2 ? d : c == 3 ? d / 2 : c == 4 ? (d > 0 ? 1 : 0) : (d > 0 ? d - 1 : 0); slept += done; adv(done); *rem = d - done; vp_trace("    interrupted after %lld of %lld ns", (long long)done, (long long)d); return EINTR;
}
int __wrap_nanosleep(const struct timespec *q, struct timespec *r) {
	vp_trans(1); if(q->tv_nsec < 0 || q->tv_nsec > 999999999 || q->tv_sec < 0) { serr = EINVAL; errno = EINVAL; vp_trace("    nanosleep: invalid duration"); return -1; }
	i128 rem = 0; int e = dosleep((i128)q->tv_sec * 1000000000 + q->tv_nsec, &rem); if(!e) return 0; if(e == EINTR && r) { r->tv_sec = rem / 1000000000; r->tv_nsec = rem % 1000000000; } errno = e; return -1;
}
int __wrap_clock_nanosleep(clockid_t c, int f, const struct timespec *q, struct timespec *r) {
	vp_trans(1); if(q->tv_nsec < 0 || q->tv_nsec > 999999999 || q->tv_sec < 0) { serr = EINVAL; return EINVAL; }
	i128 d = (i128)q->tv_sec * 1000000000 + q->tv_nsec, rem = 0; if(f & TIMER_ABSTIME) { d -= (i128)vnow_s * 1000000000 + vnow_ns; if(d <= 0) return 0; } int e = dosleep(d, &rem); if(e == EINTR && r && !(f & TIMER_ABSTIME)) { r->tv_sec = rem / 1000000000; r->tv_nsec = rem % 1000000000; } return e;
}
int __real_gettimeofday(struct timeval*, void*); int __real_clock_gettime(clockid_t, struct timespec*); time_t __real_time(time_t*);
int __wrap_gettimeofday(struct timeval *t, void *z) { if(!vclock) return __real_gettimeofday(t, z); t->tv_sec = vnow_s; t->tv_usec = vnow_ns / 1000; return 0; }
int __wrap_clock_gettime(clockid_t c, struct timespec *t) { if(!vclock) return __real_clock_gettime(c, t); t->tv_sec = vnow_s; t->tv_nsec = vnow_ns; return 0; }
time_t __wrap_time(time_t *t) { if(!vclock) return __real_time(t); if(t) *t = vnow_s; return vnow_s; }
/* ---- sleeping ---- */
static const long DU[] = { 0, 1, 2, 7, 999, 1000, 1001, 1500, 59999, 999999, 1000000, 1000001, 1999999, 2000000, 2500000, 4294967295L, 4294967296L, 2147483647L, 2147483648L, 86400000L, 3600000000L, 1234567890123L };
static void sl(int micro, long d, int budget) {
	vclock = 1; vnow_s = 1000; vnow_ns = 5; slept = 0; scalls = 0; serr = 0; vp_fault_budget(budget); errno = 0; vp_trace("%s(%ld)", micro ? "microsleep" : "msleep", d); int r = micro ? microsleep(d) : msleep(d), e = errno; vclock = 0; vp_trans(1);
	i128 want = (i128)d * (micro ? 1000 : 1000000);
	if(d < 0) { VP_CHECK(r != 0 || want == 0, "a negative duration is reported as slept"); return; }
	VP_CHECK(slept <= want, "%s(%ld) sleeps %lld ns too long", micro ? "microsleep" : "msleep", d, (long long)(slept - want));
	if(serr) { VP_CHECK(r == -1 && e == serr, "%s(%ld): sleeping failed with %s, but it returns %d errno %s", micro ? "microsleep" : "msleep", d, strerror(serr), r, strerror(e)); }
	else { VP_CHECK(r == 0, "%s(%ld) returns %d (%s) after %d interruptions", micro ? "microsleep" : "msleep", d, r, strerror(e), vp_faults_used()); VP_CHECK(slept == want, "%s(%ld) reports success after %lld of %lld ns, %d interruptions", micro ? "microsleep" : "msleep", d, (long long)slept, (long long)want, vp_faults_used()); }
	vp_state(vp_mix(vp_mix(d, micro), vp_mix(scalls, serr)));
}
static long s_units(void) { return 2 * VP_N(DU); }
static void s_run(long u) { sl(u & 1, DU[u / 2], VP_T(4, 6)); }
static long w_units(void) { return 100; }
static void w_run(long u) { long n = VP_T(30, 300); for(long i = 0; i < n; i++) for(int m = 0; m < 2; m++) { long k = u * n + i; sl(m, k, 0); sl(m, 1000000 - 1500 + k, 0); sl(m, k * 1000003, 0); sl(m, -k - 1, 0); vp_states_add(3); } vp_trace("durations %ld..", u * n); }
/* ---- differences ---- */
static const long long CV[] = { 0, 1, 2, 999, 1000, 999999, 1000000, 1000001, 2147483647, 2147483648LL, 4294967295LL, 4294967296LL, 1700000000, 1700000001, 4000000000LL, 9000000000LL };
static const long NS[] = { 0, 1, 999, 1000, 1001, 999000, 1000000, 499999999, 500000000, 999000000, 999999000, 999999999 };
static long d_units(void) { return VP_N(CV) * VP_N(NS); }
static void d_run(long u) {
	struct timespec a = { CV[u / VP_N(NS)], NS[u % VP_N(NS)] };
	for(int i = 0; i < VP_N(CV); i++) for(int j = 0; j < VP_N(NS); j++) {
		struct timespec *x = vp_copy(&a, sizeof a), *y = vp_buf(sizeof *y); y->tv_sec = CV[i]; y->tv_nsec = NS[j]; i128 e = ((i128)a.tv_sec - CV[i]) * 1000000000 + a.tv_nsec - NS[j];
		if(e < ((i128)1 << 63) && e >= -((i128)1 << 63)) { long long r = timespec_diff(x, y); VP_CHECK(r == (long long)e, "timespec_diff({%lld,%ld},{%lld,%ld}) = %lld, expected %lld", (long long)a.tv_sec, a.tv_nsec, CV[i], NS[j], r, (long long)e); r = timespec_diff(y, x); VP_CHECK(r == -(long long)e, "timespec_diff reversed = %lld", r); vp_trans(2); }
		vclock = 1; vnow_s = a.tv_sec; vnow_ns = a.tv_nsec; struct timeval *t = vp_buf(sizeof *t); t->tv_sec = CV[i]; t->tv_usec = NS[j] / 1000; long r = mspassed(t); vp_trans(1);
		i128 us = ((i128)a.tv_sec - CV[i]) * 1000000 + a.tv_nsec / 1000 - NS[j] / 1000, ns = ((i128)a.tv_sec - CV[i]) * 1000000000 + a.tv_nsec - (NS[j] / 1000) * 1000;
		if(us >= 0) VP_CHECK(r == (long)(us / 1000), "mspassed: now {%lld,%ld}, start {%lld,%ld}: %ld, expected %ld", (long long)a.tv_sec, a.tv_nsec / 1000, CV[i], NS[j] / 1000, r, (long)(us / 1000)); else { i128 dd = (i128)r * 1000 - us; VP_CHECK(dd < 1000 && dd > -1000, "mspassed with the clock before the start: %ld for %lld us", r, (long long)us); }
		VP_CHECK(t->tv_sec == CV[i] && t->tv_usec == NS[j] / 1000, "the start was changed"); (void)ns; vclock = 0; vp_states_add(1); vp_buf_reset();
	}
	vclock = 1; vnow_s = a.tv_sec; vnow_ns = a.tv_nsec; long long g = getutime(), ge = a.tv_sec * 1000000LL + a.tv_nsec / 1000; VP_CHECK(g == ge, "getutime at {%lld,%ld}: %lld", (long long)a.tv_sec, a.tv_nsec / 1000, g); struct timeval *t = vp_buf(sizeof *t); gettimestamp(t); VP_CHECK(t->tv_sec == a.tv_sec && t->tv_usec == a.tv_nsec / 1000, "gettimestamp at {%lld,%ld}", (long long)a.tv_sec, a.tv_nsec); vclock = 0; vp_trans(2);
	vp_trace("clock {%lld,%ld} with all others", (long long)a.tv_sec, a.tv_nsec);
}
/* all pairs of microseconds around a second boundary */
static long e_units(void) { return 200; }
static void e_run(long u) { for(int j = 0; j < VP_T(300, 2000); j++) { vclock = 1; vnow_s = 5000; vnow_ns = u < 100 ? u * 1000 : (999999 - (u - 100)) * 1000L; struct timeval t = { 5000 - j % 3, j < 150 ? j : 999999 - (j - 150) * (j > 600 ? 401 : 1) }; if(t.tv_usec < 0) t.tv_usec = -t.tv_usec; long long us = (vnow_s - t.tv_sec) * 1000000LL + vnow_ns / 1000 - t.tv_usec; long r = mspassed(&t); vclock = 0; if(us >= 0) VP_CHECK(r == us / 1000, "mspassed: %lld us passed: %ld", us, r); vp_trans(1); vp_states_add(1); } vp_trace("second boundary %ld", u); }
/* ---- timestamp ---- */
static const char *TZS[] = { "UTC", "EST5EDT,M3.2.0,M11.1.0", "XXX-5:30", "AAA12", "BBB-14" };
static void ts(long long t) {
	time_t tt = t; struct tm tm; localtime_r(&tt, &tm); char e[64]; snprintf(e, sizeof e, "%04d-%02d-%02d %02d:%02d:%02d", tm.tm_year + 1900, tm.tm_mon + 1, tm.tm_mday, tm.tm_hour, tm.tm_min, tm.tm_sec); size_t L = strlen(e);
	vclock = 1; vnow_s = t; vnow_ns = 999999999; static const int bs[] = { 20, 32, 0, 1, 5, 19 };
	for(int i = 0; i < (t % 977 == 0 ? 26 : 2); i++) { size_t n = t % 977 == 0 ? i : bs[i], mk = vp_buf_mark(); char *b = vp_buf(n); size_t r = timestamp(b, n); vp_trans(1); if(n > L) VP_CHECK(r == L && !strcmp(b, e), "timestamp at %lld (TZ %s), buffer of %zu: %zu %s, expected %s", t, getenv("TZ"), n, r, vp_show(b, r < n ? r : n), e); else if(n) VP_CHECK(strnlen(b, n) < n && !memcmp(b, e, strnlen(b, n)), "timestamp into %zu bytes: %s is not a terminated beginning of %s", n, vp_show(b, n), e); vp_buf_release(mk); vp_states_add(1); }
	vclock = 0;
}
static long t_units(void) { return 5 * VP_T(100, 500); }
static void t_run(long u) { setenv("TZ", TZS[u % 5], 1); tzset(); long k = u / 5, n = VP_T(100, 500); for(long d = k; d < 50000; d += n) { ts(d * 86400LL); ts(d * 86400LL - 1); ts(d * 86400LL + 43210); } for(long s = 0; s < 7200; s++) if(s % n == k) { ts(951782400 + s - 3600); ts(1704067200 + s - 3600); ts(1710054000 + s - 3600); } ts(977LL * k * 1000); vp_trace("days %ld.. TZ %s", k, TZS[u % 5]); }
const vp_scenario vp_scenarios[] = {
	{ "interrupts", s_units, s_run, "22 durations x both functions x all patterns of up to 4 (6) interruptions (5 kinds) and errors (3 kinds)" },
	{ "durations", w_units, w_run, "9000 (90000) durations around 0, second boundaries and large, both functions" },
	{ "differences", d_units, d_run, "all pairs of 192 clock values: timespec_diff, mspassed, getutime, gettimestamp" },
	{ "boundary", e_units, e_run, "200 x 300 (2000) clock pairs around a second boundary" },
	{ "timestamps", t_units, t_run, "50000 days x 3 times, 3 windows of 7200 seconds (leap day, new year, change to summer time) x 5 time zones; all buffer sizes 0..25" },
	{ 0 }
};
