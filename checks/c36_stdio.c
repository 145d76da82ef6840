/* C36: programs written against the stdio replacement header: all sequences of calls, against what C's functions would write; character classes. */
#include "engine.h"
#include <sys/uio.h>
#include <ctype.h>
#include <limits.h>
#include "c36.h"
const char vp_property[] = "C36";
/* every write is recorded instead of carried out: descriptor and bytes, in order */
static char rec[4][20000]; static size_t rn[4]; static int on, stray;
ssize_t __real_write(int, const void*, size_t);
static int slot(int fd) { return fd == 1 ? 0 : fd == 2 ? 1 : fd == 77 ? 2 : fd == 0 ? 3 : -1; }
ssize_t __wrap_write(int f, const void *b, size_t n) { if(!on) return __real_write(f, b, n); if(f < 0) { errno = EBADF; return -1; } int s = slot(f); if(s < 0) { stray = f; return n; } if(rn[s] + n > sizeof rec[s]) vp_fail("more output than any of these calls produces"); memcpy(rec[s] + rn[s], b, n); rn[s] += n; return n; }
ssize_t __real_writev(int, const struct iovec*, int); ssize_t __wrap_writev(int f, const struct iovec *v, int k) { if(!on) return __real_writev(f, v, k); ssize_t t = 0; for(int i = 0; i < k; i++) { ssize_t r = v[i].iov_len ? __wrap_write(f, v[i].iov_base, v[i].iov_len) : 0; if(r < 0) return t ? t : r; t += r; } return t; }
static char want[4][20000]; static size_t wn[4];
static void add(int s, const char *f, ...) { va_list ap; va_start(ap, f); wn[s] += vsnprintf(want[s] + wn[s], sizeof want[s] - wn[s], f, ap); va_end(ap); }
static const char *S[] = { "", "a", "two words", "100% %d %s", "line\nbreak", 0 };
static char longs[3000];
static const char *str(int i) { if(i < 5) return S[i]; if(!longs[0]) memset(longs, 'L', sizeof longs - 1); return longs; }
static void one(int k, int v) {
	call c = { 0 }; static const int DV[] = { 0, -1, 7, INT_MAX, INT_MIN, 42 }, EV[] = { 1, 2, 12, 22, 13, 9999 }; c.d = DV[v]; c.u = (unsigned)DV[v]; c.l = DV[v] * 3000000000L; c.z = v == 3 ? (size_t)-1 : (size_t)v; c.c = "x%\n\x80 z"[v]; c.e = EV[v]; c.fd = v % 3 == 0 ? 77 : v % 3; c.s = str(v);
	char *b = vp_buf(4096), e[4096]; memset(b, 0x5a, 4096); long r; vp_trace("call %d, arguments %d", k, v);
	switch(k) { case 0: add(0, "plain text"); break; case 1: add(0, "%d %s%%%c\n", c.d, c.s, c.c); break; case 2: add(0, "[%s]", c.s); break; case 3: add(1, "<%u|%s|%x>\n", c.u, c.s, c.u); break; case 4: add(slot(c.fd), "%ld:%.3d", c.l, c.d); break; case 5: add(1, "%s: %s\n", c.s[0] ? c.s : "ctx", strerror(c.e)); break; case 6: add(0, "%s\n", c.s); break; case 9: add(c.d > 3 ? 1 : 0, "no args\n"); break; case 11: add(0, "x\n%s\n", c.s); break; }
	on = 1; r = c36_call(k, &c, b, 4096); on = 0; vp_trans(1);
	if(k == 7 || k == 8) { int n = k == 7 ? snprintf(e, sizeof e, "%s-%d", c.s, c.d) : snprintf(e, sizeof e, "%zu/%s", c.z, c.s); VP_CHECK(r == n && !memcmp(b, e, n + 1), "%s: stored %s, C stores %s", k == 7 ? "snprintf" : "vsnprintf", vp_shows(b), vp_shows(e)); }
	VP_CHECK(!stray, "call %d writes to descriptor %d", k, stray);
	for(int s = 0; s < 4; s++) VP_CHECK(rn[s] == wn[s] && !memcmp(rec[s], want[s], wn[s]), "call %d: descriptor %s holds %s, the C functions would leave %s there", k, s == 0 ? "1" : s == 1 ? "2" : s == 2 ? "77" : "0", vp_show(rec[s], rn[s]), vp_show(want[s], wn[s]));
	vp_buf_reset();
}
static long q_units(void) { return NCALL * 6; }
static void q_run(long u) { for(int s = 0; s < 4; s++) rn[s] = wn[s] = 0; one(u % NCALL, u / NCALL); for(int i = 1; i < VP_T(3, 4); i++) { int k = vp_choose(NCALL + 1); if(k == NCALL) break; one(k, i < 2 ? vp_choose(6) : (u + k + i) % 6); } uint64_t h = 5; for(int s = 0; s < 4; s++) h = vp_mix(h, vp_hash(want[s], wn[s], s + 1)); vp_state(h); }
static long c_units(void) { return 1; }
static void c_run(long u) {
	const char *M = "*/+-%=", *A = " @,;.:_!$&()[]{}<>#~", *B = " @,;.:_!&()[]{}<>#~", *Q = "?\"'\\";
	for(int c = -300; c < 600; c++) { int up = c >= 'A' && c <= 'Z', lo = c >= 'a' && c <= 'z', nu = c >= '0' && c <= '9', m = c > 0 && c < 256 && strchr(M, c), a = m || (c > 0 && c < 256 && strchr(A, c)), b = m || (c > 0 && c < 256 && strchr(B, c)), q = a || (c > 0 && c < 256 && strchr(Q, c)), w[] = { up, lo, up || lo, nu, up || lo || nu, m, a, b, q, up || lo || nu || q, up || lo || nu || a, up || lo || nu || b };
		for(int i = 0; c36_class[i].name; i++) { int g = c36_class[i].f(c); VP_CHECK(!!g == !!w[i], "%s %s character %d", c36_class[i].name, g ? "contains" : "lacks", c); vp_trans(1); }
		int k = c36_kind(c), wk = up ? 1 : lo ? 2 : nu ? 3 : q ? 4 : 0; VP_CHECK(k == wk, "character %d falls into class %d of one switch", c, k); vp_states_add(1);
		/* the reason for the two literal classes: nothing in them is special inside double quotes of C or a shell */
		if(c36_class[10].f(c)) VP_CHECK(c != '"' && c != '\\' && c != '\n' && isprint(c), "character %d is not safe in a C literal", c); if(c36_class[11].f(c)) VP_CHECK(c != '"' && c != '\\' && c != '$' && c != '`' && isprint(c), "character %d is not safe in a shell literal", c); }
	vp_trace("all characters");
}
const vp_scenario vp_scenarios[] = {
	{ "calls", q_units, q_run, "all sequences of 1..3 (4) of 12 calls (printf, fprintf, dprintf, perror, puts, snprintf, vsnprintf) x 6 argument sets (first two free), every write recorded" },
	{ "classes", c_units, c_run, "12 character classes x all values -300..599, alone and side by side in one switch" },
	{ 0 }
};
