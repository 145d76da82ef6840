/* C35: daemonize in real processes; every set of open descriptors within several limits, every session position of the caller, failure of fork. */
#include "engine.h"
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/sysmacros.h>
#include <sys/wait.h>
#include "proclib.h"
const char vp_property[] = "C35";
static int ff;
pid_t __real_fork(void); pid_t __wrap_fork(void) { if(ff) { errno = ff == 1 ? EAGAIN : ENOMEM; return -1; } return __real_fork(); }
pid_t __real_vfork(void); pid_t __wrap_vfork(void) { if(ff) { errno = EAGAIN; return -1; } return __real_fork(); }
static const int LIM[] = { 8, 4, 64, 257, 1024, 16, 4096, 5000, 19000 };
#define NB 9
#define TOP 1100
typedef struct { int set, lim, sess, fail, kind; volatile int done, times; pid_t caller, me, sid, pg; int nopen; int bad; char msg[120]; } plan;
static plan *P; /* shared with all processes of one run */
static int num(int i, int lim) { static const int low[] = { 0, 1, 2, 3, 4, 5 }; if(i < 6) return low[i]; return i == 6 ? lim / 2 : i == 7 ? lim - 2 : lim - 1; }
static void facts(void) { /* in the surviving process */
	P->me = getpid(); P->sid = getsid(0); P->pg = getpgrp(); P->times++; P->bad = 0;
	for(int i = 0; i < TOP || i < P->lim + 50; i++) { int fl = fcntl(i, F_GETFL); struct stat st; if(fl == -1) { if(i < 3 && !P->bad) { P->bad = 1; snprintf(P->msg, sizeof P->msg, "descriptor %d is closed", i); } continue; }
		if(P->bad) continue;
		if(i >= 3) { P->bad = 1; snprintf(P->msg, sizeof P->msg, "descriptor %d is still open", i); continue; }
		if(fstat(i, &st) || !S_ISCHR(st.st_mode) || st.st_rdev != makedev(1, 3)) { P->bad = 1; snprintf(P->msg, sizeof P->msg, "descriptor %d is not the null device", i); continue; }
		if((fl & O_ACCMODE) != O_RDWR) { P->bad = 1; snprintf(P->msg, sizeof P->msg, "descriptor %d cannot be both read and written", i); continue; }
		char c; if(write(i, "x", 1) != 1 || read(i, &c, 1) != 0) { P->bad = 1; snprintf(P->msg, sizeof P->msg, "descriptor %d does not behave like the null device", i); } }
	P->done = 1;
}
static void caller(void) {
	P->caller = getpid(); signal(SIGPIPE, SIG_IGN); if(P->sess == 1) setpgid(0, 0); else if(P->sess == 2) setsid();
	struct rlimit r; getrlimit(RLIMIT_NOFILE, &r); if((rlim_t)P->lim + 50 > r.rlim_max) P->lim = 1024; r.rlim_cur = P->lim < TOP ? TOP : P->lim + 50; if(setrlimit(RLIMIT_NOFILE, &r)) _exit(78); int base = P->lim < TOP ? 1030 : P->lim; for(int i = 0; i < TOP || i < P->lim + 50; i++) close(i);
	int seed = open("scratchfile", O_RDWR | O_CREAT, 0600), pp[2]; if(pipe(pp)) _exit(78); int hs = fcntl(seed, F_DUPFD, base + 0), hp = fcntl(pp[1], F_DUPFD, base + 1), hr = fcntl(pp[0], F_DUPFD, base + 2), hn; close(seed); close(pp[0]); close(pp[1]); int nl = open("/dev/null", O_RDONLY); hn = fcntl(nl, F_DUPFD, base + 3); close(nl); if(hs < 1030 || hp < 1030 || hr < 1030 || hn < 1030) _exit(78);
	int src[] = { hs, hp, hr, hn }; for(int i = 0, k = 0; i < NB; i++) if(P->set >> i & 1) { int n = num(i, P->lim); if(n < P->lim) { if(dup2(src[(k + P->kind) % 4], n) != n) _exit(78); if((k + P->kind) % 3 == 0) fcntl(n, F_SETFD, FD_CLOEXEC); } k++; }
	for(int i = 0; i < 4; i++) close(src[i]);
	r.rlim_cur = P->lim; if(setrlimit(RLIMIT_NOFILE, &r)) _exit(78);
	ff = P->fail; daemonize(); ff = 0; facts(); _exit(33);
}
static void one(int set, int lim, int sess, int fail, int kind) {
	memset(P, 0, sizeof *P); P->set = set; P->lim = lim; P->sess = sess; P->fail = fail; P->kind = kind; fflush(0); pid_t p = __real_fork(); if(p < 0) { perror("fork"); _exit(78); }
	if(!p) caller();
	int st, cst = -1, left = 0, sst = -1; pid_t r; for(int n = 0;; ) { r = waitpid(-1, &st, WNOHANG); if(r == -1 && errno == ECHILD) break; if(r == 0) { usleep(50); if(++n > 200000) { kill(p, SIGKILL); if(P->me > 0 && P->me != getpid()) kill(P->me, SIGKILL); vp_fail("does not return within 10 s"); } continue; } if(r == p) cst = st; else if(r > 0) { left++; sst = st; } }
	char w[160]; int l = snprintf(w, sizeof w, "limit %d, open before:", lim); for(int i = 0; i < NB; i++) if(set >> i & 1) l += snprintf(w + l, sizeof w - l, " %d", num(i, lim)); vp_trace("%s%s", w, fail ? ", fork fails" : "");
	if(WIFEXITED(cst) && WEXITSTATUS(cst) == 78) { fprintf(stderr, "harness setup\n"); _exit(78); }
	if(fail) { VP_CHECK(WIFEXITED(cst) && WEXITSTATUS(cst) == 1, "%s: fork fails, the caller ends with status %#x%s", w, cst, P->done ? " after daemonize returned" : ""); VP_CHECK(!P->done, "%s: fork fails, daemonize returns", w); VP_CHECK(left == 0, "%s: fork fails, a child exists", w); vp_trans(1); vp_states_add(1); return; }
	VP_CHECK(P->done && P->times == 1, "%s: daemonize returns in %d processes", w, P->times);
	VP_CHECK(P->me != p, "%s: the calling process itself survives", w);
	VP_CHECK(WIFEXITED(cst) && WEXITSTATUS(cst) == 0, "%s: the calling process ends with status %#x", w, cst);
	VP_CHECK(sst != -1 && WIFEXITED(sst), "%s: the surviving process ended with %#x", w, sst);
	VP_CHECK(P->sid != getsid(0) && P->sid != p, "%s: the surviving process is still in the caller's session", w);
	VP_CHECK(P->sid == P->me, "%s: the surviving process does not lead its session", w);
	VP_CHECK(!P->bad, "%s: %s", w, P->msg); vp_trans(1); vp_states_add(1);
}
static long d_units(void) { return VP_N(LIM) * (1 << NB) / 16; }
static void init(void) { if(!P) { P = mmap(0, sizeof *P, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); prctl(PR_SET_CHILD_SUBREAPER, 1); } vp_hang_limit(VP_T(240, 300)); }
static void d_run(long u) { init(); int lim = LIM[u % VP_N(LIM)]; for(int j = 0; j < 16; j++) { int set = u / VP_N(LIM) * 16 + j, seen = 0, dup = 0; for(int i = 0; i < NB; i++) if(set >> i & 1) { int n = num(i, lim); if(n >= lim) dup = 1; for(int k = 0; k < i; k++) if(set >> k & 1 && num(k, lim) == n) dup = 1; } (void)seen; if(dup) continue;
	if(vp_tier) { for(int s = 0; s < 3; s++) for(int k = 0; k < 12; k++) one(set, lim, s, 0, k); } else one(set, lim, set % 3, 0, set % 12); } }
static long f_units(void) { return VP_N(LIM); }
static void f_run(long u) { init(); for(int set = 0; set < 64; set++) { if(LIM[u] < 6 && set >> LIM[u]) continue; for(int e = 1; e < 3; e++) one(set | (LIM[u] > 6 ? 1 << 8 : 0), LIM[u], set % 3, e, set % 12); } }
const vp_scenario vp_scenarios[] = {
	{ "descriptors", d_units, d_run, "all subsets of descriptors {0..5, half the limit, limit-2, limit-1} x 9 limits (thorough: x session positions x kinds of files)" },
	{ "fork", f_units, f_run, "fork fails: all subsets of descriptors 0..5 x 9 limits x 2 errors" },
	{ 0 }
};
