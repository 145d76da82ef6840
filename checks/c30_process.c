/* C30: process_open/process_close with real children; every system-call failure on the start path, all orders, closed standard descriptors. */
#include "engine.h"
#include <fcntl.h>
#include <signal.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <poll.h>
#include "proclib.h"
const char vp_property[] = "C30";
static char child[4200];
static void childpath(void) { snprintf(child, sizeof child, "%s/c30_child", getenv("VP_BUILD") ? getenv("VP_BUILD") : "."); }
/* ---- failure injection: the k-th (and l-th) fallible call on the start path fails ---- */
static int fk = -1, fl = -1, fn, fdone, ferr, f_on, intr;
static const char *fwhat;
static int hit(const char *w) { if(!f_on) return 0; int i = fn++; if(i == fk || i == fl) { fdone++; fwhat = w; return 1; } return 0; }
#define W0(name, args, call, err) int __real_##name args; int __wrap_##name args { if(hit(#name)) { errno = ferr = err; return -1; } return __real_##name call; }
#define WE(name, args, call, err) int __real_##name args; int __wrap_##name args { if(hit(#name)) { return ferr = err; } return __real_##name call; }
W0(pipe, (int *f), (f), EMFILE)
W0(pipe2, (int *f, int g), (f, g), ENFILE)
W0(dup, (int a), (a), EMFILE)
W0(dup3, (int a, int b, int c), (a, b, c), EBUSY)
W0(dup2, (int a, int b), (a, b), EBUSY)
W0(fork, (void), (), EAGAIN)
WE(posix_spawn_file_actions_init, (posix_spawn_file_actions_t *a), (a), ENOMEM)
WE(posix_spawn_file_actions_addclose, (posix_spawn_file_actions_t *a, int f), (a, f), ENOMEM)
WE(posix_spawn_file_actions_adddup2, (posix_spawn_file_actions_t *a, int f, int g), (a, f, g), ENOMEM)
WE(posix_spawnp, (pid_t *p, const char *f, const posix_spawn_file_actions_t *a, const posix_spawnattr_t *b, char *const v[], char *const e[]), (p, f, a, b, v, e), EAGAIN)
WE(posix_spawn, (pid_t *p, const char *f, const posix_spawn_file_actions_t *a, const posix_spawnattr_t *b, char *const v[], char *const e[]), (p, f, a, b, v, e), EAGAIN)
int __real_fcntl(int, int, ...);
int __wrap_fcntl(int fd, int c, ...) { va_list ap; va_start(ap, c); long x = va_arg(ap, long); va_end(ap); if((c == F_DUPFD || c == F_DUPFD_CLOEXEC) && hit("fcntl(F_DUPFD)")) { errno = ferr = EMFILE; return -1; } return __real_fcntl(fd, c, x); }
pid_t __real_waitpid(pid_t, int*, int);
pid_t __wrap_waitpid(pid_t p, int *s, int o) { if(intr > 0 && f_on == 2) { intr--; errno = EINTR; return -1; } return __real_waitpid(p, s, o); }
/* ---- descriptor table ---- */
#define NFMAX 20100
static int NF = 200;
typedef struct { struct { int open, fdfl, mode; unsigned long dev, ino; } f[NFMAX]; } tab;
static void take(tab *t) { memset(t, 0, NF * sizeof t->f[0]); for(int i = 0; i < NF; i++) { struct stat st; int m = __real_fcntl(i, F_GETFL, 0L); if(m == -1 || fstat(i, &st)) continue; t->f[i].open = 1; t->f[i].mode = m; t->f[i].fdfl = __real_fcntl(i, F_GETFD, 0L); t->f[i].dev = st.st_dev; t->f[i].ino = st.st_ino; } }
static void same(tab *a, const char *when) { static tab b; take(&b); for(int i = 0; i < NF; i++) VP_CHECK(!memcmp(&a->f[i], &b.f[i], sizeof b.f[i]), "descriptor %d %s %s", i, b.f[i].open && !a->f[i].open ? "left open" : !b.f[i].open ? "of the caller closed" : "of the caller changed", when); }
static void nochild(const char *when) { int st; pid_t r = __real_waitpid(-1, &st, WNOHANG); VP_CHECK(r == -1 && errno == ECHILD, "a child process is left behind %s", when); }
static int nobefore(void) { int st; return __real_waitpid(-1, &st, WNOHANG) == -1; }
/* run fn in a process of its own; failures are reported through the shared slot */
static void isolate(void (*fn)(void *), void *a, int limit) {
	fflush(0); pid_t p = __real_fork(); if(p < 0) { perror("fork"); _exit(78); }
	if(!p) { setpgid(0, 0); fn(a); _exit(0); }
	int st; for(;;) { pid_t r = __real_waitpid(p, &st, WNOHANG); if(r == p) break; if(r < 0 && errno != EINTR) _exit(78); static int n; if(++n % 256 == 0) ; usleep(300); limit--; if(limit < 0) { kill(-p, SIGKILL); kill(p, SIGKILL); __real_waitpid(p, &st, 0); vp_fail("hangs: closing a child does not return (or its output never ends)"); } }
	kill(-p, SIGKILL);
	if(WIFEXITED(st) && WEXITSTATUS(st) == 77) _exit(77);
	if(WIFEXITED(st) && WEXITSTATUS(st) == 76) _exit(76);
	if(!WIFEXITED(st) || WEXITSTATUS(st)) vp_fail("the calling process ended with status %#x", st);
}
#define LIMIT 60000 /* ~ 20 s */
static void wr(int fd, const char *s) { size_t n = strlen(s); VP_CHECK(write(fd, s, n) == (ssize_t)n, "writing to the child's stdin fails: %s", strerror(errno)); }
static int rd(int fd, char *b, int n, const char *until) { int o = 0; while(o < n - 1) { struct pollfd p = { fd, POLLIN }; int r = poll(&p, 1, 10000); if(r == 0) vp_fail("no output from the child within 10 s"); if(r < 0 && errno == EINTR) continue; r = read(fd, b + o, n - 1 - o); if(r <= 0) break; o += r; b[o] = 0; if(strstr(b, until)) break; } b[o] = 0; return o; }
/* everything about one freshly opened child in mode "report" */
static void verify(struct process *p, const char *tok, struct process **others, int no, tab *before) {
	static char b[9000]; rd(p->fds[1], b, sizeof b, "END"); char *e = strstr(b, "END"); VP_CHECK(e, "the child's stdout is not connected (got %s)", vp_shows(b)); if(!strchr(e, '\n')) rd(p->fds[1], b + strlen(b), 200, "\n"); char want[64]; snprintf(want, sizeof want, "END %s\n", tok); VP_CHECK(!strcmp(e, want), "arguments: got %s", vp_shows(e));
	struct stat st[3]; for(int i = 0; i < 3; i++) { VP_CHECK(!fstat(p->fds[i], &st[i]), "fds[%d]=%d is not open", i, p->fds[i]); int m = __real_fcntl(p->fds[i], F_GETFL, 0L) & O_ACCMODE; VP_CHECK(m == (i ? O_RDONLY : O_WRONLY), "fds[%d] has the wrong direction", i); for(int j = 0; j < i; j++) VP_CHECK(st[i].st_ino != st[j].st_ino, "fds[%d] and fds[%d] are the same pipe", i, j); }
	int seen[3] = { 0 };
	for(char *l = b; l < e; l = strchr(l, '\n') + 1) { int fd, m; unsigned long d, in; if(sscanf(l, "%d %lu %lu %d", &fd, &d, &in, &m) != 4) vp_fail("report: %s", vp_shows(l));
		if(fd < 3) { VP_CHECK(in == st[fd].st_ino && d == st[fd].st_dev, "the child's descriptor %d is not connected to fds[%d]", fd, fd); VP_CHECK(m == (fd ? O_WRONLY : O_RDONLY) , "the child's descriptor %d has the wrong direction", fd); seen[fd] = 1; continue; }
		for(int i = 0; i < 3; i++) VP_CHECK(!(in == st[i].st_ino && d == st[i].st_dev), "the child inherits an end of its own %s pipe as descriptor %d", i ? i == 1 ? "stdout" : "stderr" : "stdin", fd);
		for(int o = 0; o < no; o++) for(int i = 0; i < 3; i++) { struct stat s2; if(!others[o] || fstat(others[o]->fds[i], &s2)) continue; VP_CHECK(!(in == s2.st_ino && d == s2.st_dev), "the child inherits the caller's end of another child's %s pipe as descriptor %d", i ? i == 1 ? "stdout" : "stderr" : "stdin", fd); }
		VP_CHECK(fd < NF && before->f[fd].open && before->f[fd].ino == in && before->f[fd].dev == d && !(before->f[fd].fdfl & FD_CLOEXEC), "the child inherits descriptor %d, which the caller did not pass on", fd); }
	for(int i = 0; i < 3; i++) VP_CHECK(seen[i], "the child's descriptor %d is closed", i);
	char eb[16]; rd(p->fds[2], eb, 4, "err"); VP_CHECK(!strcmp(eb, "err"), "the child's stderr is not connected");
	wr(p->fds[0], "ping\n"); char pb[64]; rd(p->fds[1], pb, sizeof pb, "\n"); VP_CHECK(!strcmp(pb, "ping\n"), "what is written to the child's stdin does not come back: %s", vp_shows(pb)); vp_trans(2);
}
/* ---- scenario: exit codes ---- */
static void ex_fn(void *a) {
	int u = *(int*)a; static tab t; take(&t); char c[16], *av[] = { child, 0, c, 0 }; struct process p; snprintf(c, sizeof c, "%d", u);
	for(int m = 0; m < 2; m++) { av[1] = m ? "cat" : "exit"; memset(&p, 0xA7, sizeof p); int r = process_open(&p, av); VP_CHECK(r == 0, "process_open failed: %s", strerror(errno)); r = process_close(&p); VP_CHECK(r == u, "a child that exits with %d: process_close returns %d", u, r); same(&t, "after closing"); nochild("after closing"); vp_trans(2); }
}
static long ex_units(void) { return 256; }
static void ex_run(long u) { childpath(); int x = u; isolate(ex_fn, &x, LIMIT); vp_states_add(1); vp_trace("exit code %d", x); }
/* ---- scenario: all orders of opening and closing up to 3 (4) children ---- */
#define MAXC 4
typedef struct { int n, op[2 * MAXC + 1], closedset; } plan;
static void or_fn(void *a) {
	plan *pl = a; static tab t0, t; for(int i = 0; i < 3; i++) if(pl->closedset >> i & 1) close(i);
	take(&t0); struct process P[MAXC], *live[MAXC] = { 0 }; int no = 0; char tok[MAXC][8], cc[MAXC][8];
	for(int i = 0; i < pl->n; i++) {
		int o = pl->op[i];
		if(o < 0) { take(&t); snprintf(tok[no], 8, "t%d", no); snprintf(cc[no], 8, "%d", 30 + no); char *av[] = { child, "report", cc[no], tok[no], 0 }; memset(&P[no], 0xA7, sizeof P[no]); int r = process_open(&P[no], av); VP_CHECK(r == 0, "process_open of child %d failed: %s", no, strerror(errno)); verify(&P[no], tok[no], live, MAXC, &t); live[no] = &P[no]; no++; }
		else { int others = 0; for(int k = 0; k < MAXC; k++) if(live[k] && k != o) { others++; }
			int r = process_close(live[o]); live[o] = 0; VP_CHECK(r == 30 + o, "closing child %d while %d others run returns %d, its exit code is %d", o, others, r, 30 + o); vp_trans(1);
			for(int k = 0; k < MAXC; k++) if(live[k]) { wr(live[k]->fds[0], "still\n"); char pb[64]; rd(live[k]->fds[1], pb, sizeof pb, "\n"); VP_CHECK(!strcmp(pb, "still\n"), "closing child %d disturbs child %d", o, k); } }
	}
	same(&t0, "after closing every child"); nochild("after closing every child");
}
static void orders(int maxc, int closedset) {
	plan pl = { 0 }; pl.closedset = closedset; int live[MAXC] = { 0 }, no = 0, nl = 0;
	for(;;) { int alts = (no < maxc) + nl; if(!alts) break; int c = vp_choose(alts); if(no < maxc && c == 0) { pl.op[pl.n++] = -1; live[no++] = 1; nl++; vp_trace("open child %d", no - 1); } else { if(no < maxc) c--; int k = 0; for(; ; k++) if(live[k] && c-- == 0) break; live[k] = 0; nl--; pl.op[pl.n++] = k; vp_trace("close child %d", k); } }
	isolate(or_fn, &pl, LIMIT); vp_state(vp_hash(&pl, sizeof pl, 3));
}
static long or_units(void) { return 1; }
static void or_run(long u) { childpath(); orders(VP_T(3, 4), 0); }
static long cs_units(void) { return 8; }
static void cs_run(long u) { childpath(); vp_trace("caller has closed descriptors %s%s%s", u & 1 ? "0 " : "", u & 2 ? "1 " : "", u & 4 ? "2" : ""); orders(VP_T(2, 3), u); }
/* ---- scenario: every call fails ---- */
typedef struct { int k, l, closedset, hits, prev; } fplan;
static void fa_fn(void *a) {
	fplan *f = a; static tab t0; struct process p, q; for(int i = 0; i < 3; i++) if(f->closedset >> i & 1) close(i);
	static tab tt; take(&tt); if(f->prev) { char *av[] = { child, "report", "9", "Q", 0 }; VP_CHECK(process_open(&q, av) == 0, "process_open failed"); struct process *none[1] = { 0 }; verify(&q, "Q", none, 1, &tt); }
	take(&t0); fk = f->k; fl = f->l; fn = 0; fdone = 0; f_on = 1; char *av[] = { child, "report", "5", "X", 0 }; memset(&p, 0xA7, sizeof p); errno = 0; int r = process_open(&p, av), e = errno; f_on = 0; vp_trans(1);
	f->hits = fdone;
	if(r == 0) { struct process *o[1] = { f->prev ? &q : 0 }; verify(&p, "X", o, 1, &t0); r = process_close(&p); VP_CHECK(r == 5, "exit code %d", r); }
	else { VP_CHECK(r == -1, "process_open returns %d", r); VP_CHECK(fdone, "process_open fails (%s) though no call failed", strerror(e)); VP_CHECK(e != 0, "%s fails: errno is not set", fwhat); VP_CHECK(e == ferr, "%s fails with %s: errno is %s", fwhat, strerror(ferr), strerror(e)); }
	char when[80]; snprintf(when, sizeof when, fdone ? "after %s failed" : "after closing", fwhat); same(&t0, when);
	if(f->prev) { wr(q.fds[0], "still\n"); char pb[64]; rd(q.fds[1], pb, sizeof pb, "\n"); VP_CHECK(!strcmp(pb, "still\n"), "the failed start disturbs another child"); VP_CHECK(process_close(&q) == 9, "exit code of the other child"); }
	nochild(when);
}
static long fa_units(void) { return 8; }
static fplan *shf;
#include <sys/mman.h>
static void fa_run(long u) {
	childpath(); if(!shf) shf = mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); int prev = vp_choose(2);
	for(int k = 0; k < 60; k++) { *shf = (fplan){ k, -1, u, 0, prev }; vp_trace("fallible call number %d fails", k); isolate(fa_fn, shf, LIMIT); vp_states_add(1); if(!shf->hits) break; if(vp_tier) for(int l = k + 1; l < k + 8; l++) { *shf = (fplan){ k, l, u, 0, prev }; isolate(fa_fn, shf, LIMIT); vp_states_add(1); } }
}
/* ---- scenario: real descriptor limits, programs that cannot be started ---- */
static void rl_fn(void *a) {
	plan *pl = a; static tab t0; struct process p; for(int i = 0; i < 3; i++) if(pl->closedset >> i & 1) close(i);
	take(&t0); struct rlimit r0, r; getrlimit(RLIMIT_NOFILE, &r0); r = r0; if(pl->n) { r.rlim_cur = pl->n; setrlimit(RLIMIT_NOFILE, &r); } char *ch[] = { child, "/nonexistent/program", "no-such-program-xyz", "/dev/null", "." , "/" }; char *av[] = { ch[pl->op[0]], "report", "5", "X", 0 }; memset(&p, 0xA7, sizeof p); errno = 0; int rv = process_open(&p, av), e = errno; setrlimit(RLIMIT_NOFILE, &r0); vp_trans(1);
	if(rv == 0) { VP_CHECK(!pl->op[0], "starting %s succeeds", av[0]); struct process *none[1] = { 0 }; verify(&p, "X", none, 1, &t0); VP_CHECK(process_close(&p) == 5, "exit code"); }
	else { VP_CHECK(rv == -1 && e != 0, "process_open returns %d, errno %d", rv, e); VP_CHECK(pl->n || pl->op[0], "process_open fails with %s", strerror(e)); if(!pl->n && pl->op[0] < 3) VP_CHECK(e == ENOENT, "starting %s: errno %s", av[0], strerror(e)); }
	same(&t0, rv ? "after a failed start" : "after closing"); nochild(rv ? "after a failed start" : "after closing");
}
static long rl_units(void) { return 8 * 6; }
static void rl_run(long u) { childpath(); plan pl = { 0 }; pl.closedset = u % 8; pl.op[0] = u / 8; for(int n = 0; n < 40; n++) { if(n && n < 1) continue; pl.n = n; isolate(rl_fn, &pl, LIMIT); vp_states_add(1); vp_trace("descriptor limit %d", n); } }
/* ---- scenario: interruptions ---- */
static volatile int ticks; static void tick(int s) { ticks++; }
static void in_fn(void *a) {
	int u = *(int*)a; static tab t0; take(&t0); struct process p; char *av[] = { child, u >= 100 ? "slow" : "cat", "77", 0 }; VP_CHECK(process_open(&p, av) == 0, "process_open failed");
	if(u >= 100) { struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = tick; sigaction(SIGALRM, &sa, 0); struct itimerval it = { { 0, 3000 }, { 0, 3000 } }; setitimer(ITIMER_REAL, &it, 0); } else { intr = u; f_on = 2; }
	int r = process_close(&p); f_on = 0; struct itimerval z = { { 0 } }; setitimer(ITIMER_REAL, &z, 0); vp_trans(2);
	VP_CHECK(r == 77, "waiting was interrupted: process_close returns %d, the exit code is 77", r); same(&t0, "after an interrupted close"); nochild("after an interrupted close");
}
static long in_units(void) { return 8; }
static void in_run(long u) { childpath(); int x = u < 5 ? u : 100 + u; isolate(in_fn, &x, LIMIT); vp_states_add(1); vp_trace(u < 5 ? "waiting interrupted %d times" : "waiting interrupted by a timer", x); }
/* ---- scenario: unread output, untaken input ---- */
typedef struct { long out, err; int in, rd, other, pad; } tplan;
static void tr_fn(void *a) {
	tplan *t = a; signal(SIGPIPE, SIG_IGN); static tab t0; take(&t0); struct process p, q; char so[20], se[20]; snprintf(so, sizeof so, "%ld", t->out); snprintf(se, sizeof se, "%ld", t->err);
	if(t->other == 1) VP_CHECK(process_open(&q, (char*[]){ child, "cat", "9", 0 }) == 0, "process_open failed");
	VP_CHECK(process_open(&p, (char*[]){ child, "flood", "42", so, se, 0 }) == 0, "process_open failed"); if(t->other == 2) VP_CHECK(process_open(&q, (char*[]){ child, "cat", "9", 0 }) == 0, "process_open failed");
	if(t->in) { static char z[60000]; ssize_t w = write(p.fds[0], z, t->in == 1 ? 1 : sizeof z); (void)w; }
	for(int f = 1; f < 3; f++) { long want = f == 1 ? t->out : t->err, got = 0; if(t->rd == 1 && want > 10 && (f == 2 || !t->err)) want /= 2; if(!t->rd) want = 0; static char b[70000]; while(got < want) { struct pollfd pf = { p.fds[f], POLLIN }; if(poll(&pf, 1, 10000) == 0) vp_fail("only %ld of %ld bytes of the child's output arrive", got, want); ssize_t r = read(p.fds[f], b, want - got < (long)sizeof b ? want - got : (long)sizeof b); VP_CHECK(r > 0, "the child's output ends after %ld of %ld bytes", got, want); for(ssize_t i = 0; i < r; i++) VP_CHECK(b[i] == 'a' + f, "output of another descriptor"); got += r; }
		if(t->rd == 2) { char x; VP_CHECK(f == 1 && t->err > 65536 ? 1 : read(p.fds[f], &x, 1) == 0, "the child's output does not end"); } }
	int r = process_close(&p); VP_CHECK(r == 42, "a child with output of %ld and %ld bytes exits with 42: process_close returns %d", t->out, t->err, r); if(t->other) VP_CHECK(process_close(&q) == 9, "exit code of the other child"); vp_trans(3); same(&t0, "after closing"); nochild("after closing");
}
static const long TS[] = { 0, 1, 4096, 65535, 65536, 65537, 300000 };
static long tr_units(void) { return 49; }
static void tr_run(long u) { childpath(); tplan t = { TS[u % 7], TS[u / 7] }; t.in = vp_choose(3); t.rd = vp_choose(3); t.other = vp_choose(3); vp_trace("output of %ld and %ld bytes, %s, input %d, other child %d", t.out, t.err, t.rd ? t.rd == 1 ? "half read" : "read" : "unread", t.in, t.other); isolate(tr_fn, &t, LIMIT); vp_state(vp_hash(&t, sizeof t, 5)); }
/* ---- scenario: children that have ended already, and a child of the caller that is none of the library's business ---- */
typedef struct { int n, dead, own, code[MAXC], order[MAXC], shut, mark; } dplan;
static void de_fn(void *a) {
	dplan *d = a; static tab t0; take(&t0); struct process P[MAXC]; pid_t mine = -1; signal(SIGPIPE, SIG_IGN);
	if(d->own == 1) { mine = __real_fork(); if(!mine) _exit(91); }
	for(int i = 0; i < d->n; i++) { char c[8]; snprintf(c, sizeof c, "%d", d->code[i]); VP_CHECK(process_open(&P[i], (char*[]){ child, d->dead >> i & 1 ? "exit" : "cat", c, 0 }) == 0, "process_open failed"); }
	if(d->own == 2) { mine = __real_fork(); if(!mine) _exit(91); }
	for(int i = 0; i < d->n; i++) if(d->dead >> i & 1) { siginfo_t si; int r; while((r = waitid(P_PID, P[i].pid, &si, WEXITED | WNOWAIT)) == -1 && errno == EINTR); VP_CHECK(r == 0, "child %d cannot be waited for", i); }
	if(mine > 0) { siginfo_t si; while(waitid(P_PID, mine, &si, WEXITED | WNOWAIT) == -1 && errno == EINTR); }
	for(int k = 0; k < d->n; k++) { int i = d->order[k];
		for(int f = 0; f < 3; f++) if(k == 0 && d->shut >> f & 1) { close(P[i].fds[f]); if(d->mark) P[i].fds[f] = -1; }
		int r = process_close(&P[i]); vp_trans(1); VP_CHECK(r == d->code[i], "closing child %d, which %s: returns %d, its exit code is %d", i, d->dead >> i & 1 ? "has ended before" : "ends at end of input", r, d->code[i]); }
	same(&t0, "after closing every child");
	if(mine > 0) { int st; VP_CHECK(__real_waitpid(mine, &st, 0) == mine && WIFEXITED(st) && WEXITSTATUS(st) == 91, "a child of the caller that the library did not start has been waited for"); }
	nochild("after closing every child");
}
static long de_units(void) { return 3 * 3; }
static void de_run(long u) {
	childpath(); dplan d = { 0 }; d.n = 1 + u % 3; d.own = u / 3; d.dead = vp_choose(1 << d.n); for(int i = 0; i < d.n; i++) d.code[i] = 10 + 7 * i;
	int left[MAXC], nl = d.n; for(int i = 0; i < nl; i++) left[i] = i; for(int i = 0; nl; i++) { int c = vp_choose(nl); d.order[i] = left[c]; left[c] = left[--nl]; }
	vp_trace("%d children, ended before %x, first closed %d, own child %d", d.n, d.dead, d.order[0], d.own); isolate(de_fn, &d, LIMIT); vp_state(vp_hash(&d, sizeof d, 5));
}
static long sh_units(void) { return 8; }
static void sh_run(long u) { childpath(); dplan d = { 0 }; d.n = 2; d.shut = u; d.mark = vp_choose(2); d.dead = vp_choose(4); d.code[0] = 5; d.code[1] = 6; d.order[0] = vp_choose(2); d.order[1] = !d.order[0]; vp_trace("the caller has closed %ld of the first child's pipes itself", u); isolate(de_fn, &d, LIMIT); vp_state(vp_hash(&d, sizeof d, 6)); }
/* ---- scenario: descriptor numbers: everything below N is taken ---- */
static void hi_fn(void *a) {
	int n = *(int*)a; struct rlimit r; getrlimit(RLIMIT_NOFILE, &r); r.rlim_cur = n + 40; if((rlim_t)n + 40 > r.rlim_max || setrlimit(RLIMIT_NOFILE, &r)) { vp_trace("beyond the limit of this system"); return; }
	NF = n + 40; int fd = open("/dev/null", O_RDWR | O_CLOEXEC), k; while((k = __real_fcntl(fd, F_DUPFD_CLOEXEC, 3L)) >= 0 && k < n - 1) if(k >= n) break; if(k >= n) close(k);
	static tab t0, t1; take(&t0); struct process p, q; char *av[] = { child, "report", "5", "X", 0 }, *aw[] = { child, "report", "6", "Y", 0 }; struct process *none[1] = { 0 }, *one[1] = { &p };
	VP_CHECK(process_open(&p, av) == 0, "process_open failed with %d descriptors in use: %s", n, strerror(errno)); verify(&p, "X", none, 1, &t0); take(&t1); VP_CHECK(process_open(&q, aw) == 0, "second process_open failed with %d descriptors in use: %s", n, strerror(errno)); verify(&q, "Y", one, 1, &t1);
	VP_CHECK(process_close(&p) == 5, "exit code with %d descriptors in use", n); VP_CHECK(process_close(&q) == 6, "exit code of the second child with %d descriptors in use", n); vp_trans(4); same(&t0, "after closing"); nochild("after closing");
}
static const int HI[] = { 30, 60, 120, 122, 124, 126, 128, 200, 248, 250, 251, 252, 253, 254, 255, 256, 257, 260, 506, 512, 1000, 1016, 1018, 1020, 1021, 1022, 1023, 1024, 1025, 1030, 2040, 2048, 4090, 4096, 8190, 16380, 16384, 19900 };
static long hi_units(void) { return VP_N(HI); }
static void hi_run(long u) { childpath(); int n = HI[u]; vp_trace("descriptors below %d in use", n); isolate(hi_fn, &n, LIMIT); vp_states_add(1); }
const vp_scenario vp_scenarios[] = {
	{ "traffic", tr_units, tr_run, "a child that writes 7 x 7 amounts (0 .. 300000 bytes) to its outputs and reads nothing: unread, half read or read; input untaken; beside another child" },
	{ "exitcodes", ex_units, ex_run, "all 256 exit codes, immediate exit and exit at end of input" },
	{ "orders", or_units, or_run, "all orders of opening and closing 3 (4) children; each child's descriptors listed by the child itself" },
	{ "closed", cs_units, cs_run, "all subsets of closed standard descriptors x all orders of 2 (3) children" },
	{ "faults", fa_units, fa_run, "failure of every call on the start path (thorough: and of a second one), alone and beside another child, x all subsets of closed standard descriptors" },
	{ "limits", rl_units, rl_run, "descriptor limits 0..39 x 6 programs (5 not startable) x all subsets of closed standard descriptors" },
	{ "ended", de_units, de_run, "1..3 children, every subset of them ended before closing, every closing order, with and without an ended child of the caller's own" },
	{ "shut", sh_units, sh_run, "every subset of a child's pipes closed by the caller before closing the child (number kept or replaced by -1), beside another child" },
	{ "numbers", hi_units, hi_run, "38 amounts of descriptors in use (30 .. 19900, around 2^7, 2^8, 2^10, 2^12, 2^14): two children" },
	{ "interrupts", in_units, in_run, "waiting interrupted 0..4 times, and by a real timer" },
	{ 0 }
};
