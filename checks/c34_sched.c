/* C34: all pairs of library calls in two threads; interleavings modulo independence of memory accesses (only accesses to memory both
   threads use, one of them writing, are scheduling points), and nested calls from callbacks. */
#include "engine.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <signal.h>
#include "c34.h"
const char vp_property[] = "C34";
shared *S; int vp_tsan_prepare(void);
#define MAXOPS 128
static outbuf *solo; static char *have;
static void init(void) { if(S) return; S = mmap(0, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); solo = mmap(0, sizeof *solo * 2 * MAXOPS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); have = calloc(2, MAXOPS); if(S == MAP_FAILED || solo == MAP_FAILED || vp_tsan_prepare()) _exit(78); S->nest_outer = -1; char d[40]; snprintf(d, sizeof d, "w%d", (int)getpid()); if(mkdir(d, 0755) || chdir(d)) _exit(78); c34_prepare(); vp_hang_limit(VP_T(240, 600)); }
static void reset(int a, int b) { S->op[0] = a; S->op[1] = b; memset(S->done, 0, sizeof S->done); S->out[0].n = S->out[1].n = 0; for(int t = 0; t < 2; t++) { memset(S->foot[t], 0, sizeof S->foot[t]); S->nfoot[t] = 0; } S->points = 0; S->lastalive = -1; S->accesses = 0; S->switches = 0; S->overflow = 0; }
/* one execution in a process of its own: the library's state is that of a fresh program */
static int in_child(void (*f)(void)) {
	fflush(0); pid_t p = fork(); if(p < 0) { perror("fork"); _exit(78); }
	if(!p) { struct sigaction d; memset(&d, 0, sizeof d); d.sa_handler = SIG_DFL; sigaction(SIGALRM, &d, 0); sigaction(SIGSEGV, &d, 0); alarm(20); f(); _exit(0); }
	int st; while(waitpid(p, &st, 0) < 0) if(errno != EINTR) _exit(78); vp_beat();
	if(WIFEXITED(st) && WEXITSTATUS(st) == 78) { fprintf(stderr, "harness\n"); _exit(78); } return st;
}
static const char *why(int st) { static char b[80]; if(WIFSIGNALED(st)) snprintf(b, sizeof b, WTERMSIG(st) == SIGALRM ? "hangs" : "crashes with signal %d", WTERMSIG(st)); else snprintf(b, sizeof b, "ends the process with %d", WEXITSTATUS(st)); return b; }
static void need(int op, int id) {
	if(have[op * 2 + id]) return; reset(id ? -1 : op, id ? op : -1); S->nconf = 0; S->alternate = 0; S->np = 0; int st = in_child(sched_run); VP_CHECK(!st, "%s alone %s", c34_ops[op].name, why(st)); if(S->overflow) { fprintf(stderr, "footprint table\n"); _exit(78); }
	solo[op * 2 + id] = S->out[id]; have[op * 2 + id] = 1; if(S->out[id].n == 0) { fprintf(stderr, "%s reports nothing\n", c34_ops[op].name); _exit(78); }
}
static void same(int t, int op, const char *how) { outbuf *e = &solo[op * 2 + t], *g = &S->out[t]; if(g->n == e->n && !memcmp(g->b, e->b, g->n)) { vp_nchecks++; return; } unsigned i = 0; while(i < g->n && i < e->n && g->b[i] == e->b[i]) i++; unsigned k = i > 12 ? i - 12 : 0; vp_fail("%s: %s (thread %d) gives ...%s, alone it gives ...%s", how, c34_ops[op].name, t, vp_show(g->b + k, g->n - k > 60 ? 60 : g->n - k), vp_show(e->b + k, e->n - k > 60 ? 60 : e->n - k)); }
static int A, B; static unsigned long execs;
static void exec1(int first, int np, const int *plan, int alt) {
	cell *none = 0; (void)none; reset(A, B); S->first = first; S->np = np; memcpy(S->plan, plan, sizeof *plan * np); S->alternate = alt;
	int st = in_child(sched_run); execs++; vp_trans(2); char how[300]; int l = snprintf(how, sizeof how, "%s and %s, ", c34_ops[A].name, c34_ops[B].name);
	if(alt) snprintf(how + l, sizeof how - l, "switching at every access number divisible by %d", alt); else if(!np) snprintf(how + l, sizeof how - l, "thread %d first, one after the other", first); else { l += snprintf(how + l, sizeof how - l, "thread %d first, switching at scheduling point", first); for(int i = 0; i < np; i++) l += snprintf(how + l, sizeof how - l, " %d", plan[i]); }
	VP_CHECK(!st, "%s: %s", how, why(st)); VP_CHECK(S->done[0] && S->done[1], "%s: a call does not return", how);
	same(0, A, how); same(1, B, how);
}
static int newconf(void) { int n = 0; for(int i = 0; i < HB; i++) { cell *a = &S->foot[0][i]; if(!a->a) continue; unsigned h = (a->a * 0x9e3779b97f4a7c15ull) >> 40; for(int j = 0; j < HB; j++) { cell *b = &S->foot[1][(h + j) & (HB - 1)]; if(!b->a) break; if(b->a != a->a) continue; unsigned m = (a->w & (b->r | b->w)) | (b->w & (a->r | a->w)); if(!m) break;
		unsigned hh = h; for(int q = 0; q < 4096; q++) { cell *c = &S->conf[(hh + q) & 4095]; if(!c->a) { if(S->nconf >= 2048) break; c->a = a->a; S->nconf++; } if(c->a == a->a) { if((c->r & m) != m) n++; c->r |= m; break; } } break; } } return n; }
static int nfail;
static void explore(int first, int np, int *plan, int bound, unsigned long cap) {
	if(execs > cap) return; exec1(first, np, plan, 0); if(newconf()) nfail = 1; if(nfail) return; int last = S->lastalive, from = np ? plan[np - 1] + 1 : 0; if(np >= bound) return;
	for(int q = from; q <= last && !nfail && execs <= cap; q++) { plan[np] = q; explore(first, np + 1, plan, bound, cap); }
}
static long p_units(void) { return (long)c34_nops * c34_nops; }
static void p_run(long u) {
	init(); A = u % c34_nops; B = u / c34_nops; vp_trace("thread 0: %s, thread 1: %s", c34_ops[A].name, c34_ops[B].name); need(A, 0); need(B, 1); execs = 0;
	memset(S->conf, 0, sizeof S->conf); S->nconf = 0; int plan[MAXP]; exec1(0, 0, plan, 0); int c = newconf(); unsigned long acc = S->accesses; if(S->overflow) { fprintf(stderr, "footprint table\n"); _exit(78); } exec1(1, 0, plan, 0); c += newconf();
	if(!S->nconf) { /* no access of one thread is visible to the other: all interleavings are equivalent to this one. Checked once more with many switches. */
		exec1(0, 0, plan, vp_tier ? 1 : 1 + acc / 400); vp_trace("%lu accesses, none shared; %d switches", acc, S->switches); if(newconf() == 0) { vp_states_add(1); return; } }
	do { nfail = 0; for(int b = 1; b <= VP_T(2, 3) && !nfail; b++) for(int f = 0; f < 2 && !nfail; f++) explore(f, 0, plan, b, VP_T(6000, 60000)); } while(nfail);
	vp_trace("%d shared granules, %lu schedules", S->nconf, execs); vp_states_add(execs);
}
static void nest_child(void) { c34_ops[S->nest_outer].fn(0, &S->out[0]); S->done[0] = 1; }
static int ncb(void) { int n = 0; for(int i = 0; i < c34_nops; i++) n += c34_ops[i].cb; return n; }
static long n_units(void) { return (long)ncb() * c34_nops; }
static void n_run(long u) {
	init(); int k = u % ncb(), in = u / ncb(), o = 0; for(; ; o++) if(c34_ops[o].cb && k-- == 0) break; need(o, 0); need(in, 1); int calls = 1;
	for(int at = 0; at < calls && at < VP_T(40, 400); at++) { reset(-1, -1); S->nest_outer = o; S->nest_inner = in; S->nest_at = at; S->nest_calls = S->nested = 0; int st = in_child(nest_child); S->nest_outer = -1; char how[200]; snprintf(how, sizeof how, "%s called from callback %d of %s", c34_ops[in].name, at, c34_ops[o].name); VP_CHECK(!st, "%s: %s", how, why(st)); calls = S->nest_calls; if(!calls) { fprintf(stderr, "%s does not call back\n", c34_ops[o].name); _exit(78); } same(0, o, how); if(S->nested) same(1, in, how); vp_trans(2); vp_states_add(1); }
	vp_trace("%s from each of %d callbacks of %s", c34_ops[in].name, calls, c34_ops[o].name);
}
const vp_scenario vp_scenarios[] = {
	{ "nested", n_units, n_run, "every library call from every callback of every call that calls back" },
	{ "threads", p_units, p_run, "all ordered pairs of library calls in two threads: all interleavings modulo independent accesses; where memory is shared, all schedules with up to 2 (3) preemptions" },
	{ 0 }
};
