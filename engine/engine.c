#include "engine.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <signal.h>
#include <time.h>
#include <fcntl.h>

#if defined(__SANITIZE_ADDRESS__)
#define VP_ASAN 1
void __asan_poison_memory_region(void const volatile *, size_t);
void __asan_unpoison_memory_region(void const volatile *, size_t);
void __sanitizer_set_death_callback(void (*)(void));
int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
#else
#define VP_ASAN 0
#endif

#define MAXW 16
#define MAXCH 4096
#define MAXSC 64
#define HISTMAX 65536
#define SETBITS 24
#define EXIT_FAIL 77

struct slot {
	volatile long scen, unit;
	volatile unsigned long beat;
	volatile int limit;
	volatile int nch;
	volatile unsigned short ch[MAXCH];
	volatile int failed, done, diverged;
	char msg[4096];
	unsigned long long execs[MAXSC], trans[MAXSC], checks, traces[MAXSC], states_add[MAXSC], units[MAXSC];
	volatile long hist_n;
	volatile int hist_over;
	struct { int s; long u; } hist[HISTMAX];
};
struct shared {
	volatile long next[MAXSC];
	volatile int stop;
	volatile unsigned long long nstates[MAXSC];
	volatile unsigned long long dropped;
	struct slot slot[MAXW];
};
static struct shared *sh;
static volatile uint64_t *set;
static struct slot *me;
int vp_tier;
int vp_tracing;
unsigned long long vp_nchecks;
static int cur_s;
static long nunits[MAXSC];
static int nsc;

/* ---------- choices ---------- */
static unsigned short ch[MAXCH], chn[MAXCH];
static int pos, len;        /* position in this execution, known prefix */
static int budget, used;
static int forced;          /* replaying a given sequence: only one execution */

static void diverge(const char *why) {
	if(me) { me->diverged = 1; snprintf(me->msg, sizeof me->msg, "choice divergence: %s", why); }
	fprintf(stderr, "engine: choice divergence: %s\n", why);
	_exit(78);
}
int vp_choose(int n) {
	if(n <= 0) { fprintf(stderr, "engine: vp_choose(%d)\n", n); _exit(78); }
	if(n == 1) return 0;
	if(pos >= MAXCH) { fprintf(stderr, "engine: too many choices in one execution\n"); _exit(78); }
	if(pos < len) {
		if(forced) chn[pos] = n;
		else if(chn[pos] != n) diverge("different number of alternatives");
		if(ch[pos] >= n) diverge("choice out of range");
	} else {
		ch[pos] = 0; chn[pos] = n; len = pos + 1;
	}
	if(me) { me->ch[pos] = ch[pos]; me->nch = pos + 1; }
	return ch[pos++];
}
void vp_fault_budget(int n) { budget = n; used = 0; }
int vp_faults_used(void) { return used; }
int vp_fault(int alts) {
	if(used >= budget || alts <= 0) return 0;
	if(pos >= MAXCH - 256) return 0;   /* bound: later calls get the default answer */
	int r = vp_choose(alts + 1);
	if(r) used++;
	return r;
}
static int advance(void) {
	if(pos < len) diverge("execution ended early");
	while(len > 0 && ch[len-1] + 1 >= chn[len-1]) len--;
	if(!len) return 0;
	ch[len-1]++;
	return 1;
}

/* ---------- trace ---------- */
#define TRL 400
static char *trl[TRL]; static unsigned long ntr; static int trace_sample_max;
static void trace_dump(FILE *f);
static FILE *trace_out;
void vp_trace_(const char *fmt, ...) {
	static char pool[TRL][400];
	va_list ap; va_start(ap, fmt);
	char *d = pool[ntr % TRL];
	vsnprintf(d, 400, fmt, ap); va_end(ap);
	trl[ntr % TRL] = d; ntr++;
	if(trace_sample_max && ntr >= (unsigned long)trace_sample_max) { trace_dump(trace_out); _exit(0); }
}
static void trace_dump(FILE *f) {
	if(!f) return;
	unsigned long b = ntr > TRL ? ntr - TRL : 0;
	if(b) fprintf(f, "... %lu earlier lines omitted\n", b);
	for(unsigned long i = b; i < ntr; i++) fprintf(f, "%s\n", trl[i % TRL]);
	fflush(f);
}

static void sample_alarm(int s) { (void)s; trace_dump(trace_out); _exit(0); }
void vp_fail(const char *fmt, ...) {
	va_list ap; va_start(ap, fmt);
	char b[4000];
	vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	if(me) { memcpy(me->msg, b, sizeof b); me->failed = 1; }
	if(vp_tracing) { trace_dump(trace_out); trace_out = 0; }
	_exit(EXIT_FAIL);
}
void vp_beat(void) { if(me) me->beat++; }
void vp_hang_limit(int s) { if(me) me->limit = s; }
void vp_trans(unsigned long long n) { if(me) { me->trans[cur_s] += n; me->beat++; } }
void vp_states_add(unsigned long long n) { if(me) me->states_add[cur_s] += n; }
void vp_traces_add(unsigned long long n) { if(me) me->traces[cur_s] += n; }
void vp_state(uint64_t fp) {
	if(!set || forced) return;
	fp = vp_mix(fp, cur_s + 1); if(!fp) fp = 1;
	uint64_t mask = (1ull << SETBITS) - 1, i = (fp * 0x9e3779b97f4a7c15ull) >> (64 - SETBITS);
	for(int k = 0; k < 64; k++, i = (i + 1) & mask) {
		uint64_t o = set[i];
		if(o == fp) return;
		if(o == 0) {
			o = __sync_val_compare_and_swap(&set[i], 0, fp);
			if(o == 0) { __sync_fetch_and_add(&sh->nstates[cur_s], 1); return; }
			if(o == fp) return;
		}
	}
	__sync_fetch_and_add(&sh->dropped, 1);
}
uint64_t vp_hash(const void *p, size_t n, uint64_t h) {
	const unsigned char *s = p;
	h ^= n * 0x9e3779b97f4a7c15ull;
	while(n >= 8) { uint64_t v; memcpy(&v, s, 8); h = vp_mix(h, v); s += 8; n -= 8; }
	uint64_t v = 0; for(size_t i = 0; i < n; i++) v = v << 8 | s[i];
	return vp_mix(h, v + n);
}
const char *vp_show(const void *p, size_t n) {
	static char b[8][1200]; static int k;
	char *d = b[k++ & 7], *o = d; const unsigned char *s = p;
	if(!p) return "(null)";
	*o++ = '"';
	for(size_t i = 0; i < n; i++) {
		if(o - d > 1100) { o += sprintf(o, "...(%zu)", n); break; }
		if(s[i] >= 32 && s[i] < 127 && s[i] != '"' && s[i] != '\\') *o++ = s[i];
		else o += sprintf(o, "\\x%02x", s[i]);
	}
	*o++ = '"'; *o = 0;
	return d;
}
const char *vp_shows(const char *s) { return s ? vp_show(s, strlen(s)) : "(null)"; }

/* ---------- heap accounting, exact buffers ---------- */
static long live;
long vp_live(void) { return live; }
#if VP_ASAN
static void mh(const volatile void *p, size_t n) { (void)n; if(p) live++; }
static void fh(const volatile void *p) { if(p) live--; }
#endif
#define ARENA (64u << 20)
static char *arena; static size_t atop, amax;
void *vp_buf(size_t n) {
	if(!arena) {
		arena = mmap(0, ARENA, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
		if(arena == MAP_FAILED) { perror("mmap"); _exit(78); }
#if VP_ASAN
		__asan_poison_memory_region(arena, ARENA);
#endif
	}
	size_t o = (atop + 15) & ~(size_t)15; o += 64;
	if(o + n + 64 > ARENA) { fprintf(stderr, "engine: arena exhausted\n"); _exit(78); }
	atop = o + n; if(atop > amax) amax = atop;
#if VP_ASAN
	__asan_unpoison_memory_region(arena + o, n);
#endif
	memset(arena + o, 0xA7, n);
	return arena + o;
}
size_t vp_buf_mark(void) { return atop; }
void vp_buf_release(size_t m) {
#if VP_ASAN
	if(arena && atop > m) __asan_poison_memory_region(arena + ((m + 7) & ~(size_t)7), ((atop + 64) & ~(size_t)7) - ((m + 7) & ~(size_t)7));
#endif
	atop = m;
}
void vp_buf_reset(void) { vp_buf_release(0); }

/* ---------- running ---------- */
static void quiet_stdio(void) { }
extern int vp_oom_on; extern unsigned long vp_oom_hits, vp_alloc_calls;
static void run_exec(int s, long u) {
	pos = 0; budget = used = 0; vp_oom_on = 0; vp_oom_hits = 0; vp_alloc_calls = 0;
	vp_buf_reset();
	if(me) { me->nch = 0; me->beat++; }
	vp_scenarios[s].run(u);
	vp_oom_on = 0;
	if(me) { me->execs[s]++; me->traces[s]++; me->checks = vp_nchecks; }
}
/* time limit: scenario s gets its share of what is left; what is not reached is reported as not covered */
static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }
/* no progress: measured in the process's own CPU time, or in wall time when it sleeps; a machine that is busy with
   other work must not look like a call that does not return */
static double cpu_of(pid_t p, int *sleeping) {
	char b[600], *q; snprintf(b, sizeof b, "/proc/%d/stat", (int)p); int fd = open(b, O_RDONLY); *sleeping = 1; if(fd < 0) return -1;
	ssize_t n = read(fd, b, sizeof b - 1); close(fd); if(n <= 0) return -1; b[n] = 0; if(!(q = strrchr(b, ')'))) return -1;
	*sleeping = q[2] == 'S'; unsigned long u, t, cu, ct;
	if(sscanf(q + 2, "%*c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %lu %lu %lu %lu", &u, &t, &cu, &ct) != 4) return -1;
	return (double)(u + t + cu + ct) / sysconf(_SC_CLK_TCK);
}
static int busy_machine(void) { char b[64]; int fd = open("/proc/loadavg", O_RDONLY); if(fd < 0) return 0; ssize_t n = read(fd, b, sizeof b - 1); close(fd); b[n > 0 ? n : 0] = 0; return atof(b) > 1.6 * sysconf(_SC_NPROCESSORS_ONLN); }
struct watch { unsigned long beat; double wall, cpu; int any; };
static int stuck(struct watch *k, pid_t p, unsigned long beat, int lim) {
	double t = now(); int sl;
	if(!k->any || beat != k->beat) { k->any = 1; k->beat = beat; k->wall = t; k->cpu = -1; return 0; }
	if(k->cpu < 0) { if(t - k->wall > lim / 8.) { k->cpu = cpu_of(p, &sl); } return 0; }   /* costs nothing while things move */
	if(t - k->wall <= lim) return 0;
	double c = cpu_of(p, &sl);
	return c < 0 || c - k->cpu > .6 * lim || (sl && !busy_machine()) || t - k->wall > 3 * lim;
}
static double deadline, scen_deadline;
static int late(void) { return scen_deadline && now() > scen_deadline; }
static void run_unit(int s, long u) {
	cur_s = s; len = 0; forced = 0;
	if(me) { me->scen = s; me->unit = u; me->nch = 0; me->limit = 0; }
	do run_exec(s, u); while(advance() && !sh->stop && !late());
	if(me && !len) me->units[s]++;
}
static void worker(int w) {
	me = &sh->slot[w];
	for(int s = 0; s < nsc; s++) { if(deadline) { double t = now(); scen_deadline = t + (deadline > t ? (deadline - t) / (nsc - s) : 0); } for(;;) {
		if(sh->stop) goto out;
		if(late()) break;
		long u = __sync_fetch_and_add(&sh->next[s], 1);
		if(u >= nunits[s]) break;
		if(me->hist_n < HISTMAX) { me->hist[me->hist_n].s = s; me->hist[me->hist_n].u = u; me->hist_n++; } else me->hist_over = 1;
		run_unit(s, u);
	} }
out:
	me->done = 1;
	_exit(0);
}

static void death(void) { if(vp_tracing) trace_dump(trace_out); }
/* run something in a fresh child; returns 1 if it failed (msg filled), 0 if it went well, 2 divergence */
struct cand { int s; long u; int nch; unsigned short ch[MAXCH]; long hist_n; int slot; };
static int replay(const struct cand *c, int mode, int limit, const char *outpath, char *msg, size_t ml, int trace) {
	struct slot *sl = &sh->slot[MAXW-1];
	long hn = 0;
	if(mode == 2) {
		hn = c->hist_n;
		if(c->slot != MAXW-1) for(long i = 0; i < hn; i++) sl->hist[i] = sh->slot[c->slot].hist[i];
	}
	sl->failed = sl->done = sl->diverged = 0; sl->beat = 0; sl->msg[0] = 0; sl->limit = 0; sl->hist_n = hn;
	sh->stop = 0;
	fflush(stdout); fflush(stderr);
	pid_t p = fork();
	if(p < 0) { perror("fork"); exit(2); }
	if(!p) {
		me = sl; vp_tracing = trace;
#if VP_ASAN
		__sanitizer_set_death_callback(death);
#endif
		if(outpath) {
			int fd = open(outpath, O_WRONLY|O_CREAT|O_APPEND, 0644);
			if(fd >= 0) { trace_out = fdopen(dup(fd), "a"); dup2(fd, 2); close(fd); }
		}
		if(mode == 0) {
			cur_s = c->s; sl->scen = c->s; sl->unit = c->u;
			len = c->nch; forced = 1; memcpy(ch, c->ch, sizeof ch[0] * c->nch);
			run_exec(c->s, c->u);
		} else if(mode == 1) run_unit(c->s, c->u);
		else for(long i = 0; i < hn; i++) run_unit(sl->hist[i].s, sl->hist[i].u);
		if(vp_tracing) trace_dump(trace_out);
		sl->done = 1; _exit(0);
	}
	struct watch wt = {0}; int hung = 0, st = 0;
	for(;;) {
		pid_t r = waitpid(p, &st, WNOHANG);
		if(r == p) break;
		if(stuck(&wt, p, sl->beat, sl->limit > limit ? sl->limit : limit)) { hung = 1; kill(p, SIGKILL); waitpid(p, &st, 0); break; }
		usleep(2000);
	}
	if(hung) { snprintf(msg, ml, "no progress for %d s (the call does not return)", limit); return 1; }
	if(sl->failed) { snprintf(msg, ml, "%s", sl->msg); return 1; }
	if(WIFEXITED(st) && WEXITSTATUS(st) == 78) { snprintf(msg, ml, "%s", sl->msg); return 2; }
	if(sl->done && WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
	if(WIFSIGNALED(st)) snprintf(msg, ml, "process killed by signal %d", WTERMSIG(st));
	else if(WEXITSTATUS(st) == 76) snprintf(msg, ml, "memory error reported by the address sanitizer");
	else snprintf(msg, ml, "process ended with status %d in the middle of a call", WEXITSTATUS(st));
	return 1;
}
static void jstr(FILE *f, const char *s) {
	fputc('"', f);
	for(; *s; s++) { unsigned char c = *s; if(c == '"' || c == '\\') fprintf(f, "\\%c", c); else if(c < 32 || c > 126) fprintf(f, "\\u%04x", c); else fputc(c, f); }
	fputc('"', f);
}
static void print_cand(FILE *f, const struct cand *c, int mode) {
	fprintf(f, "\"scenario\": "); jstr(f, vp_scenarios[c->s].name);
	fprintf(f, ", \"unit\": %ld, \"mode\": %d, \"choices\": [", c->u, mode);
	for(int i = 0; i < c->nch; i++) fprintf(f, "%s%d", i ? "," : "", c->ch[i]);
	fprintf(f, "]");
	if(mode == 2) {
		fprintf(f, ", \"history\": [");
		for(long i = 0; i < c->hist_n; i++) fprintf(f, "%s[%d,%ld]", i ? "," : "", sh->slot[c->slot].hist[i].s, sh->slot[c->slot].hist[i].u);
		fprintf(f, "]");
	}
}

int vp_main(int argc, char **argv) {
	const char *out = 0, *tracef = 0, *only = 0; int W = 8, hang = 80; const char *rep = 0, *repch = ""; long repu = 0; int repmode = 0; const char *rephist = 0;
	for(int i = 1; i < argc; i++) {
		if(!strcmp(argv[i], "--tier")) vp_tier = !strcmp(argv[++i], "thorough");
		else if(!strcmp(argv[i], "--out")) out = argv[++i];
		else if(!strcmp(argv[i], "--trace")) tracef = argv[++i];
		else if(!strcmp(argv[i], "--only")) only = argv[++i];
		else if(!strcmp(argv[i], "--workers")) W = atoi(argv[++i]);
		else if(!strcmp(argv[i], "--seconds")) deadline = now() + atof(argv[++i]);
		else if(!strcmp(argv[i], "--hang")) hang = atoi(argv[++i]);
		else if(!strcmp(argv[i], "--replay")) { rep = argv[++i]; repu = atol(argv[++i]); repmode = atoi(argv[++i]); repch = argv[++i]; rephist = argv[++i]; }
		else { fprintf(stderr, "bad argument %s\n", argv[i]); return 2; }
	}
	if(W > MAXW - 1) W = MAXW - 1;
	sh = mmap(0, sizeof *sh, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
	set = mmap(0, 8ull << SETBITS, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
	if(sh == MAP_FAILED || set == MAP_FAILED) { perror("mmap"); return 2; }
#if VP_ASAN
	__sanitizer_install_malloc_and_free_hooks(mh, fh);
#endif
	quiet_stdio();
	setvbuf(stdout, 0, _IOLBF, 0);
	while(vp_scenarios[nsc].name) {
		nunits[nsc] = vp_scenarios[nsc].units ? vp_scenarios[nsc].units() : 1;
		if(only && strcmp(only, vp_scenarios[nsc].name)) nunits[nsc] = 0;
		nsc++;
	}
	char msg[4200];
	static struct cand c;
	if(rep) {
		int s; for(s = 0; s < nsc; s++) if(!strcmp(rep, vp_scenarios[s].name)) break;
		if(s == nsc) { fprintf(stderr, "no scenario %s\n", rep); return 2; }
		c.s = s; c.u = repu; c.slot = MAXW-1;
		for(const char *p = repch; *p;) { c.ch[c.nch++] = strtol(p, (char**)&p, 10); if(*p == ',') p++; }
		if(rephist) for(const char *p = rephist; *p;) { struct slot *sl = &sh->slot[MAXW-1]; sl->hist[c.hist_n].s = strtol(p, (char**)&p, 10); p++; sl->hist[c.hist_n++].u = strtol(p, (char**)&p, 10); if(*p == ',') p++; }
		int r = replay(&c, repmode, 120, tracef, msg, sizeof msg, 1);
		if(r == 1) { printf("REPRODUCED %s\n", msg); return 1; }
		printf("%s\n", r ? "DIVERGED" : "NOT-REPRODUCED"); return r ? 2 : 0;
	}
	double t0 = now();
	pid_t pid[MAXW]; static struct watch wt[MAXW]; double gap[MAXSC] = {0}, lastmove[MAXW]; unsigned long lastbeat[MAXW];
	fflush(stdout); fflush(stderr);
	for(int w = 0; w < W; w++) {
		pid[w] = fork();
		if(pid[w] < 0) { perror("fork"); return 2; }
		if(!pid[w]) {
			int fd = open("/dev/null", O_WRONLY); if(fd >= 0) { dup2(fd, 2); close(fd); }
			worker(w);
		}
		lastbeat[w] = 0; lastmove[w] = now();
	}
	int alive = W, bad = -1, badst = 0, badhang = 0;
	while(alive > 0) {
		int st; pid_t p;
		int any = 0;
		for(int w = 0; w < W; w++) if(pid[w] > 0) {
			p = waitpid(pid[w], &st, WNOHANG);
			if(p == pid[w]) {
				any = 1; pid[w] = 0; alive--;
				if(!(sh->slot[w].done && WIFEXITED(st) && WEXITSTATUS(st) == 0) && bad < 0) { bad = w; badst = st; sh->stop = 1; }
			} else {
				if(sh->slot[w].beat != lastbeat[w]) { lastbeat[w] = sh->slot[w].beat; lastmove[w] = now(); } else { double g = now() - lastmove[w]; long sc = sh->slot[w].scen; if(sc >= 0 && sc < nsc && g > gap[sc]) gap[sc] = g; }
				int lim = sh->slot[w].limit > hang ? sh->slot[w].limit : hang;
				if(bad < 0 && stuck(&wt[w], pid[w], sh->slot[w].beat, lim)) { bad = w; badhang = 1; sh->stop = 1; }
			}
		}
		if(bad >= 0) {
			for(int w = 0; w < W; w++) if(pid[w] > 0) { kill(pid[w], SIGKILL); waitpid(pid[w], &st, 0); pid[w] = 0; alive--; }
			break;
		}
		if(!any) usleep(3000);
	}
	if(getenv("VP_GAPS")) for(int i = 0; i < nsc; i++) printf("gap %s %.1f\n", vp_scenarios[i].name, gap[i]);
	int rc = 0, mode = 0; msg[0] = 0;
	(void)badst;
	if(bad >= 0) {
		struct slot *sl = &sh->slot[bad];
		if(sl->diverged) { fprintf(stderr, "engine: %s\n", sl->msg); }
		c.s = sl->scen; c.u = sl->unit; c.nch = sl->nch; c.slot = bad; c.hist_n = sl->hist_n;
		memcpy(c.ch, (void*)sl->ch, sizeof ch[0] * c.nch);
		int lim = hang;
		rc = 3;
		for(mode = 0; mode < 3; mode++) {
			if(mode == 2 && sl->hist_over) continue;
			int r = replay(&c, mode, lim, tracef, msg, sizeof msg, mode == 0);
			if(r == 1) { rc = 1; break; }
		}
		if(rc == 1) {
			if(mode) {  /* once more, with the trace */
				char m2[4200]; replay(&c, mode, lim, tracef, m2, sizeof m2, 1);
			}
		} else snprintf(msg, sizeof msg, "failure not reproduced on replay: %s", sl->msg);
	}
	FILE *f = out ? fopen(out, "w") : stdout;
	if(!f) { perror(out); return 2; }
	unsigned long long ex = 0, tr = 0, ck = 0, sa = 0, tc = 0, ns = 0;
	for(int w = 0; w < W; w++) ck += sh->slot[w].checks;
	fprintf(f, "{\"property\": "); jstr(f, vp_property);
	fprintf(f, ", \"scenarios\": [");
	int complete = rc == 0;
	for(int s = 0; s < nsc; s++) {
		unsigned long long e = 0, t = 0, a = 0, c2 = 0, un = 0;
		for(int w = 0; w < W; w++) { e += sh->slot[w].execs[s]; t += sh->slot[w].trans[s]; a += sh->slot[w].states_add[s]; c2 += sh->slot[w].traces[s]; un += sh->slot[w].units[s]; }
		ex += e; tr += t; sa += a; tc += c2; ns += sh->nstates[s];
		if(un < (unsigned long long)nunits[s]) complete = 0;
		fprintf(f, "%s\n {\"name\": ", s ? "," : ""); jstr(f, vp_scenarios[s].name);
		fprintf(f, ", \"enumerates\": "); jstr(f, vp_scenarios[s].what ? vp_scenarios[s].what : "");
		fprintf(f, ", \"units\": %llu, \"units_planned\": %ld, \"executions\": %llu, \"transitions\": %llu, \"states\": %llu, \"histories\": %llu}", un, nunits[s], e, t, (unsigned long long)sh->nstates[s] + a, c2);
	}
	fprintf(f, "],\n \"executions\": %llu, \"transitions\": %llu, \"states\": %llu, \"histories\": %llu, \"checks\": %llu, \"states_dropped\": %llu, \"complete\": %s, \"wall\": %.3f",
		ex, tr, ns + sa, tc, ck, (unsigned long long)sh->dropped, complete ? "true" : "false", now() - t0);
	if(rc) {
		fprintf(f, ",\n \"result\": %s, \"message\": ", rc == 1 ? "\"violation\"" : "\"unreproduced\""); jstr(f, msg);
		fprintf(f, ", "); print_cand(f, &c, mode > 2 ? 1 : mode);
	} else {
		fprintf(f, ",\n \"result\": \"held\", \"samples\": [");
		/* sample executions: first and middle unit of each scenario, one execution each, traced */
		int first = 1;
		for(int s = 0; s < nsc; s++) for(int k = 0; k < 2; k++) {
			long u = k ? nunits[s] / 2 : 0;
			if(nunits[s] == 0 || (k && u == 0)) continue;
			char tmpl[] = "/tmp/vpsampleXXXXXX"; int fd = mkstemp(tmpl);
			if(fd < 0) continue;
			fflush(f); fflush(stdout); fflush(stderr);
			pid_t p = fork();
			if(!p) {
				me = &sh->slot[MAXW-1]; vp_tracing = 1; trace_sample_max = 12;
				trace_out = fdopen(dup(fd), "a");
				int nl = open("/dev/null", O_WRONLY); dup2(nl, 2);
				cur_s = s; len = 0; forced = 1; signal(SIGALRM, sample_alarm); alarm(1);
				run_exec(s, u);
				trace_dump(trace_out); _exit(0);
			}
			int st; waitpid(p, &st, 0);
			char b[3000]; ssize_t n = pread(fd, b, sizeof b - 1, 0); close(fd); unlink(tmpl);
			if(n > 0) { b[n] = 0; fprintf(f, "%s\n  ", first ? "" : ","); first = 0;
				char h[5000]; snprintf(h, sizeof h, "%s unit %ld: %s", vp_scenarios[s].name, u, b);
				for(char *q = h; *q; q++) if(*q == '\n') *q = q[1] ? ';' : ' ';
				jstr(f, h); }
		}
		fprintf(f, "]");
	}
	fprintf(f, "}\n");
	if(f != stdout) fclose(f);
	return rc;
}
int main(int argc, char **argv) { return vp_main(argc, argv); }
