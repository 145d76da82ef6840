/* Bounded exhaustive explorer for in-process C code.
 *
 * A check is a set of scenarios; a scenario is a finite set of units (starting
 * configurations); within a unit every sequence of answers to vp_choose() is
 * executed (stateless depth-first search, replay from the start of the unit).
 * Forked workers share the units; a failing or crashing execution is described
 * by (scenario, unit, choice sequence) and is replayed in a fresh process
 * before it is reported.
 */
#ifndef VP_ENGINE_H
#define VP_ENGINE_H
#define _GNU_SOURCE
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <errno.h>
#include <unistd.h>

typedef struct {
	const char *name;
	long (*units)(void);      /* number of units for this tier; NULL: 1 */
	void (*run)(long unit);   /* one execution */
	const char *what;         /* what is enumerated */
} vp_scenario;

extern const char vp_property[];
extern const vp_scenario vp_scenarios[];   /* ends with name==NULL */

extern int vp_tier;                        /* 0 quick, 1 thorough */
#define VP_T(q, t) (vp_tier ? (t) : (q))

/* nondeterminism */
int vp_choose(int n);                      /* all of 0..n-1 */
int vp_fault(int alts);                    /* 0 = default answer, 1..alts = deviation; bounded by budget */
void vp_fault_budget(int n);               /* deviations allowed from here on in this execution */
int vp_faults_used(void);

/* verdicts */
void vp_fail(const char *fmt, ...) __attribute__((noreturn, format(printf, 1, 2)));
extern unsigned long long vp_nchecks;
#define VP_CHECK(c, ...) do { vp_nchecks++; if(__builtin_expect(!(c), 0)) vp_fail(__VA_ARGS__); } while(0)

/* bookkeeping */
extern int vp_tracing;
void vp_trace_(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
#define vp_trace(...) do { if(__builtin_expect(vp_tracing, 0)) vp_trace_(__VA_ARGS__); } while(0)
void vp_beat(void);
void vp_trans(unsigned long long n);       /* n transitions (calls into the implementation) compared */
void vp_state(uint64_t fp);                /* observable state reached; distinct ones are counted */
void vp_states_add(unsigned long long n);  /* n states known to be distinct by construction */
void vp_traces_add(unsigned long long n);  /* complete histories beyond one per execution */
void vp_hang_limit(int seconds);           /* for the current unit */

static inline uint64_t vp_mix(uint64_t h, uint64_t v) {
	h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
	h *= 0xff51afd7ed558ccdull; h ^= h >> 32;
	return h;
}
uint64_t vp_hash(const void *p, size_t n, uint64_t seed);

/* live heap blocks (all allocations of the process, libc's included) */
long vp_live(void);
#define VP_LEAKCHECK(before, ...) do { long n_ = vp_live(); if(n_ != (before)) { char b_[512]; snprintf(b_, sizeof b_, __VA_ARGS__); \
	vp_fail("heap blocks not released (or released too often): %ld before, %ld after: %s", (long)(before), n_, b_); } } while(0)

/* exact-size buffer: n usable bytes starting 8-aligned, everything around is poisoned (ASAN builds).
   Valid until the end of the execution or vp_buf_reset(). */
void *vp_buf(size_t n);
void vp_buf_reset(void);
size_t vp_buf_mark(void);
void vp_buf_release(size_t mark);
/* printable form of bytes, rotating static buffers */
const char *vp_show(const void *p, size_t n);
const char *vp_shows(const char *s);

/* allocation failure injection (objects linked with the wraps) */
extern int vp_oom_on;                      /* 1: each allocation call is a fault point */
extern unsigned long vp_oom_hits;          /* failures delivered in this execution */
extern unsigned long vp_alloc_calls;

static inline void *vp_copy(const void *p, size_t n) { void *r = vp_buf(n); memcpy(r, p, n); return r; }
static inline char *vp_str(const char *s) { return vp_copy(s, strlen(s) + 1); }
#define VP_N(a) ((int)(sizeof(a)/sizeof((a)[0])))
#endif
