/* C34: two threads of library calls under a controlled scheduler. */
#ifndef C34_H
#define C34_H
#include <stddef.h>
typedef struct { unsigned n; unsigned char b[6000]; } outbuf;         /* what a call returned and stored, address independent */
typedef struct { const char *name; void (*fn)(int id, outbuf *o); int cb; } c34_op; /* cb: calls back */
extern const c34_op c34_ops[]; extern const int c34_nops;
void c34_callback(void);                                              /* called from every comparison/hash callback */
void c34_prepare(void);                                               /* once, before any thread: documented initialisations */
/* scheduler */
enum { MAXP = 8, HB = 1 << 15 };
typedef struct { unsigned long a; unsigned char r, w; } cell;          /* 8-byte granule, byte masks */
typedef struct {
	outbuf out[2]; int done[2];
	cell foot[2][HB]; int nfoot[2], overflow;
	cell conf[4096]; int nconf;                                        /* granules both threads use, at least one writing */
	int op[2], first, alternate, np, plan[MAXP];                       /* schedule: switch at these scheduling points */
	int points, lastalive;                                             /* scheduling points met; the last one at which both threads were alive */
	unsigned long accesses; int switches;
	int nest_outer, nest_inner, nest_at, nest_calls, nested;
} shared;
extern shared *S;
void sched_run(void);                                                 /* in a fresh child process */
void note(const void *p, size_t n, int write);
#endif
