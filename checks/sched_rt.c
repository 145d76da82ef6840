/* The run-time behind -fsanitize=thread instrumentation: instead of a race detector, every memory access of the
   instrumented library is recorded and may be a scheduling point of two real threads that take turns. */
#define _GNU_SOURCE
#include <stdint.h>
#include <stdarg.h>
#include <string.h>
#include <stdlib.h>
#include <unistd.h>
#include <pthread.h>
#include <semaphore.h>
#include <time.h>
#include <fcntl.h>
#include <glob.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include "c34.h"
static __thread volatile int me = -1, quiet, nopoint; /* nopoint: the C library may hold a lock */
static sem_t sem[2]; static volatile int alive[2];
#define STK (1 << 20)
#define ARN (8 << 20)
static char *stk[2], *arena[2]; static size_t used[2];
/* ---- allocator: each thread has its own memory, nothing is reused ---- */
void *__libc_malloc(size_t); void *__libc_calloc(size_t, size_t); void *__libc_realloc(void*, size_t); void __libc_free(void*);
static int inarena(void *p) { for(int t = 0; t < 2; t++) if(arena[t] && (char*)p >= arena[t] && (char*)p < arena[t] + ARN) return 1; return 0; }
static void *ar(size_t n) { size_t k = (n + 31) / 16 * 16; if(n > ARN || used[me] + k > ARN) return 0; char *p = arena[me] + used[me]; *(size_t*)p = n; used[me] += k; return p + 16; }
void *malloc(size_t n) { if(me < 0) return __libc_malloc(n); return ar(n); }
void *calloc(size_t n, size_t m) { if(me < 0) return __libc_calloc(n, m); size_t t; if(__builtin_mul_overflow(n, m, &t)) return 0; return ar(t); }
void free(void *p) { if(p && inarena(p)) { quiet++; memset(p, 0xFB, ((size_t*)p)[-2]); quiet--; return; } __libc_free(p); }
void *realloc(void *p, size_t n) { if(me < 0 && !(p && inarena(p))) return __libc_realloc(p, n); void *q = ar(n); if(!q) return 0; if(p) { size_t o = inarena(p) ? ((size_t*)p)[-2] : n; nopoint++; note(p, o < n ? o : n, 0); nopoint--; quiet++; memcpy(q, p, o < n ? o : n); quiet--; free(p); } return q; }
/* ---- recording ---- */
static cell *look(cell *t, int cap, unsigned long a, int add, int *n) { unsigned h = (a * 0x9e3779b97f4a7c15ull) >> 40; for(int i = 0; i < cap; i++) { cell *c = &t[(h + i) & (cap - 1)]; if(c->a == a) return c; if(!c->a) { if(!add) return 0; if(*n >= cap / 2) { S->overflow = 1; return 0; } c->a = a; ++*n; return c; } } return 0; }
static int private_(unsigned long a) { return (a >= (unsigned long)stk[me] && a < (unsigned long)stk[me] + STK) || (a >= (unsigned long)arena[me] && a < (unsigned long)arena[me] + ARN); }
static void point(void) {
	int k = S->points++, other = !me, sw = 0; if(!alive[other]) return; S->lastalive = k;
	if(S->alternate) sw = k % S->alternate == 0; else for(int i = 0; i < S->np; i++) if(S->plan[i] == k) sw = 1;
	if(sw) { S->switches++; sem_post(&sem[other]); while(sem_wait(&sem[me])) ; }
}
void note(const void *p, size_t n, int write) {
	if(me < 0 || quiet || !n) return; quiet++; unsigned long a = (unsigned long)p, e = a + n; S->accesses++; int pt = S->alternate != 0;
	for(unsigned long g = a & ~7ul; g < e; g += 8) {
		unsigned m = 0xff; if(g < a) m &= 0xff << (a - g); if(g + 8 > e) m &= 0xff >> (g + 8 - e);
		if(S->nconf) { cell *c = look(S->conf, 4096, g, 0, 0); if(c && (c->r & m)) pt = 1; }
		if(private_(g)) { if(e - a > 4096 && !S->nconf) break; continue; }
		cell *c = look(S->foot[me], HB, g, 1, &S->nfoot[me]); if(c) { if(write) c->w |= m; else c->r |= m; }
	}
	if(pt && !nopoint) point();
	quiet--;
}
/* ---- instrumentation ---- */
#define RW(N) void __tsan_read##N(void *p) { note(p, N, 0); } void __tsan_write##N(void *p) { note(p, N, 1); } void __tsan_unaligned_read##N(void *p) { note(p, N, 0); } void __tsan_unaligned_write##N(void *p) { note(p, N, 1); } void __tsan_volatile_read##N(void *p) { note(p, N, 0); } void __tsan_volatile_write##N(void *p) { note(p, N, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_init(void) {} void __tsan_func_entry(void *p) {} void __tsan_func_exit(void) {} void __tsan_vptr_update(void **a, void *b) { note(a, 8, 1); } void __tsan_vptr_read(void **a) { note(a, 8, 0); }
void __tsan_read_range(void *p, unsigned long n) { note(p, n, 0); } void __tsan_write_range(void *p, unsigned long n) { note(p, n, 1); }
#define AT(N, T) \
	T __tsan_atomic##N##_load(const volatile T *p, int m) { note((void*)p, N / 8, 0); return *p; } void __tsan_atomic##N##_store(volatile T *p, T v, int m) { note((void*)p, N / 8, 1); *p = v; } \
	T __tsan_atomic##N##_exchange(volatile T *p, T v, int m) { note((void*)p, N / 8, 1); T o = *p; *p = v; return o; } T __tsan_atomic##N##_fetch_add(volatile T *p, T v, int m) { note((void*)p, N / 8, 1); T o = *p; *p = o + v; return o; } T __tsan_atomic##N##_fetch_sub(volatile T *p, T v, int m) { note((void*)p, N / 8, 1); T o = *p; *p = o - v; return o; } \
	T __tsan_atomic##N##_fetch_or(volatile T *p, T v, int m) { note((void*)p, N / 8, 1); T o = *p; *p = o | v; return o; } T __tsan_atomic##N##_fetch_and(volatile T *p, T v, int m) { note((void*)p, N / 8, 1); T o = *p; *p = o & v; return o; } T __tsan_atomic##N##_fetch_xor(volatile T *p, T v, int m) { note((void*)p, N / 8, 1); T o = *p; *p = o ^ v; return o; } \
	int __tsan_atomic##N##_compare_exchange_strong(volatile T *p, T *c, T v, int m, int f) { note((void*)p, N / 8, 1); if(*p == *c) { *p = v; return 1; } *c = *p; return 0; } int __tsan_atomic##N##_compare_exchange_weak(volatile T *p, T *c, T v, int m, int f) { return __tsan_atomic##N##_compare_exchange_strong(p, c, v, m, f); }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int m) {} void __tsan_atomic_signal_fence(int m) {}
/* ---- C library functions that touch memory of the caller (link-time wraps) ---- */
#define R(p, n) note(p, n, 0)
#define W(p, n) note(p, n, 1)
#define REAL(ret, name, args) ret __real_##name args; ret __wrap_##name args
REAL(void*, memcpy, (void *d, const void *s, size_t n)) { if(me < 0 || quiet) return __real_memcpy(d, s, n); R(s, n); W(d, n); return __real_memcpy(d, s, n); }
REAL(void*, memmove, (void *d, const void *s, size_t n)) { R(s, n); W(d, n); return __real_memmove(d, s, n); }
REAL(void*, mempcpy, (void *d, const void *s, size_t n)) { R(s, n); W(d, n); return __real_mempcpy(d, s, n); }
REAL(void*, memset, (void *d, int c, size_t n)) { if(me < 0 || quiet) return __real_memset(d, c, n); W(d, n); return __real_memset(d, c, n); }
REAL(int, memcmp, (const void *a, const void *b, size_t n)) { R(a, n); R(b, n); return __real_memcmp(a, b, n); }
REAL(void*, memchr, (const void *a, int c, size_t n)) { R(a, n); return __real_memchr(a, c, n); }
REAL(void*, memrchr, (const void *a, int c, size_t n)) { R(a, n); return __real_memrchr(a, c, n); }
REAL(size_t, strlen, (const char *s)) { size_t n = __real_strlen(s); if(me >= 0) { R(s, n + 1); n = __real_strlen(s); } return n; }
REAL(size_t, strnlen, (const char *s, size_t m)) { R(s, __real_strnlen(s, m)); return __real_strnlen(s, m); }
#define SL(s) (__real_strlen(s) + 1)
REAL(char*, strcpy, (char *d, const char *s)) { size_t n = SL(s); R(s, n); W(d, n); return __real_strcpy(d, s); }
REAL(char*, stpcpy, (char *d, const char *s)) { size_t n = SL(s); R(s, n); W(d, n); return __real_stpcpy(d, s); }
REAL(char*, strncpy, (char *d, const char *s, size_t n)) { R(s, __real_strnlen(s, n)); W(d, n); return __real_strncpy(d, s, n); }
REAL(char*, strcat, (char *d, const char *s)) { R(s, SL(s)); W(d + SL(d) - 1, SL(s)); return __real_strcat(d, s); }
REAL(char*, strncat, (char *d, const char *s, size_t n)) { R(s, __real_strnlen(s, n)); W(d + SL(d) - 1, __real_strnlen(s, n) + 1); return __real_strncat(d, s, n); }
REAL(int, strcmp, (const char *a, const char *b)) { R(a, SL(a)); R(b, SL(b)); return __real_strcmp(a, b); }
REAL(int, strncmp, (const char *a, const char *b, size_t n)) { R(a, __real_strnlen(a, n)); R(b, __real_strnlen(b, n)); return __real_strncmp(a, b, n); }
REAL(int, strcasecmp, (const char *a, const char *b)) { R(a, SL(a)); R(b, SL(b)); return __real_strcasecmp(a, b); }
REAL(int, strncasecmp, (const char *a, const char *b, size_t n)) { R(a, __real_strnlen(a, n)); R(b, __real_strnlen(b, n)); return __real_strncasecmp(a, b, n); }
REAL(char*, strchr, (const char *a, int c)) { R(a, SL(a)); return __real_strchr(a, c); }
REAL(char*, strrchr, (const char *a, int c)) { R(a, SL(a)); return __real_strrchr(a, c); }
REAL(char*, strstr, (const char *a, const char *b)) { R(a, SL(a)); R(b, SL(b)); return __real_strstr(a, b); }
static char pseudo_strtok[8] __attribute__((aligned(8))), pseudo_umask[8] __attribute__((aligned(8))), pseudo_cwd[8] __attribute__((aligned(8)));
REAL(char*, strtok, (char *s, const char *d)) { W(pseudo_strtok, 8); if(s) W(s, SL(s)); return __real_strtok(s, d); }
REAL(struct tm*, localtime, (const time_t *t)) { R(t, 8); struct tm *r; quiet++; r = __real_localtime(t); quiet--; W(r, sizeof *r); return __real_localtime(t); }
REAL(struct tm*, gmtime, (const time_t *t)) { R(t, 8); struct tm *r; quiet++; r = __real_gmtime(t); quiet--; W(r, sizeof *r); return __real_gmtime(t); }
REAL(struct tm*, localtime_r, (const time_t *t, struct tm *o)) { R(t, 8); W(o, sizeof *o); return __real_localtime_r(t, o); }
REAL(size_t, strftime, (char *d, size_t n, const char *f, const struct tm *t)) { R(t, sizeof *t); W(d, n); return __real_strftime(d, n, f, t); }
REAL(char*, asctime, (const struct tm *t)) { R(t, sizeof *t); char *r = __real_asctime(t); W(r, SL(r)); return __real_asctime(t); }
REAL(char*, ctime, (const time_t *t)) { R(t, 8); char *r = __real_ctime(t); W(r, SL(r)); return __real_ctime(t); }
REAL(int, vsnprintf, (char *d, size_t n, const char *f, va_list ap)) { va_list q; va_copy(q, ap); int k = __real_vsnprintf(0, 0, f, q); va_end(q); if(n) W(d, (size_t)k + 1 < n ? (size_t)k + 1 : n); return __real_vsnprintf(d, n, f, ap); }
int __wrap_snprintf(char *d, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int r = __wrap_vsnprintf(d, n, f, ap); va_end(ap); return r; }
int __wrap_vsprintf(char *d, const char *f, va_list ap) { return __wrap_vsnprintf(d, 1 << 30, f, ap); }
int __wrap_sprintf(char *d, const char *f, ...) { va_list ap; va_start(ap, f); int r = __wrap_vsnprintf(d, 1 << 30, f, ap); va_end(ap); return r; }
REAL(void, qsort, (void *b, size_t n, size_t k, int (*c)(const void*, const void*))) { R(b, n * k); W(b, n * k); __real_qsort(b, n, k, c); R(b, n * k); W(b, n * k); }
REAL(void*, bsearch, (const void *x, const void *b, size_t n, size_t k, int (*c)(const void*, const void*))) { R(b, n * k); return __real_bsearch(x, b, n, k, c); }
REAL(ssize_t, read, (int f, void *b, size_t n)) { W(b, n); return __real_read(f, b, n); }
REAL(ssize_t, write, (int f, const void *b, size_t n)) { R(b, n); return __real_write(f, b, n); }
REAL(ssize_t, pread, (int f, void *b, size_t n, off_t o)) { W(b, n); return __real_pread(f, b, n, o); }
REAL(int, stat, (const char *p, struct stat *s)) { R(p, SL(p)); R(pseudo_cwd, 8); W(s, sizeof *s); return __real_stat(p, s); }
REAL(int, fstat, (int f, struct stat *s)) { W(s, sizeof *s); return __real_fstat(f, s); }
/* each thread (or nested call) has a clock of its own, so that texts made from the time differ between them */
static __thread int vid, ticks;
static int virtual_(void) { return S && (me >= 0 || S->nest_outer >= 0); }
static struct timespec vnow(void) { struct timespec r; long k = ticks++; r.tv_sec = 1700000000 + vid * 40000007 + k / 1000; r.tv_nsec = k % 1000 * 1000000; return r; }
REAL(int, gettimeofday, (struct timeval *t, void *z)) { if(!virtual_()) return __real_gettimeofday(t, z); W(t, sizeof *t); struct timespec n = vnow(); t->tv_sec = n.tv_sec; t->tv_usec = n.tv_nsec / 1000; return 0; }
REAL(time_t, time, (time_t *t)) { if(!virtual_()) return __real_time(t); time_t n = vnow().tv_sec; if(t) { W(t, sizeof *t); *t = n; } return n; }
REAL(int, clock_gettime, (clockid_t c, struct timespec *t)) { if(!virtual_()) return __real_clock_gettime(c, t); W(t, sizeof *t); *t = vnow(); return 0; }
REAL(int, glob, (const char *p, int f, int (*e)(const char*, int), glob_t *g)) { R(p, SL(p)); W(g, sizeof *g); R(pseudo_cwd, 8); return __real_glob(p, f, e, g); }
int __real_open(const char*, int, ...); int __wrap_open(const char *p, int f, ...) { va_list ap; va_start(ap, f); int m = f & (O_CREAT | O_TMPFILE) ? va_arg(ap, int) : 0; va_end(ap); R(p, SL(p)); if(p[0] != '/') R(pseudo_cwd, 8); if(f & O_CREAT) R(pseudo_umask, 8); return __real_open(p, f, m); }
REAL(int, creat, (const char *p, mode_t m)) { R(p, SL(p)); R(pseudo_umask, 8); return __real_creat(p, m); }
REAL(int, mkdir, (const char *p, mode_t m)) { R(p, SL(p)); R(pseudo_umask, 8); R(pseudo_cwd, 8); return __real_mkdir(p, m); }
REAL(mode_t, umask, (mode_t m)) { W(pseudo_umask, 8); return __real_umask(m); }
REAL(int, chdir, (const char *p)) { R(p, SL(p)); W(pseudo_cwd, 8); return __real_chdir(p); }
REAL(int, fchdir, (int f)) { W(pseudo_cwd, 8); return __real_fchdir(f); }
/* ---- two threads ---- */
static void *body(void *a) {
	int t = (long)a; vid = t; me = t; while(sem_wait(&sem[t])) ;
	c34_ops[S->op[t]].fn(t, &S->out[t]);
	S->done[t] = 1; alive[t] = 0; me = -1; sem_post(&sem[!t]); return 0;
}
int vp_tsan_prepare(void) { for(int t = 0; t < 2; t++) { stk[t] = mmap(0, STK, 3, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); arena[t] = mmap(0, ARN, 3, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if(stk[t] == MAP_FAILED || arena[t] == MAP_FAILED) return -1; } return 0; }
void sched_run(void) {
	pthread_t th[2]; for(int t = 0; t < 2; t++) { sem_init(&sem[t], 0, 0); used[t] = 0; alive[t] = S->op[t] >= 0; }
	for(int t = 0; t < 2; t++) if(alive[t]) { pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at, stk[t], STK); if(pthread_create(&th[t], &at, body, (void*)(long)t)) _exit(78); }
	int two = alive[0] && alive[1]; sem_post(&sem[two ? S->first : !alive[0]]);
	for(int t = 0; t < 2; t++) if(S->op[t] >= 0) pthread_join(th[t], 0);
}
static int nestdepth;
void c34_callback(void) { if(S->nest_outer < 0 || nestdepth) return; int k = S->nest_calls++; if(k == S->nest_at && S->nest_inner >= 0) { nestdepth = 1; S->nested++; int keep = ticks; ticks = 0; vid = 1; c34_ops[S->nest_inner].fn(1, &S->out[1]); vid = 0; ticks = keep; S->done[1] = 1; nestdepth = 0; } }
