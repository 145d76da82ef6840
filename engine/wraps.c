/* Link-time interposition of the allocation functions: each call made by the
   code under test while vp_oom_on is set is a fault point. */
#include "engine.h"
int vp_oom_on; unsigned long vp_oom_hits, vp_alloc_calls;
static int oom_sticky_exec;
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void*, size_t);
static int oomfail(void) {
	vp_alloc_calls++;
	if(!vp_oom_on) return 0;
	if(vp_oom_on == 2) { vp_oom_hits++; return 1; }       /* everything fails from now on */
	int r = vp_fault(2);
	if(!r) return 0;
	vp_trace("    allocation call %lu fails%s", vp_alloc_calls, r == 2 ? " (and all later ones)" : "");
	vp_oom_hits++;
	if(r == 2) vp_oom_on = 2;
	(void)oom_sticky_exec;
	return 1;
}
void *__wrap_malloc(size_t n) { if(oomfail()) { errno = ENOMEM; return 0; } return __real_malloc(n); }
void *__wrap_calloc(size_t n, size_t m) { if(oomfail()) { errno = ENOMEM; return 0; } return __real_calloc(n, m); }
void *__wrap_realloc(void *p, size_t n) { if(oomfail()) { errno = ENOMEM; return 0; } return __real_realloc(p, n); }
void *__wrap_reallocarray(void *p, size_t n, size_t m) {
	size_t t; if(__builtin_mul_overflow(n, m, &t)) { errno = ENOMEM; return 0; }
	return __wrap_realloc(p, t);
}
char *__wrap_strdup(const char *s) { size_t n = strlen(s) + 1; char *r = __wrap_malloc(n); if(r) memcpy(r, s, n); return r; }
char *__wrap___strdup(const char *s) { return __wrap_strdup(s); }
char *__wrap_strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *r = __wrap_malloc(n + 1); if(r) { memcpy(r, s, n); r[n] = 0; } return r; }
char *__wrap___strndup(const char *s, size_t m) { return __wrap_strndup(s, m); }
int __wrap_posix_memalign(void **o, size_t a, size_t n) { (void)a; void *p; if(oomfail()) return ENOMEM; p = aligned_alloc(a, (n + a - 1) / a * a); if(!p) return ENOMEM; *o = p; return 0; }
int __real_vasprintf(char **, const char *, va_list);
int __wrap_vasprintf(char **o, const char *f, va_list ap) { if(oomfail()) { errno = ENOMEM; return -1; } return __real_vasprintf(o, f, ap); }
int __wrap_asprintf(char **o, const char *f, ...) { va_list ap; va_start(ap, f); int r = __wrap_vasprintf(o, f, ap); va_end(ap); return r; }
