/* C29: guard_alloc: accessibility byte by byte, what stays mapped (from /proc/self/maps), failures of the mapping calls. */
#include "engine.h"
#include <setjmp.h>
#include <signal.h>
#include <fcntl.h>
#include <errno.h>
#include <sys/mman.h>
#ifndef PAGE_SIZE
#define PAGE_SIZE 4096
#endif
#include "guard_alloc.c"
const char vp_property[] = "C29";
static int inj, inj_hits, nospace;
void *__real_mmap(void*, size_t, int, int, int, off_t); int __real_mprotect(void*, size_t, int);
void *__wrap_mmap(void *a, size_t n, int p, int f, int fd, off_t o) { if(inj && vp_fault(1)) { inj_hits++; vp_trace("    mmap fails"); errno = ENOMEM; return MAP_FAILED; } if(n > (1ul << 30)) { f |= MAP_NORESERVE; void *r = __real_mmap(a, n, p, f, fd, o); if(r == MAP_FAILED) nospace = 1; return r; } return __real_mmap(a, n, p, f, fd, o); }
int __wrap_mprotect(void *a, size_t n, int p) { if(inj && vp_fault(1)) { inj_hits++; vp_trace("    mprotect fails"); errno = ENOMEM; return -1; } return __real_mprotect(a, n, p); }
static sigjmp_buf jb; static void onsig(int s) { siglongjmp(jb, 1); }
static void sigs(void) { struct sigaction a; memset(&a, 0, sizeof a); a.sa_handler = onsig; a.sa_flags = SA_NODEFER; sigaction(SIGSEGV, &a, 0); sigaction(SIGBUS, &a, 0); }
static int traps_r(volatile char *p) { if(sigsetjmp(jb, 0)) return 1; (void)*p; return 0; }
static int traps_w(volatile char *p) { if(sigsetjmp(jb, 0)) return 1; *p = 7; return 0; }
static int rw(volatile char *p, size_t n, int v) { if(sigsetjmp(jb, 0)) return 0; for(size_t i = 0; i < n; i++) p[i] = (char)(v + i * 7); for(size_t i = 0; i < n; i++) if(p[i] != (char)(v + i * 7)) return 0; return 1; }
static int same(volatile char *p, size_t n, int v) { if(sigsetjmp(jb, 0)) return 0; for(size_t i = 0; i < n; i++) if(p[i] != (char)(v + i * 7)) return 0; return 1; }
/* mapped ranges with their permissions, neighbours joined */
typedef struct { unsigned long a, b; char p[5]; } rng; typedef struct { int n; rng r[400]; } snap;
static snap s0, s1;
static void take(snap *s) {
	static char b[65536]; int fd = open("/proc/self/maps", O_RDONLY); ssize_t n = 0, k; if(fd < 0) { perror("/proc/self/maps"); _exit(78); } while((k = read(fd, b + n, sizeof b - 1 - n)) > 0) n += k; close(fd); b[n] = 0; s->n = 0;
	for(char *l = b; *l; l = strchr(l, '\n') + 1) { rng r = { 0 }; char *e; r.a = strtoul(l, &e, 16); r.b = strtoul(e + 1, &e, 16); memcpy(r.p, e + 1, 4); char *nl = strchr(l, '\n'); if(memmem(l, nl - l, "[stack]", 7)) continue; if(s->n && s->r[s->n-1].b == r.a && !strcmp(s->r[s->n-1].p, r.p)) s->r[s->n-1].b = r.b; else { if(s->n == 400) _exit(78); s->r[s->n++] = r; } }
}
static int eq(void) { return s0.n == s1.n && !memcmp(s0.r, s1.r, s0.n * sizeof(rng)); }
static unsigned long total(snap *s) { unsigned long t = 0; for(int i = 0; i < s->n; i++) t += s->r[i].b - s->r[i].a; return t; }
#define UNMAPPED(...) do { take(&s1); if(!eq()) { char m_[200]; snprintf(m_, sizeof m_, __VA_ARGS__); vp_fail("%s: the mapped pages differ: %ld bytes more than before", m_, (long)(total(&s1) - total(&s0))); } vp_nchecks++; } while(0)
static void use(char *p, size_t n, int v) { VP_CHECK(p, "guard_alloc(%zu) failed", n); VP_CHECK(rw(p, n, v), "guard_alloc(%zu): not all of its bytes are usable", n); VP_CHECK(traps_r(p + n), "guard_alloc(%zu): reading the first byte past the end does not trap", n); VP_CHECK(traps_w(p + n), "guard_alloc(%zu): writing the first byte past the end does not trap", n); VP_CHECK(same(p, n, v), "guard_alloc(%zu): contents changed", n); vp_trans(3); }
#define PG ((size_t)PAGE_SIZE)
static long a_units(void) { return VP_T(3 * PG + 200, 8 * PG + 200) / 64 + 1; }
static void a_run(long u) {
	sigs(); take(&s0); take(&s0);
	for(size_t n = u * 64; n < (size_t)(u + 1) * 64; n++) { char *p = guard_alloc(n); use(p, n, n); if(n) VP_CHECK(traps_r(p + n + PG - 1) , "guard_alloc(%zu): the last byte of the guard page is readable", n); guard_free(p, n); vp_trans(1); vp_states_add(1); UNMAPPED("guard_alloc(%zu), guard_free", n); }
	vp_trace("sizes %ld..%ld", u * 64, u * 64 + 63);
}
static size_t big(int k) { static const size_t b[] = { 1 << 16, 1 << 20, (1 << 20) + 1, (1 << 20) - 1, 64 << 20, (64 << 20) + 4095 }; return b[k]; }
static long b_units(void) { return 6 + 40; }
static void b_run(long u) {
	sigs(); take(&s0); take(&s0);
	if(u < 6) { size_t n = big(u); char *p = guard_alloc(n); VP_CHECK(p, "guard_alloc(%zu) failed", n); use(p, n, 3); guard_free(p, n); UNMAPPED("guard_alloc(%zu)", n); vp_trace("size %zu", n); }
	else { size_t n = (size_t)-1 - (u - 6) * (u - 6) * 37; char *p = guard_alloc(n); vp_trace("size SIZE_MAX-%zu: %p", (size_t)-1 - n, p); VP_CHECK(!p, "guard_alloc(SIZE_MAX-%zu) = %p", (size_t)-1 - n, p); UNMAPPED("guard_alloc(SIZE_MAX-%zu)", (size_t)-1 - n); }
	vp_trans(1); vp_states_add(1);
}
static const size_t SZ[] = { 0, 1, PAGE_SIZE - 1, PAGE_SIZE, PAGE_SIZE + 1, 2 * PAGE_SIZE, 3 * PAGE_SIZE - 5 };
static int K(void) { return VP_T(3, 4); }
static long c_units(void) { return VP_N(SZ) * VP_N(SZ); }
static void c_run(long u) {
	sigs(); take(&s0); take(&s0); int k = K(), live[4]; char *p[4]; size_t z[4];
	for(int i = 0; i < k; i++) { z[i] = SZ[i == 0 ? u % VP_N(SZ) : i == 1 ? u / VP_N(SZ) : vp_choose(VP_N(SZ))]; p[i] = guard_alloc(z[i]); vp_trace("alloc %zu", z[i]); use(p[i], z[i], 10 * i); live[i] = 1; for(int j = 0; j < i; j++) VP_CHECK(same(p[j], z[j], 10 * j) && traps_r(p[j] + z[j]), "a later allocation disturbs allocation %d of %zu bytes", j, z[j]); }
	for(int i = k; i > 0; i--) { int w = vp_choose(i), x = 0; while(!live[x] || w--) x++; live[x] = 0; guard_free(p[x], z[x]); vp_trans(1); vp_trace("free allocation %d (%zu bytes)", x, z[x]); for(int j = 0; j < k; j++) if(live[j]) { VP_CHECK(same(p[j], z[j], 10 * j), "freeing allocation %d (%zu bytes) damages allocation %d (%zu bytes)", x, z[x], j, z[j]); VP_CHECK(traps_r(p[j] + z[j]) && traps_w(p[j] + z[j]), "freeing allocation %d (%zu bytes) removes the guard of allocation %d (%zu bytes)", x, z[x], j, z[j]); } vp_state(vp_mix(u, vp_hash(live, sizeof live, i))); }
	UNMAPPED("after freeing everything");
}
static long f_units(void) { return VP_N(SZ); }
static void f_run(long u) {
	sigs(); take(&s0); take(&s0); inj = 1; inj_hits = 0; vp_fault_budget(3); char *p = guard_alloc(SZ[u]); inj = 0; vp_trans(1); vp_trace("guard_alloc(%zu) = %p, %d calls failed", SZ[u], p, inj_hits);
	VP_CHECK(!!p == !inj_hits || p, "guard_alloc(%zu) failed though every call succeeded", SZ[u]); if(!inj_hits) VP_CHECK(p, "failed without reason");
	if(p) { use(p, SZ[u], 1); guard_free(p, SZ[u]); } UNMAPPED("guard_alloc(%zu) with %d failed calls returned %p", SZ[u], inj_hits, p); vp_state(vp_mix(u, inj_hits));
}
/* sizes around 2^31 .. 2^35: address space is enough, only the pages looked at are touched */
static long h_units(void) { return 5 * 9; }
static void h_run(long u) {
	static const long dl[] = { -4097, -4096, -4095, -1, 0, 1, 4095, 4096, 4097 }; size_t n = ((size_t)1 << (31 + u % 5)) + dl[u / 5]; sigs(); take(&s0); take(&s0); nospace = 0; vp_trace("size %zu", n); vp_trans(1); vp_states_add(1);
	char *p = guard_alloc(n); if(!p && nospace) { vp_trace("no such address space here"); UNMAPPED("guard_alloc(%zu) failing", n); return; } VP_CHECK(p, "guard_alloc(%zu) failed", n);
	for(size_t b = 0; b <= n; b = b ? b * 2 : 4096) { size_t at = b > n ? n : b, k = 64; if(at + k > n) at = n - k; VP_CHECK(rw(p + at, k, 9), "guard_alloc(%zu): the bytes at %zu are not usable", n, at); if(at >= 64) VP_CHECK(rw(p + at - 64, k, 9), "guard_alloc(%zu): the bytes before %zu are not usable", n, at); }
	VP_CHECK(rw(p + n - 9000, 9000, 5), "guard_alloc(%zu): the last bytes are not usable", n); VP_CHECK(traps_r(p + n) && traps_w(p + n) && traps_r(p + n + PG - 1), "guard_alloc(%zu): an access past the end does not trap", n); guard_free(p, n); UNMAPPED("guard_alloc(%zu)", n);
}
const vp_scenario vp_scenarios[] = {
	{ "sizes", a_units, a_run, "every size from 0 to over 3 (8) pages, every byte accessed, first byte past the end read and written, mapped pages compared" },
	{ "large", b_units, b_run, "sizes to 64 MiB, and sizes too large to exist" },
	{ "huge", h_units, h_run, "sizes around 2^31 .. 2^35, bytes at the powers of two and at both ends accessed, mapped pages compared" },
	{ "orders", c_units, c_run, "3 (4) live allocations over 7 sizes each, freed in every order" },
	{ "faults", f_units, f_run, "7 sizes x failure of every mapping and protection call" },
	{ 0 }
};
