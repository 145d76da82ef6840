#include "engine.h"
#include "strs.h"
#include <fcntl.h>
#include <sys/stat.h>
#include <time.h>
#include "stringptrlist.h"
#include "filelib.h"
const char vp_property[] = "C15";
/* environment answers */
static int io_on, tfd = -1; static int shrank, grew, errs, zeros; static char path[64]; static off_t curlen;
static const char *modname;
ssize_t __real_read(int, void*, size_t); ssize_t __real_write(int, const void*, size_t); int __real_open(const char*, int, ...); int __real_stat(const char*, struct stat*);
static size_t shorten(int f, size_t n) { return f == 1 ? 1 : f == 2 ? n - 1 : n / 2; }
ssize_t __wrap_read(int fd, void *b, size_t n) {
	if(io_on && fd > 2) { int f = vp_fault(7);
		if(f == 4 || f == 5) { errs++; errno = f == 4 ? EIO : EINTR; vp_trace("    (read fails: %s)", strerror(errno)); return -1; }
		if(f == 6) { shrank++; off_t p = lseek(fd, 0, SEEK_CUR); off_t to = p ? p : curlen / 2; if(to > curlen) to = curlen; if(truncate(path, to)) vp_fail("truncate"); curlen = to; vp_trace("    (file shrinks to %ld)", (long)to); }
		if(f == 7) { grew++; int a = __real_open(path, O_WRONLY | O_APPEND); if(a < 0 || __real_write(a, "grown\nmore", 10) != 10) vp_fail("append"); close(a); vp_trace("    (file grows)"); }
		if(f >= 1 && f <= 3 && n > 1) { n = shorten(f, n); if(!n) n = 1; vp_trace("    (short read: %zu)", n); } }
	return __real_read(fd, b, n);
}
ssize_t __wrap_write(int fd, const void *b, size_t n) {
	if(io_on && fd > 2) { int f = vp_fault(6);
		if(f == 4 || f == 5) { errs++; errno = f == 4 ? ENOSPC : EINTR; vp_trace("    (write fails: %s)", strerror(errno)); return -1; }
		if(f == 6) { zeros++; vp_trace("    (write accepts nothing)"); return 0; }
		if(f && n > 1) { n = shorten(f, n); vp_trace("    (short write: %zu)", n); } }
	return __real_write(fd, b, n);
}
int __wrap_open(const char *p, int fl, ...) { va_list ap; va_start(ap, fl); int m = (fl & O_CREAT) ? va_arg(ap, int) : 0; va_end(ap);
	if(io_on && vp_fault(1)) { errs++; errno = EMFILE; vp_trace("    (open fails)"); return -1; }
	return __real_open(p, fl, m); }
int __wrap_stat(const char *p, struct stat *s) { if(io_on && vp_fault(1)) { errs++; errno = EIO; vp_trace("    (stat fails)"); return -1; } return __real_stat(p, s); }
static int fdcount(void) { int n = 0; for(int i = 0; i < 64; i++) if(fcntl(i, F_GETFD) != -1) n++; return n; }
static void newpath(void) { snprintf(path, sizeof path, "f%d", (int)getpid()); }
static char *slurp(size_t *n) { static char b[400000]; int f = __real_open(path, O_RDONLY); if(f < 0) { *n = 0; return 0; } ssize_t r = __real_read(f, b, sizeof b); close(f); *n = r; return b; }
static void rst(int budget) { errs = shrank = grew = zeros = 0; vp_fault_budget(budget); newpath(); }
static char A[400000];
static void fill(size_t n, int seed) { for(size_t i = 0; i < n; i++) A[i] = seed == 0 ? (i * 131 + i / 251) : seed == 1 ? 0 : '\n'; }
#define ON(E) ({ io_on = 1; __typeof__(E) r_ = (E); io_on = 0; vp_trans(1); r_; })
static const long SZ[] = { 0, 1, 2, 5, 4095, 4097, 65535, 65536, 65537, 131072, 131073, 200000 };
/* string to file */
static long w_units(void) { return VP_N(SZ) * 3; }
static void w_run(long u) {
	size_t n = SZ[u / 3]; int pre = u % 3, fds = fdcount(); long live = vp_live(); rst(VP_T(2, 3)); fill(n, 0); unlink(path);
	if(pre) { int f = __real_open(path, O_WRONLY | O_CREAT | O_TRUNC, 0600); char z[300] = "old content"; size_t m = pre == 1 ? 7 : 300; if(__real_write(f, z, m) != (ssize_t)m) vp_fail("prefill"); if(pre == 2 && ftruncate(f, n + 1000)) vp_fail("prefill"); close(f); }
	size_t mk = vp_buf_mark(); stringptr s = { vp_copy(A, n), n }; vp_trace("write %zu bytes (file %s)", n, pre ? "exists" : "is new");
	size_t r = ON(stringptr_tofile(path, &s)), m; VP_CHECK(r <= n, "tofile of %zu bytes returned %zu", n, r);
	VP_CHECK(r == n || errs || zeros, "tofile of %zu bytes returned %zu though nothing failed (%d deviations)", n, r, vp_faults_used());
	char *b = slurp(&m);
	if(r == n && !(n == 0 && errs)) VP_CHECK(b && m == n && !memcmp(b, A, n), "tofile reported %zu bytes written, but the file has %zu bytes%s", r, m, m == n ? " that differ" : ""); 
	else if(r) VP_CHECK(b && m >= r && !memcmp(b, A, r), "tofile reported %zu bytes, file has %zu", r, m);
	VP_CHECK(fdcount() == fds, "tofile leaks a descriptor"); VP_LEAKCHECK(live, "tofile");
	vp_state(vp_mix(vp_mix(n, r), vp_mix(errs, m)));
	if(r == n && (n || !errs)) { /* and back */ vp_fault_budget(0); stringptr *q = ON(stringptr_fromfile(path)); if(n) VP_CHECK(q && q->size == n && !memcmp(q->ptr, A, n) && q->ptr[n] == 0, "reading back %zu bytes gives %s", n, q ? "something else" : "null"); else VP_CHECK(!q || q->size == 0, "reading back an empty file"); stringptr_free(q); VP_CHECK(getfilesize(path) == n || (n == 0 && errs), "getfilesize"); }
	VP_CHECK(fdcount() == fds, "fromfile leaks a descriptor"); VP_LEAKCHECK(live, "fromfile"); vp_buf_release(mk);
}
/* file to string */
static long r_units(void) { return VP_N(SZ) * 2; }
static void r_run(long u) {
	size_t n = SZ[u / 2]; int fds = fdcount(); long live = vp_live(); rst(VP_T(2, 3)); fill(n, u % 2 ? 2 : 0);
	int f = __real_open(path, O_WRONLY | O_CREAT | O_TRUNC, 0600); if(__real_write(f, A, n) != (ssize_t)n) vp_fail("prefill"); close(f); curlen = n;
	vp_trace("read a file of %zu bytes", n);
	stringptr *q = ON(stringptr_fromfile(path)); vp_trace("-> %s", q ? "string" : "null");
	if(!q) VP_CHECK(errs || shrank || n == 0, "fromfile of %zu bytes returned null though nothing failed", n);
	else { VP_CHECK(q->size <= n && !memcmp(q->ptr, A, shrank && grew && q->size > (size_t)curlen ? (size_t)curlen : q->size) && q->ptr[q->size] == 0, "fromfile returned wrong bytes"); VP_CHECK(q->size == n || (shrank && q->size >= (size_t)curlen), "fromfile of %zu bytes returned %zu as success (%d read errors)", n, q->size, errs); }
	vp_state(vp_mix(vp_mix(n, q ? q->size + 1 : 0), vp_mix(errs, vp_mix(shrank, grew)))); stringptr_free(q);
	VP_CHECK(fdcount() == fds, "fromfile leaks a descriptor"); VP_LEAKCHECK(live, "fromfile");
}
/* list to file and back */
static const char *IT[] = { "", "a", "bc", "\r", " " };
static long oldlen = -1; /* length of an existing file to be overwritten */
static void list_go(const char **it, const size_t *len, int k, int budget, int back) {
	int fds = fdcount(); long live = vp_live(); rst(back ? 0 : budget); unlink(path); size_t en = 0; if(oldlen >= 0) { int f = __real_open(path, O_WRONLY | O_CREAT | O_TRUNC, 0640); memset(A, 'O', oldlen); if(__real_write(f, A, oldlen) != oldlen) vp_fail("prefill"); close(f); } size_t mk = vp_buf_mark(); stringptrlist *l = stringptrlist_new(2);
	for(int i = 0; i < k; i++) { stringptrlist_add(l, vp_copy(it[i], len[i]), len[i]); memcpy(A + en, it[i], len[i]); en += len[i]; A[en++] = '\n'; }
	vp_trace("list of %d entries: %s", k, vp_show(A, en > 60 ? 60 : en));
	int r = ON(stringptrlist_tofile(l, path, 0640)); size_t m; char *b; VP_CHECK(r == 0 || r == 1, "tofile returned %d", r); VP_CHECK(r || vp_faults_used(), "list tofile failed though nothing went wrong");
	b = slurp(&m); if(r) VP_CHECK(b && m == en && !memcmp(b, A, en), "list tofile reported success, but the file has %s, must be %s", vp_show(b, m > 60 ? 60 : m), vp_show(A, en > 60 ? 60 : en));
	struct stat st; if(r) { VP_CHECK(!__real_stat(path, &st) && (st.st_mode & 0777) == 0640, "file mode is not the requested one"); }
	VP_CHECK(fdcount() == fds, "list tofile leaks a descriptor");
	vp_state(vp_mix(vp_hash(A, en, r), m));
	if(r) { rst(back ? budget : 0); curlen = en; stringptrlist *q = stringptrlist_new(2); int toolong = 0; for(int i = 0; i < k; i++) if(len[i] >= 1024) toolong = 1;
		int g = ON(stringptrlist_fromfile(q, path)); VP_CHECK(g == 0 || g == 1, "fromfile returned %d", g); VP_CHECK(g || errs || toolong, "list fromfile failed though nothing went wrong");
		size_t N = stringptrlist_getsize(q);
		if(g && !shrank && !grew) VP_CHECK(N == (size_t)k, "list fromfile gives %zu entries, must be %d: %s", N, k, vp_show(A, en > 60 ? 60 : en));
		if(!shrank && !grew) VP_CHECK(N <= (size_t)k, "list fromfile gives %zu entries of %d", N, k);
		for(size_t i = 0; i < N && i < (size_t)k && !shrank && !grew; i++) { stringptr *s = stringptrlist_get(q, i); VP_CHECK(s->size == len[i] && !memcmp(s->ptr, it[i], len[i]) && s->ptr[len[i]] == 0, "list fromfile: entry %zu is %s, must be %s", i, vp_show(s->ptr, s->size > 60 ? 60 : s->size), vp_show(it[i], len[i] > 60 ? 60 : len[i])); }
		vp_trace("read back -> %d, %zu entries", g, N); vp_state(vp_mix(vp_hash(A, en, g), vp_mix(N, errs)));
		stringptrlist_freeall(q); VP_CHECK(fdcount() == fds, "list fromfile leaks a descriptor"); }
	stringptrlist_free(l); VP_LEAKCHECK(live, "list files"); vp_buf_release(mk);
}
static long l_units(void) { long n = 0, p = 1; for(int i = 0; i <= VP_T(3, 4); i++) { n += p; p *= 5; } return 2 * n; }
static void l_run(long u) { int back = u & 1; u >>= 1; int k = 0; long p = 1; while(u >= p) { u -= p; p *= 5; k++; } const char *it[5]; size_t len[5]; for(int i = 0; i < k; i++) { it[i] = IT[u % 5]; len[i] = strlen(it[i]); u /= 5; } list_go(it, len, k, k > 3 ? 1 : VP_T(2, 2), back); }
static const size_t BL[] = { 0, 1, 511, 1022, 1023, 1024, 1500 };
static long m_units(void) { return 2 * (7 + 49 + 343); }
static void m_run(long u) { int back = u & 1; u >>= 1; int k = 1; if(u >= 7) { u -= 7; k = 2; if(u >= 49) { u -= 49; k = 3; } } static char buf[3][2000]; const char *it[3]; size_t len[3]; for(int i = 0; i < k; i++) { len[i] = BL[u % 7]; u /= 7; memset(buf[i], 'a' + i, len[i]); it[i] = buf[i]; } list_go(it, len, k, 1, back); }
static long g_units(void) { return 150; }
static void g_run(long u) { static const char *it[200]; static size_t len[200]; for(int i = 0; i < u; i++) { it[i] = IT[(i * 7 + i / 3) % 5]; len[i] = strlen(it[i]); } list_go(it, len, u, 1, u & 1); }
static long t_units(void) { return 4; }
static void t_run(long u) { static const long T[] = { 0, 1, 1234567890, 4102444800 }; rst(0); int f = __real_open(path, O_WRONLY | O_CREAT | O_TRUNC, 0600); if(ftruncate(f, u == 3 ? 5000000000 : u * 3)) vp_fail("ftruncate"); struct timespec ts[2] = { { T[u], 0 }, { T[u], 999999999 } }; futimens(f, ts); close(f); VP_CHECK(getFileModTime(path) == T[u], "getFileModTime: %ld, must be %ld", (long)getFileModTime(path), T[u]); VP_CHECK(getfilesize(path) == (u == 3 ? 5000000000 : (size_t)u * 3), "getfilesize %zu", getfilesize(path)); unlink(path); VP_CHECK(getfilesize(path) == 0 && getFileModTime(path) == 0 && !stringptr_fromfile(path), "missing file"); stringptrlist *l = stringptrlist_new(1); VP_CHECK(stringptrlist_fromfile(l, path) == 0 && stringptrlist_getsize(l) == 0, "missing file"); VP_CHECK(stringptrlist_tofile(l, "nodir/x", 0600) == 0, "unwritable file"); stringptr s = { "abc", 3 }; VP_CHECK(stringptr_tofile("nodir/x", &s) == 0 && stringptr_tofile(0, &s) == 0 && stringptr_tofile(path, 0) == 0, "unwritable file"); stringptrlist_free(l); vp_trace("size and time of file %ld", u); vp_trans(9); vp_states_add(1); }
/* over an existing file of every relation of sizes */
static long x_units(void) { return 156 * 6; }
static void x_run(long u) { static const long OL[] = { 0, 1, 3, 9, 1000, 70000 }; oldlen = OL[u % 6]; u /= 6; int k = 0; long p = 1; while(u >= p) { u -= p; p *= 5; k++; } const char *it[5]; size_t len[5]; for(int i = 0; i < k; i++) { it[i] = IT[u % 5]; len[i] = strlen(it[i]); u /= 5; } list_go(it, len, k, 1, 0); oldlen = -1; }
/* every byte value: in entries, and as file content */
static long y_units(void) { return 256; }
static void y_run(long u) { char c = u; static char b[4][4]; const char *it[4]; size_t len[4]; if(c && c != '\n') { for(int i = 0; i < 4; i++) { memset(b[i], 'a', 4); it[i] = b[i]; } b[0][0] = c; len[0] = 1; b[1][0] = c; len[1] = 2; b[2][1] = c; len[2] = 2; b[3][0] = b[3][1] = c; len[3] = 2; list_go(it, len, 4, 0, 0); list_go(it + 3, len + 3, 1, 0, 0); list_go(it, len, 1, 0, 0); for(int d = 1; d < 256; d++) if(d != '\n') { b[0][0] = c; b[0][1] = d; b[1][0] = d; len[0] = 2; len[1] = 1; list_go(it, len, 2, 0, 0); } }
	for(int n = 1; n < 4; n++) for(int at = 0; at < n; at++) { rst(0); char t[4] = "xyz"; t[at] = c; unlink(path); size_t mk = vp_buf_mark(), m; stringptr s = { vp_copy(t, n), n }; size_t r = ON(stringptr_tofile(path, &s)); char *g = slurp(&m); VP_CHECK(r == (size_t)n && m == (size_t)n && !memcmp(g, t, n), "writing %s gives %s", vp_show(t, n), vp_show(g, m)); stringptr *q = ON(stringptr_fromfile(path)); VP_CHECK(q && q->size == (size_t)n && !memcmp(q->ptr, t, n), "reading back %s gives %s", vp_show(t, n), q ? vp_show(q->ptr, q->size) : "null"); stringptr_free(q); vp_buf_release(mk); vp_states_add(1); } }
/* the caller has closed some of its standard descriptors: the file may get any of them */
static long z_units(void) { return 7 * 4; }
static void z_run(long u) { int set = u % 7 + 1, keep[3]; for(int i = 0; i < 3; i++) { keep[i] = -1; if(set >> i & 1) { keep[i] = fcntl(i, F_DUPFD_CLOEXEC, 40); close(i); } } const char *it[3] = { "a", "", "bc" }; size_t len[3] = { 1, 0, 2 }; list_go(it, len, u / 7, 0, 0);
	rst(0); unlink(path); int fds = fdcount(); stringptr s = { "abc", 3 }; size_t m; VP_CHECK(ON(stringptr_tofile(path, &s)) == 3, "tofile"); char *b = slurp(&m); VP_CHECK(m == 3 && !memcmp(b, "abc", 3), "tofile wrote %s", vp_show(b, m)); stringptr *q = ON(stringptr_fromfile(path)); VP_CHECK(q && q->size == 3 && !memcmp(q->ptr, "abc", 3), "fromfile"); stringptr_free(q); VP_CHECK(fdcount() == fds, "descriptor leaked");
	for(int i = 0; i < 3; i++) if(keep[i] >= 0) { dup2(keep[i], i); close(keep[i]); } vp_trace("descriptors closed: set %d", set); vp_states_add(1); }
/* entries around every size at which 8, 16 and 17 bit arithmetic differs */
static const size_t EL[] = { 254, 255, 256, 257, 4095, 4096, 4097, 8192, 32767, 32768, 65535, 65536, 65537, 70000, 131072, 131073 };
static long e_units(void) { return VP_N(EL) * 3; }
static void e_run(long u) { static char big[131100]; size_t L = EL[u / 3]; memset(big, 'e', L); const char *it[2] = { big, "tail" }; size_t len[2] = { L, 4 }; if(u % 3 == 1) { it[0] = "head"; len[0] = 4; it[1] = big; len[1] = L; } list_go(it, len, u % 3 == 2 ? 1 : 2, VP_T(1, 2), 0); }
const vp_scenario vp_scenarios[] = {
	{ "write", w_units, w_run, "12 sizes to 200000 bytes x new/shorter/longer existing file x every placement of up to 2 (3) deviations (open fails; write short 3 ways, zero, ENOSPC, EINTR)" },
	{ "read", r_units, r_run, "12 sizes x every placement of up to 2 (3) deviations (stat/open fail; read short 3 ways, EIO, EINTR; file shrinks or grows before the read)" },
	{ "lists", l_units, l_run, "all lists of up to 3 (4) entries from {empty,a,bc,CR,blank} written and read back x up to 2 deviations in either direction" },
	{ "long-lines", m_units, m_run, "all lists of up to 3 entries of lengths 0,1,511,1022,1023,1024,1500 x 1 deviation" },
	{ "overwrite", x_units, x_run, "all lists of up to 3 entries written over an existing file of 0, 1, 3, 9, 1000 or 70000 bytes x 1 deviation" },
	{ "long-entries", e_units, e_run, "lists with an entry of 254..131073 bytes written under every placement of 1 (2) deviations" },
	{ "growth", g_units, g_run, "lists of 0..149 entries x 1 deviation" },
	{ "stat", t_units, t_run, "sizes and times, missing files" },
	{ "bytevalues", y_units, y_run, "every byte value at every place of short entries and files, every pair of byte values as an entry" },
	{ "stdfds", z_units, z_run, "lists and strings written and read back while any of the descriptors 0..2 are closed" },
	{ 0 }
};
