#include "engine.h"
#include "strs.h"
#include <fcntl.h>
#include <sys/stat.h>
#include "fileparser.h"
const char vp_property[] = "C14";
/* environment: reads of the parser's descriptor may be short (fault points); one virtual huge file */
static int io_on, errmode, errhit, seekfail, virt; static uint64_t vpos, vsize; static size_t vline;
ssize_t __real_read(int, void*, size_t); off_t __real_lseek(int, off_t, int);
static char vbyte(uint64_t o) { uint64_t ln = o / vline, c = o % vline; if(c == vline - 1) return '\n'; if(c < 8) return 'a' + ((ln >> (4 * c)) & 15); return 'x'; }
ssize_t __wrap_read(int fd, void *b, size_t n) {
	if(virt) { size_t m = vpos >= vsize ? 0 : vsize - vpos < n ? vsize - vpos : n; memset(b, 'x', m); for(uint64_t o = vpos; o < vpos + m;) { uint64_t c = o % vline; if(c < 8 || c == vline - 1) { ((char*)b)[o - vpos] = vbyte(o); o++; } else o += vline - 1 - c; } vpos += m; return m; }
	if(io_on && n > 1) { int f = errmode == 2 ? 0 : vp_fault(errmode ? 3 : 2); if(f == 3) { errhit = 1; errno = EIO; vp_trace("    (read fails: EIO)"); return -1; } if(f) { n = f == 1 ? 1 : n - 1; vp_trace("    (short read: at most %zu bytes)", n); } }
	return __real_read(fd, b, n);
}
off_t __wrap_lseek(int fd, off_t o, int w) { if(virt) { if(w == SEEK_SET) vpos = o; else if(w == SEEK_CUR) vpos += o; else vpos = vsize + o; return vpos; } if(io_on && errmode == 2 && w == SEEK_SET && vp_fault(1)) { errhit = 2; errno = ESPIPE; vp_trace("    (seek fails: ESPIPE)"); return -1; } return __real_lseek(fd, o, w); }
off_t __wrap_lseek64(int fd, off_t o, int w) { return __wrap_lseek(fd, o, w); }
ssize_t __real_pread(int, void*, size_t, off_t);
ssize_t __wrap_pread(int fd, void *b, size_t n, off_t o) { if(virt) { uint64_t keep = vpos; vpos = o; ssize_t r = __wrap_read(fd, b, n); vpos = keep; return r; }
	if(io_on && n > 1) { int f = errmode == 2 ? 0 : vp_fault(errmode ? 3 : 2); if(f == 3) { errhit = 1; errno = EIO; vp_trace("    (read fails: EIO)"); return -1; } if(f) { n = f == 1 ? 1 : n - 1; vp_trace("    (short read: at most %zu bytes)", n); } } return __real_pread(fd, b, n, o); }
ssize_t __wrap_pread64(int fd, void *b, size_t n, off_t o) { return __wrap_pread(fd, b, n, o); }
static char path[64]; static int wfd = -1;
static const char *F; static size_t FN, pos;
static void put(const char *a, size_t n) {
	if(wfd < 0) { snprintf(path, sizeof path, "f%d", (int)getpid()); wfd = open(path, O_RDWR | O_CREAT | O_TRUNC, 0600); if(wfd < 0) vp_fail("cannot create %s: %s", path, strerror(errno)); }
	if(ftruncate(wfd, 0) || pwrite(wfd, a, n, 0) != (ssize_t)n) vp_fail("cannot write scratch file"); F = a; FN = n; pos = 0;
}
static fileparser *P;
static void start(void) { P = vp_buf(sizeof *P); memset(P, 0x5a, sizeof *P); int r = fileparser_open(P, path); VP_CHECK(r == 0, "open returned %d", r); vp_trans(1); }
static size_t linelen(void) { size_t l = 0; while(pos + l < FN && F[pos + l] != '\n') l++; return l; }
static void rd(size_t B, int internal) { /* read a line with a buffer of B bytes */
	char *b = internal ? P->buf : vp_buf(B); if(internal) B = 1024; size_t L = linelen(); int e = pos >= FN ? -2 : L < B ? 0 : -3;
	if(!internal) memset(b, 0xA5, B);
	errhit = 0; io_on = 1; int r = internal ? fileparser_readline(P) : fileparser_readline_userbuf(P, b, B); io_on = 0; vp_trans(1);
	vp_trace("read (buffer %zu) at offset %zu -> %d", B, pos, r);
	if(errhit && r != e) { VP_CHECK(r > 0, "a %s failed, but reading with a %zu byte buffer at offset %zu returned %d", errhit == 2 ? "seek" : "read", B, pos, r); if(errhit == 2) seekfail = 1; vp_state(vp_mix(vp_mix(vp_hash(F, FN < 8192 ? FN : 8192, FN), pos), r)); return; }
	VP_CHECK(r == e, "reading with a %zu byte buffer at offset %zu of %zu (line length %zu): returned %d, must be %d", B, pos, FN, L, r, e);
	if(!r) { stringptr s; if(internal) { VP_CHECK(fileparser_getline(P, &s) == 0, "getline failed"); } else { s.ptr = b; s.size = P->len; }
		VP_CHECK(s.size == L && !memcmp(s.ptr, F + pos, L) && s.ptr[L] == 0, "line at offset %zu delivered as %zu bytes %s, must be %zu bytes %s", pos, s.size, vp_show(s.ptr, s.size > 60 ? 60 : s.size), L, vp_show(F + pos, L > 60 ? 60 : L));
		pos += L + 1; if(pos > FN) pos = FN; }
	vp_state(vp_mix(vp_mix(vp_hash(F, FN < 8192 ? FN : 8192, FN), pos), r));
}
static void nl(void) { ssize_t e = pos >= FN ? -1 : (ssize_t)linelen(); errhit = 0; io_on = 1; ssize_t r = fileparser_getnextlinelength(P); io_on = 0; vp_trans(1); vp_trace("next line length at offset %zu -> %zd", pos, r); if(errhit && r == -1) { if(errhit == 2) seekfail = 1; return; } VP_CHECK(r == e, "next line length at offset %zu of %zu: %zd, must be %zd", pos, FN, r, e); }
static void drain(void) { vp_fault_budget(0); while(pos < FN) { size_t L = linelen(); if(L < 1024) rd(0, 1); else { rd(0, 1); size_t m = vp_buf_mark(); rd(L + 1, 0); vp_buf_release(m); } } rd(0, 1); rd(7, 0); VP_CHECK(fileparser_close(P) == 0, "close"); }
static int fdcount(void) { int n = 0; for(int i = 0; i < 64; i++) if(fcntl(i, F_GETFD) != -1) n++; return n; }
static void go(const char *a, size_t n, const int *ops, int nops, int depth, int faults) {
	put(a, n); int fds = fdcount(); long live = vp_live(); vp_trace("file of %zu bytes: %s", n, vp_show(a, n > 60 ? 60 : n)); start(); vp_fault_budget(faults);
	for(int i = 0; i < depth; i++) { int o = ops[vp_choose(nops)]; if(o == 0) rd(0, 1); else if(o < 0) nl(); else rd(o, 0); if(pos >= FN && i > 1) break; }
	drain(); VP_CHECK(fdcount() == fds, "descriptor not closed"); VP_LEAKCHECK(live, "fileparser"); vp_buf_reset();
}
static const char A3[] = { 'a', '\n', 0 };
static const int OPS[] = { 0, -1, 1, 2, 3, 8 };
static long a_units(void) { return strs_count(2, VP_T(7, 8)) + strs_count(3, VP_T(4, 5)); }
static void a_run(long u) { static char a[16]; long k = strs_count(2, VP_T(7, 8)); int n = u < k ? strs_get(u, A3, 2, a) : strs_get(u - k, A3, 3, a); go(a, n, OPS, 6, VP_T(4, 5), 0); }
static void as_run(long u) { static char a[16]; int n = strs_get(u, A3, 2, a); go(a, n, OPS, 6, 2, VP_T(2, 3)); }
static long as_units(void) { return strs_count(2, 6); }
static const int LL[] = { 0, 1, 1022, 1023, 1024, 1025, 2047, 2048, 2049 };
static char big[3000000];
static long b_units(void) { return 2 * (9 + 81 + 729); }
static size_t mkbig(long u) { int fin = u & 1, k = 1; u >>= 1; if(u >= 9) { u -= 9; k = 2; if(u >= 81) { u -= 81; k = 3; } } size_t n = 0; for(int i = 0; i < k; i++) { int L = LL[u % 9]; u /= 9; for(int j = 0; j < L; j++) big[n++] = 'A' + (i * 7 + j) % 23; if(i < k - 1 || !fin) big[n++] = '\n'; } return n; }
static const int OPB[] = { 0, -1, 1023, 2049, 4096 };
static void b_run(long u) { size_t n = mkbig(u); go(big, n, OPB, 5, VP_T(2, 4), 0); }
static long bs_units(void) { return 2 * (9 + 81); }
static void bs_run(long u) { size_t n = mkbig(u); go(big, n, OPB, 5, 2, VP_T(1, 2)); }
/* long lines: every multiple of the buffer, one below and above */
static long c_units(void) { return 2 * VP_T(24, 140) * 3; }
static void c_run(long u) { int fin = u & 1; u >>= 1; size_t L = (u / 3 + 1) * 1024 + u % 3 - 1, n = 0; big[n++] = 'q'; big[n++] = '\n'; for(size_t i = 0; i < L; i++) big[n++] = 'a' + i % 26; if(!fin) big[n++] = '\n'; else if(fin == 2) ; int fds = fdcount(); put(big, n); start(); vp_fault_budget(0);
	nl(); rd(0, 1); nl(); nl(); rd(0, 1); rd(L, 0); nl(); rd(L + 1, 0); nl(); drain(); VP_CHECK(fdcount() == fds, "descriptor not closed"); vp_buf_reset(); }
/* many lines, both a length query before each and not */
static long d_units(void) { return 6; }
static void d_run(long u) { size_t n = 0; int N = VP_T(3000, 20000); for(int i = 0; i < N && n < sizeof big - 2000; i++) { int L = (i * 37 + u * 11) % (u < 3 ? 97 : 1023); for(int j = 0; j < L; j++) big[n++] = 'a' + (i + j) % 26; big[n++] = '\n'; } if(u & 1) n--; int fds = fdcount(); put(big, n); start(); vp_fault_budget(0); while(pos < FN) { if(u % 3 == 0) nl(); if(u % 3 == 1) { size_t m = vp_buf_mark(); rd(50, 0); vp_buf_release(m); } if(pos < FN) rd(0, 1); vp_beat(); } drain(); VP_CHECK(fdcount() == fds, "descriptor not closed"); vp_buf_reset(); }
/* a short line beginning at every offset */
static long o_units(void) { return VP_T(4400, 70000) / 20 + 11 * 7; }
static void off(size_t o, int fin) { size_t n = 0; while(n + 1 < o) { big[n] = 'a' + n % 26; n++; } if(o) big[n++] = '\n'; if(fin == 4) big[n++] = '\n'; else { big[n++] = 'x'; big[n++] = 'y'; if(fin) big[n++] = '\n'; if(fin == 2) big[n++] = 'z'; if(fin == 3) big[n++] = '\n'; } int fds = fdcount(); put(big, n); start(); vp_fault_budget(0); if(o) rd(o, 0); if(fin & 1) nl(); if(fin == 2) rd(2, 0); drain(); VP_CHECK(fdcount() == fds, "descriptor not closed"); vp_buf_reset(); }
static void o_run(long u) { long k = VP_T(4400, 70000) / 20; if(u < k) { for(int i = 0; i < 20; i++) { size_t o = u * 20 + i; off(o, o % 5); off(o, 0); } } else { u -= k; size_t o = ((size_t)1 << (11 + u / 7)) + u % 7 - 3; for(int f = 0; f < 5; f++) off(o, f); } vp_trace("lines beginning at every offset"); }
/* offsets beyond 4 GiB (virtual file) */
static long v_units(void) { return 1; }
static void v_run(long u) {
	put("x\n", 2); start(); vline = 1 << 20; vsize = (5ull << 30) + 17; vpos = 0; virt = 1; char *b = malloc(vline + 5); vp_hang_limit(VP_T(240, 600));
	for(uint64_t o = 0; o < vsize; o += vline) { size_t L = vsize - o < vline ? vsize - o : vline - 1; int r = fileparser_readline_userbuf(P, b, vline + 5); VP_CHECK(r == 0 && P->len == L, "line at offset %llu: returned %d, length %zu", (unsigned long long)o, r, P->len); for(int i = 0; i < 8; i++) VP_CHECK(b[i] == vbyte(o + i), "line at offset %llu: wrong bytes", (unsigned long long)o); VP_CHECK(b[L] == 0, "not terminated"); vp_beat(); vp_trans(1); vp_states_add(1); }
	VP_CHECK(fileparser_readline_userbuf(P, b, 10) == -2, "end of file"); virt = 0; free(b); fileparser_close(P);
	start(); vline = (5ull << 30) + 1; vsize = vline + 5; vpos = 0; virt = 1; ssize_t r = fileparser_getnextlinelength(P); VP_CHECK(r == (ssize_t)vline - 1, "length of a 5 GiB line: %zd", r); VP_CHECK(vpos == 0, "position changed"); virt = 0; fileparser_close(P);
}
/* read_stdin_line */
static long s_units(void) { return strs_count(2, VP_T(8, 11)); }
static void s_run(long u) {
	char a[16]; int n = strs_get(u, A3, 2, a); put(a, n);
	for(int chomp = 0; chomp < 2; chomp++) for(size_t B = 2; B < 8; B++) { if(!freopen(path, "r", stdin)) vp_fail("freopen"); int p = 0; char *b = vp_buf(B);
		for(;;) { stringptr s = read_stdin_line(b, B, chomp); vp_trans(1); if(p >= n) { VP_CHECK(!s.ptr && !s.size, "read_stdin_line at the end of the input returns %s", vp_show(s.ptr, s.size)); break; }
			size_t L = 0; while(p + L < (size_t)n && L < B - 1 && a[p + L++] != '\n'); size_t e = chomp && a[p + L - 1] == '\n' ? L - 1 : L;
			VP_CHECK(s.ptr && s.size == e && !memcmp(s.ptr, a + p, e), "read_stdin_line(buffer %zu, chomp %d) of %s at %d gives %s, must be %s", B, chomp, vp_show(a, n), p, s.ptr ? vp_show(s.ptr, s.size) : "null", vp_show(a + p, e)); p += L; }
		vp_states_add(1); vp_buf_reset(); }
	vp_trace("stdin lines of %s", vp_show(a, n));
}
/* every byte value at every place of short lines, alone and next to every other */
static long y_units(void) { return 256; }
static void y_run(long u) { static char a[16]; static const int ops[] = { 0, 3 }; char c = u;
	for(int L = 1; L <= 4; L++) for(int at = 0; at < L; at++) for(int fin = 0; fin < 2; fin++) { int n = 0; a[n++] = 'p'; a[n++] = '\n'; for(int i = 0; i < L; i++) a[n++] = i == at ? c : 'a' + i; if(!fin) a[n++] = '\n'; if(fin == 0) { a[n++] = c; } go(a, n, ops, 1, 1, 0); }
	for(int d = 0; d < 256; d++) { int n = 0; a[n++] = c; a[n++] = d; a[n++] = '\n'; a[n++] = 'x'; a[n++] = c; a[n++] = d; go(a, n, ops, 1, 1, 0); } 
	a[0] = c; put(a, 1); if(c) for(int chomp = 0; chomp < 2; chomp++) for(int L = 1; L < 4; L++) for(int at = 0; at < L; at++) { memset(a, 'k', 8); a[at] = c; a[L] = '\n'; a[L + 1] = c; int n = L + 2, p = 0; put(a, n); if(!freopen(path, "r", stdin)) vp_fail("freopen"); char b[16];
		for(;;) { stringptr s = read_stdin_line(b, sizeof b, chomp); vp_trans(1); if(p >= n) { VP_CHECK(!s.ptr, "read_stdin_line at the end"); break; } size_t l = 0; while(p + (int)l < n && a[p + l++] != '\n'); size_t e = chomp && a[p + l - 1] == '\n' ? l - 1 : l; VP_CHECK(s.ptr && s.size == e && !memcmp(s.ptr, a + p, e), "read_stdin_line(chomp %d) of %s at %d gives %s", chomp, vp_show(a, n), p, vp_show(s.ptr, s.size)); p += l; } vp_states_add(1); } }
/* the caller has closed some of its standard descriptors: the file may get any of them */
static long z_units(void) { return 7 * strs_count(2, 5); }
static void z_run(long u) { static char a[16]; int set = u % 7 + 1, keep[3]; int n = strs_get(u / 7, A3, 2, a); put(a, n); for(int i = 0; i < 3; i++) { keep[i] = -1; if(set >> i & 1) { keep[i] = fcntl(i, F_DUPFD_CLOEXEC, 40); close(i); } }
	int fds = fdcount(); long live = vp_live(); start(); vp_fault_budget(0); rd(0, 1); nl(); drain(); VP_CHECK(fdcount() == fds, "descriptor not closed"); start(); VP_CHECK(fileparser_close(P) == 0, "close"); VP_CHECK(fdcount() == fds, "descriptor not closed"); VP_LEAKCHECK(live, "fileparser"); vp_buf_reset();
	for(int i = 0; i < 3; i++) if(keep[i] >= 0) { dup2(keep[i], i); close(keep[i]); } vp_trace("descriptors closed: set %d, file %s", set, vp_show(a, n)); }
static long n_units(void) { return 1; }
static void n_run(long u) { fileparser f; memset(&f, 0, sizeof f); VP_CHECK(fileparser_open(&f, "does-not-exist") != 0, "opening a missing file succeeded"); VP_CHECK(fileparser_open(0, "x") != 0 && fileparser_open(&f, 0) != 0 && fileparser_close(0) != 0 && fileparser_getline(&f, 0) != 0, "null arguments accepted"); vp_trace("missing file and null arguments"); vp_states_add(1); }
/* every byte value at the edges of lines, read with buffers that fit exactly, by one more, and not quite */
static long x_units(void) { return 256; }
static void x_run(long u) { static const int XL[] = { 1, 2, 3, 4, 5, 7, 8, 1021, 1022, 1023, 1024, 1025, 2047 }; if(u == '\n') return;
	for(int i = 0; i < VP_N(XL); i++) for(int where = 0; where < 4; where++) for(int fin = 0; fin < 3; fin++) { int L = XL[i]; size_t n = 0; big[n++] = 'q'; big[n++] = '\n'; memset(big + n, 'a', L); if(where == 0) big[n] = u; else if(where == 1) big[n + L - 1] = u; else if(where == 2) { big[n + L - 1] = u; if(L > 1) big[n + L - 2] = u; } else memset(big + n, u, L); n += L; if(fin) big[n++] = '\n'; if(fin == 2) { big[n++] = u; big[n++] = '\n'; }
		int fds = fdcount(); for(int m = 0; m < 3; m++) { put(big, n); start(); vp_fault_budget(0); rd(0, 1); if(m == 0) { nl(); rd(L, 0); rd(L + 1, 0); nl(); rd(2, 0); } else if(m == 1) { rd(L + 2, 0); rd(1, 0); rd(2, 0); } else { rd(0, 1); nl(); } drain(); } VP_CHECK(fdcount() == fds, "descriptor not closed"); vp_buf_reset(); }
	vp_trace("byte value %ld at the edges of lines", u); }
/* failing reads, also after part of the line has been read; every later call must continue at the same place */
static long e_units(void) { return strs_count(2, 5) + 2 * (9 + 81); }
static void e_run(long u) { static char a[16]; long k = strs_count(2, 5); static const int ops[] = { 0, -1, 2, 3, 8 }; errmode = 1; if(u < k) { int n = strs_get(u, A3, 2, a); go(a, n, ops, 5, 2, VP_T(2, 3)); } else { size_t n = mkbig(u - k); go(big, n, OPB, 5, 2, 2); } errmode = 0; }
/* seeks that fail: the call reports it, or what follows is right all the same; after a report the parser is only closed */
static void se_run(long u) { static char a[16]; long k = strs_count(2, 5); static const int ops[] = { 0, -1, 2, 3, 8 }; errmode = 2; size_t n; const char *d; const int *o = ops; int no = 5; if(u < k) { n = strs_get(u, A3, 2, a); d = a; } else { n = mkbig(u - k); d = big; o = OPB; }
	put(d, n); int fds = fdcount(); long live = vp_live(); vp_trace("file of %zu bytes: %s", n, vp_show(d, n > 60 ? 60 : n)); start(); seekfail = 0; vp_fault_budget(1);
	for(int i = 0; i < 3 && !seekfail; i++) { int q = o[vp_choose(no)]; if(q == 0) rd(0, 1); else if(q < 0) nl(); else rd(q, 0); if(pos >= FN && i > 1) break; }
	if(!seekfail) drain(); else VP_CHECK(fileparser_close(P) == 0, "close"); errmode = 0; VP_CHECK(fdcount() == fds, "descriptor not closed"); VP_LEAKCHECK(live, "fileparser"); vp_buf_reset(); }
/* whatever the parser's memory holds before it is opened, and used again after closing */
static long p_units(void) { return 256 + 80; }
static void p_run(long u) { static const char *T[] = { "", "a", "\n", "ab\ncd\nef", "abcdefgh\nij\n\nk\n" };
	for(int i = 0; i < 5; i++) for(int used = 0; used < 4; used++) { int fds = fdcount(); put(T[3 + (used & 1)], strlen(T[3 + (used & 1)])); P = vp_buf(sizeof *P); memset(P, 0x5a, sizeof *P);
		if(used) { VP_CHECK(fileparser_open(P, path) == 0, "open"); for(int q = 0; q < used; q++) rd(q == 1 ? 1 : 0, q != 1); if(used == 3) nl(); VP_CHECK(fileparser_close(P) == 0, "close"); }
		if(u < 256) memset(P, u, sizeof *P); else { uint64_t v = u - 256 < 40 ? (uint64_t)(u - 256) : ((uint64_t)1 << (u - 256 - 40 + 4)); P->fpos = v; P->len = v; if(used != 2) P->file = v; }
		put(T[i], strlen(T[i])); VP_CHECK(fileparser_open(P, path) == 0, "open"); vp_fault_budget(0); if(used & 1) nl(); drain(); VP_CHECK(fdcount() == fds, "descriptor not closed"); vp_buf_reset(); }
	vp_trace("parser memory pattern %ld", u); vp_states_add(1); }
const vp_scenario vp_scenarios[] = {
	{ "small", a_units, a_run, "all files to 7 (8) bytes over {a,LF} and to 4 (5) over {a,LF,NUL}: all sequences of 4 (5) operations (read with buffers 1,2,3,8,1024; length query), then the rest" },
	{ "short", as_units, as_run, "all files to 6 bytes over {a,LF} x operation pairs x every placement of up to 2 (3) short reads" },
	{ "boundary", b_units, b_run, "all files of 1..3 lines with lengths 0,1,1022..1025,2047..2049 with/without final newline x all sequences of 2 (4) operations" },
	{ "boundary-short", bs_units, bs_run, "files of 1..2 such lines x operation pairs x up to 1 (2) short reads" },
	{ "long", c_units, c_run, "line lengths 1024k-1..1024k+1, k to 24 (140), with/without final newline" },
	{ "many", d_units, d_run, "thousands of lines with length queries and too small buffers in between" },
	{ "offsets", o_units, o_run, "a short line, with or without newline, beginning at every file offset to 4400 (70000) and around 2^11..2^21" },
	{ "huge", v_units, v_run, "virtual file beyond 4 GiB in lines of 1 MiB; one line of 5 GiB" },
	{ "stdin", s_units, s_run, "read_stdin_line: all inputs to 8 (11) bytes over {a,LF}, buffers 2..7, with and without chomp" },
	{ "bytes", y_units, y_run, "every byte value at every place of lines of 1..4 bytes and as last line, every pair of byte values as a line, with/without final newline; read_stdin_line likewise" },
	{ "edges", x_units, x_run, "every byte value first, last, twice last and throughout in lines of 1..8, 1021..1025 and 2047 bytes, read with buffers one too small, exactly fitting, one larger and the built-in one, three ways to end the file" },
	{ "stdfds", z_units, z_run, "all files to 5 bytes over {a,LF} while any of the descriptors 0..2 are closed" },
	{ "seek-errors", e_units, se_run, "the same files, 3 operations, every placement of a failing seek: reported, or nothing is lost" },
	{ "errors", e_units, e_run, "all files to 5 bytes over {a,LF}, and files of 1..2 boundary lines, x operation pairs x every placement of up to 2 (3) failing or short reads: the failure is reported, nothing is lost" },
	{ "reopen", p_units, p_run, "parser memory filled with every byte value, or every small and power-of-two position, before opening; after each of 4 earlier uses" },
	{ "null", n_units, n_run, "missing file, null arguments" },
	{ 0 }
};
