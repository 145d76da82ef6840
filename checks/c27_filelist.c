/* C27: filelist_search on real directories against fnmatch over the known entries. */
#include "engine.h"
#include "strs.h"
#include <fnmatch.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <limits.h>
#include <dirent.h>
#include "filelist.h"
const char vp_property[] = "C27";
typedef struct { const char *name; int kind; } ent; /* kind 0 file, 1 directory, 2 symlink to a directory, 3 dangling symlink */
static int fdcount(void) { int n = 0; for(int i = 0; i < 64; i++) if(fcntl(i, F_GETFD) != -1) n++; return n; }
static void mk(int dfd, const ent *e) {
	int r = e->kind == 0 ? openat(dfd, e->name, O_CREAT | O_EXCL | O_WRONLY, 0600) : e->kind == 1 ? mkdirat(dfd, e->name, 0700) : symlinkat(e->kind == 2 ? "." : "nowhere-at-all", dfd, e->name);
	if(r < 0) { perror(e->name); _exit(78); } if(e->kind == 0) close(r);
}
static void rmd(int dfd, const ent *e) { unlinkat(dfd, e->name, e->kind == 1 ? AT_REMOVEDIR : 0); }
static stringptr *sp(const char *b, size_t n) { stringptr *s = vp_buf(sizeof *s); s->ptr = vp_copy(b, n); s->size = n; return s; }
static int namecmp(const char *a, size_t an, const char *b, size_t bn) { int r = memcmp(a, b, an < bn ? an : bn); return r ? r : an < bn ? -1 : an > bn; }
enum { W_INCLUDE_DOT = 1, W_INCLUDE_DOT_DOT = 2, W_EXCLUDE_PATH = 4, W_INCLUDE_HIDDEN = 8 }; /* the harness's own names of the flags */
/* one search; ents are all entries of the directory besides . and .. ; dir may be NULL */
static void search(const char *dir, size_t dl, const char *mask, int flags, const ent *en, int ne) {
	size_t mk_ = vp_buf_mark(); long live = vp_live(); int fds = fdcount();
	filelist *l = vp_buf(sizeof *l); stringptr *d = dir ? sp(dir, dl) : 0, *m = sp(mask, strlen(mask));
	int r = filelist_search(l, d, m, (flags & 1 ? FLF_INCLUDE_DOT : FLF_NONE) | (flags & 2 ? FLF_INCLUDE_DOT_DOT : FLF_NONE) | (flags & 4 ? FLF_EXCLUDE_PATH : FLF_NONE) | (flags & 8 ? FLF_INCLUDE_HIDDEN : FLF_NONE)); vp_trans(1);
	char what[400]; snprintf(what, sizeof what, "dir %s mask %s flags %d", dir ? vp_show(dir, dl) : "(none)", mask, flags);
	/* expected */
	int hid = flags & W_INCLUDE_HIDDEN, fn = hid ? 0 : FNM_PERIOD, *used = calloc(ne + 1, sizeof *used), nexp = 0, nglob = 0, dots[2] = { 0, 0 };
	for(int i = 0; i < ne; i++) if(!fnmatch(mask, en[i].name, fn)) { used[i] = 1; nexp++; nglob++; }
	for(int i = 0; i < 2; i++) { int ask = flags & (i ? W_INCLUDE_DOT_DOT : W_INCLUDE_DOT), mt = !fnmatch(mask, i ? ".." : ".", fn); if(mt) nglob++; dots[i] = hid ? ask && mt : !!ask; }
	nexp += dots[0] + dots[1];
	if(!nglob) { VP_CHECK(r != 0, "%s: nothing matches, but success is reported", what); VP_CHECK(r == GLOB_NOMATCH, "%s: nothing matches: returned %d", what, r); goto out; }
	VP_CHECK(r == 0, "%s: failed with %d, %d entries expected", what, r, nexp);
	size_t n = stringptrlist_getsize(l->files); int *got = calloc(ne + 1, sizeof *got), gd[2] = { 0, 0 };
	const char *pd = dir && dl ? dir : "./"; size_t pn = dir && dl ? dl : 2; char pre[5000]; memcpy(pre, pd, pn); if(pre[pn-1] != '/') pre[pn++] = '/'; if(flags & W_EXCLUDE_PATH) pn = 0;
	const char *lp = 0; size_t ll = 0; int o1 = 1, o2 = 1; const char *p1 = 0; size_t l1 = 0;
	for(size_t i = 0; i < n; i++) {
		stringptr *s = stringptrlist_get(l->files, i); VP_CHECK(s->ptr[s->size] == 0 && strlen(s->ptr) == s->size, "%s: entry %zu is not terminated at its size: %s size %zu", what, i, vp_shows(s->ptr), s->size);
		if(!hid && !strcmp(s->ptr, "./")) { gd[0]++; continue; } if(!hid && !strcmp(s->ptr, "../")) { gd[1]++; continue; }
		VP_CHECK(s->size > pn && !memcmp(s->ptr, pre, pn), "%s: entry %s lacks the directory", what, s->ptr);
		const char *b = s->ptr + pn; size_t bl = s->size - pn; int mark = b[bl-1] == '/', k; if(mark) bl--;
		VP_CHECK(bl && !memchr(b, '/', bl), "%s: entry %s", what, s->ptr);
		if(bl == 1 && *b == '.') { VP_CHECK(mark && hid, "%s: unexpected entry %s", what, s->ptr); gd[0]++; } else if(bl == 2 && b[0] == '.' && b[1] == '.') { VP_CHECK(mark && hid, "%s: unexpected entry %s", what, s->ptr); gd[1]++; }
		else { for(k = 0; k < ne; k++) if(strlen(en[k].name) == bl && !memcmp(en[k].name, b, bl)) break; VP_CHECK(k < ne, "%s: entry %s does not exist", what, s->ptr); VP_CHECK(used[k], "%s: entry %s does not match", what, s->ptr); VP_CHECK(!got[k]++, "%s: entry %s listed twice", what, s->ptr); VP_CHECK(mark == (en[k].kind == 1 || en[k].kind == 2), "%s: entry %s %s the directory mark", what, s->ptr, mark ? "wrongly has" : "lacks"); }
		if(lp && namecmp(lp, ll, b, bl) > 0) o1 = 0; if(p1 && namecmp(p1, l1, s->ptr, s->size) > 0) o2 = 0; lp = b; ll = bl; p1 = s->ptr; l1 = s->size;
	}
	VP_CHECK(o1 || o2, "%s: not sorted", what);
	for(int k = 0; k < ne; k++) VP_CHECK(!used[k] || got[k], "%s: entry %s missing", what, en[k].name);
	for(int i = 0; i < 2; i++) VP_CHECK(gd[i] == dots[i], "%s: '%s' listed %d times, expected %d", what, i ? ".." : ".", gd[i], dots[i]);
	VP_CHECK((int)n == nexp, "%s: %zu entries, expected %d", what, n, nexp);
	filelist_free(l); free(got);
out: free(used);
	VP_LEAKCHECK(live, "%s", what); VP_CHECK(fdcount() == fds, "%s: descriptor leaked", what);
	if(d) VP_CHECK(d->size == dl && !memcmp(d->ptr, dir, dl), "directory argument changed"); VP_CHECK(!memcmp(m->ptr, mask, m->size), "mask changed");
	vp_states_add(1); vp_buf_release(mk_);
}
static const ent EN[] = { { "a", 0 }, { ".h", 0 }, { "d", 1 }, { ".hd", 1 }, { "a.b", 0 }, { "..x", 0 }, { "[a]", 1 }, { "l", 2 }, { "b*", 0 }, { "q\\", 0 }, { "z", 3 }, { "...", 1 } };
static const char *MA[] = { "*", "?", "a", "a*", ".*", "*.*", "[ad]", "[!a]*", "\\[a\\]", "??", "d", "nope", "*d", ".h", "..*", "l*" };
static const char *DN[] = { "w", "w[x]", "w\\", "*" };
static int NE(void) { return VP_T(8, 12); }
static long a_units(void) { return 1L << NE(); }
static void a_run(long u) {
	char dir[64]; int dn = 0; ent e[16]; int n = 0; for(int i = 0; i < NE(); i++) if(u >> i & 1) e[n++] = EN[i];
	snprintf(dir, sizeof dir, "%s%ld.%d", DN[u % 4], u, (int)getpid()); (void)dn; if(mkdir(dir, 0700)) { perror(dir); _exit(78); } int dfd = open(dir, O_DIRECTORY | O_RDONLY), top = open(".", O_DIRECTORY | O_RDONLY);
	for(int i = 0; i < n; i++) mk(dfd, &e[i]);
	char ab[4200], cw[4096]; getcwd(cw, sizeof cw);
	for(int f = 0; f < 16; f++) for(int m = 0; m < VP_N(MA); m++) {
		search(dir, strlen(dir), MA[m], f, e, n);
		char s[80]; snprintf(s, sizeof s, "%s/", dir); search(s, strlen(s), MA[m], f, e, n);
		if(vp_tier || m < 5) { snprintf(s, sizeof s, "./%s//", dir); search(s, strlen(s), MA[m], f, e, n); snprintf(ab, sizeof ab, "%s/%s", cw, dir); search(ab, strlen(ab), MA[m], f, e, n); }
	}
	fchdir(dfd); for(int f = 0; f < 16; f++) for(int m = 0; m < VP_N(MA); m++) { search(0, 0, MA[m], f, e, n); search("", 0, MA[m], f, e, n); if(m < 5) { search(".", 1, MA[m], f, e, n); search("./", 2, MA[m], f, e, n); } } fchdir(top);
	for(int i = 0; i < n; i++) rmd(dfd, &e[i]); close(dfd); close(top); rmdir(dir);
	vp_trace("%d entries, 16 flag sets, 16 masks", n);
}
/* all names made of dots and letters, as files and as directories */
static long d_units(void) { return 8; }
static void d_run(long u) {
	static char nm[64][8]; ent e[64]; int n = 0; char dir[64]; snprintf(dir, sizeof dir, "D%ld.%d", u, (int)getpid()); if(mkdir(dir, 0700)) { perror(dir); _exit(78); } int dfd = open(dir, O_DIRECTORY | O_RDONLY);
	for(long i = 1; i < strs_count(2, VP_T(4, 5)) && n < 62; i++) { int l = strs_get(i, ".a", 2, nm[n]); nm[n][l] = 0; if(!strcmp(nm[n], ".") || !strcmp(nm[n], "..")) continue; int kind = u == 0 ? 1 : u == 1 ? 0 : u == 2 ? 2 : u == 3 ? 3 : (i * (u - 2) + i / 3) % 4; e[n] = (ent){ nm[n], kind }; mk(dfd, &e[n]); n++; }
	static const char *ms[] = { "*", ".*", "..*", "*.", "?", "??", "???", "a*", "*a", "...", "..a", ".a", "[.]*", "*..", ".?", "..?" }; char s[80]; snprintf(s, sizeof s, "%s/", dir);
	for(int f = 0; f < 16; f++) for(int m = 0; m < VP_N(ms); m++) { search(dir, strlen(dir), ms[m], f, e, n); search(s, strlen(s), ms[m], f, e, n); }
	for(int i = 0; i < n; i++) rmd(dfd, &e[i]); close(dfd); rmdir(dir); vp_trace("%d names of dots and letters", n);
}
/* directory names over special characters, all of them existing side by side */
#define AL "a[]*?\\!{"
#define NK 8
static int DL(void) { return VP_T(2, 3); }
static long b_units(void) { return 4; }
static void b_run(long u) {
	char top[32]; snprintf(top, sizeof top, "T%ld.%d", u, (int)getpid()); if(mkdir(top, 0700)) { perror(top); _exit(78); } int t0 = open(".", O_DIRECTORY | O_RDONLY); chdir(top);
	long n = strs_count(NK, DL()); char s[16], f[48]; vp_hang_limit(120);
	for(long i = 1; i < n; i++) { strs_get(i, AL, NK, s); if(mkdir(s, 0700)) { perror(s); _exit(78); } int d = open(s, O_DIRECTORY | O_RDONLY); snprintf(f, sizeof f, "f%ld", i); ent e = { f, 0 }, e2 = { "sub", 1 }, e3 = { ".g", 0 }; mk(d, &e); mk(d, &e2); mk(d, &e3); close(d); vp_beat(); }
	for(long i = 1; i < n; i++) { if(vp_tier == 1 && i % 4 != u && i > 600) continue; strs_get(i, AL, NK, s); snprintf(f, sizeof f, "f%ld", i); ent e[] = { { f, 0 }, { "sub", 1 }, { ".g", 0 } }; char q[32];
		int fl[4] = { 0, 4, 8, 15 }; static const char *ms[] = { "*", "f*", "sub", "s?b", ".*", "[fs]*", "nope" };
		for(int m = 0; m < VP_N(ms); m++) { search(s, strlen(s), ms[m], fl[u], e, 3); snprintf(q, sizeof q, "%s/", s); search(q, strlen(q), ms[m], fl[u], e, 3); snprintf(q, sizeof q, "./%s", s); search(q, strlen(q), ms[m], fl[u], e, 3); }
		snprintf(q, sizeof q, "%s/sub", s); search(q, strlen(q), "*", fl[u], 0, 0); snprintf(q, sizeof q, "%s/sub/..", s); search(q, strlen(q), "*", fl[u], e, 3); }
	for(long i = 1; i < n; i++) { strs_get(i, AL, NK, s); int d = open(s, O_DIRECTORY | O_RDONLY); snprintf(f, sizeof f, "f%ld", i); unlinkat(d, f, 0); unlinkat(d, ".g", 0); unlinkat(d, "sub", AT_REMOVEDIR); close(d); rmdir(s); }
	fchdir(t0); close(t0); rmdir(top); vp_trace("%ld directory names", n - 1);
}
/* refused arguments, lengths around the limit */
static long c_units(void) { return VP_T(300, 1000); }
static void c_run(long u) {
	filelist *l = vp_buf(sizeof *l); memset(l, 0, sizeof *l); long live = vp_live();
	if(u == 0) { VP_CHECK(filelist_search(0, sp("/", 1), sp("*", 1), 0) == -1, "no list"); VP_CHECK(filelist_search(l, sp("/", 1), 0, 0) == -1, "no mask"); VP_CHECK(filelist_search(l, sp("/", 1), sp("", 0), 0) == -1, "empty mask"); VP_CHECK(filelist_search(l, 0, sp("", 0), 0) == -1, "no directory, empty mask"); VP_CHECK(filelist_search(l, sp("no-such-directory", 17), sp("*", 1), 0) == GLOB_NOMATCH, "missing directory"); filelist_free(0); vp_trans(5); }
	size_t tot = PATH_MAX - 150 + u; if(u >= 300) tot = 1000 + u * 20; static char b[30000]; static const char fi[] = "a/[*\\";
	for(int c = 0; c < 5; c++) for(int w = 0; w < 4; w++) { /* w: length of the mask: 1, 100, half, nearly all */
		size_t m = w == 0 ? 1 : w == 1 ? 100 : w == 2 ? tot / 2 : tot - 3, d = tot - m; size_t k = vp_buf_mark();
		memset(b, fi[c], sizeof b); b[0] = 'n'; b[1] = 'o'; if(d > 40 && c != 1) for(size_t i = 30; i < d; i += 31) b[i] = '/'; stringptr *ds = sp(b, d); memset(b, 'y', m); if(m > 40) for(size_t i = 30; i < m; i += 31) b[i] = '/'; stringptr *ms = sp(b, m);
		int slash = d && ds->ptr[d-1] == '/'; size_t need = d + !slash + m + 1, esc = 0; for(size_t i = 0; i < d; i++) if(strchr("[*?\\", ds->ptr[i])) esc++;
		int r = filelist_search(l, ds, ms, 0); vp_trans(1);
		if(need > PATH_MAX) VP_CHECK(r == -1, "%zu + %zu bytes: over-long arguments: returned %d", d, m, r); else if(need + esc + 8 < PATH_MAX) VP_CHECK(r == GLOB_NOMATCH, "%zu + %zu bytes: returned %d", d, m, r); else VP_CHECK(r == -1 || r == GLOB_NOMATCH, "%zu + %zu bytes: returned %d", d, m, r);
		VP_LEAKCHECK(live, "%zu + %zu bytes", d, m); vp_states_add(1); vp_buf_release(k);
	}
	vp_trace("%zu bytes in all", tot);
}
/* every byte value in entry and directory names */
static long y_units(void) { return 255; }
static void y_run(long u) {
	char c = u + 1, top[32], dn[4], na[3][4]; if(c == '/') return; snprintf(top, sizeof top, "Y%ld.%d", u, (int)getpid()); if(mkdir(top, 0700)) { perror(top); _exit(78); } int t0 = open(".", O_DIRECTORY | O_RDONLY); if(chdir(top)) _exit(78);
	sprintf(dn, "%cd", c); if(mkdir(dn, 0700)) { perror(dn); _exit(78); } int d = open(dn, O_DIRECTORY | O_RDONLY); sprintf(na[0], "a%c", c); sprintf(na[1], "%cb", c); sprintf(na[2], "a%cb", c); ent e[] = { { na[0], 0 }, { na[1], 1 }, { na[2], 0 }, { "plain", 0 } }; for(int i = 0; i < 4; i++) mk(d, e + i);
	static const char *ms[] = { "*", "a*", "?b", "*b", "a?b", "plain", "??", ".*" }; char q[16];
	for(int f = 0; f < 16; f++) for(int m = 0; m < VP_N(ms); m++) { search(dn, strlen(dn), ms[m], f, e, 4); sprintf(q, "%s/", dn); search(q, strlen(q), ms[m], f, e, 4); sprintf(q, "./%s", dn); search(q, strlen(q), ms[m], f, e, 4); }
	if(!strchr("[]*?\\", c)) for(int i = 0; i < 3; i++) search(dn, strlen(dn), na[i], 0, e, 4);
	for(int i = 0; i < 4; i++) rmd(d, e + i); close(d); rmdir(dn); if(fchdir(t0)) _exit(78); close(t0); rmdir(top); vp_trace("byte %ld", u + 1); }
/* many entries, long names */
static long z_units(void) { return VP_T(14, 18); }
static void z_run(long u) {
	static const int CNT[] = { 7, 8, 9, 63, 64, 65, 127, 129, 255, 256, 257, 511, 1000, 1025, 2049, 4097, 5000, 10000 }; int n = CNT[u]; ent *e = calloc(n, sizeof *e); char (*nm)[12] = calloc(n, sizeof *nm); char dir[64]; snprintf(dir, sizeof dir, "Z%ld.%d", u, (int)getpid()); if(mkdir(dir, 0700)) { perror(dir); _exit(78); } int dfd = open(dir, O_DIRECTORY | O_RDONLY); vp_hang_limit(VP_T(240, 300));
	for(int i = 0; i < n; i++) { snprintf(nm[i], 12, "%s%d", i % 11 == 5 ? "." : i % 3 ? "e" : "f", (i * 7919) % 100003); e[i] = (ent){ nm[i], i % 5 == 2 ? 1 : i % 17 == 3 ? 2 : 0 }; mk(dfd, &e[i]); }
	static const char *ms[] = { "*", "e*", "*7", ".*", "f1*", "nope*" }; for(int f = 0; f < 16; f += n > 300 ? 5 : 1) for(int m = 0; m < VP_N(ms); m++) search(dir, strlen(dir), ms[m], f, e, n);
	for(int i = 0; i < n; i++) rmd(dfd, &e[i]); close(dfd); rmdir(dir); free(e); free(nm); vp_trace("%d entries", n);
}
static long w_units(void) { return 255; }
static void w_run(long u) {
	int L = u + 1; char dir[300], n1[300], n2[300], n3[300], n4[300]; memset(dir, 'w', L); dir[L] = 0; char top[64]; snprintf(top, sizeof top, "W%ld.%d", u, (int)getpid()); if(mkdir(top, 0700)) { perror(top); _exit(78); } int t0 = open(".", O_DIRECTORY | O_RDONLY); if(chdir(top) || mkdir(dir, 0700)) { perror(dir); _exit(78); } int dfd = open(dir, O_DIRECTORY | O_RDONLY);
	for(int i = 0; i < L; i++) { n1[i] = 'a' + i % 26; n2[i] = 'a' + i % 26; n3[i] = 'a' + i % 26; } n1[L] = 0; n2[L] = 0; n2[L-1] = '!'; n3[L-1] = 0; n3[0] = 'A'; strcpy(n4, n2); n4[0] = '.'; ent e[4]; int n = 0; e[n++] = (ent){ n1, 0 }; e[n++] = (ent){ n2, 1 }; if(L > 2) e[n++] = (ent){ n3, 2 }; if(L > 3) e[n++] = (ent){ n4, 1 }; for(int i = 0; i < n; i++) mk(dfd, e + i);
	char ml[300]; memset(ml, '?', L); ml[L] = 0; const char *ms[] = { "*", ml, n1, "*!", ".*" }; for(int f = 0; f < 16; f++) for(int m = 0; m < 5; m++) { search(dir, L, ms[m], f, e, n); char q[310]; snprintf(q, sizeof q, "./%s//", dir); search(q, strlen(q), ms[m], f, e, n); }
	for(int i = 0; i < n; i++) rmd(dfd, e + i); close(dfd); rmdir(dir); if(fchdir(t0)) _exit(78); close(t0); rmdir(top); vp_trace("names of %d characters", L);
}
/* the root directory, as it is: only read */
static long r_units(void) { return 16; }
static void r_run(long u) {
	static ent e[256]; static char nm[256][256]; int n = 0; DIR *d = opendir("/"); struct dirent *de; if(!d) return;
	while((de = readdir(d))) { if(!strcmp(de->d_name, ".") || !strcmp(de->d_name, "..")) continue; if(n == 256) { closedir(d); return; } struct stat st; strcpy(nm[n], de->d_name); int dirf = !fstatat(dirfd(d), de->d_name, &st, 0) && S_ISDIR(st.st_mode); e[n] = (ent){ nm[n], dirf ? 1 : 0 }; n++; }
	closedir(d); static const char *ms[] = { "*", ".*", "..", ".", "?", "??", "..*", "[a-m]*", "t*", "nope-at-all" };
	for(int m = 0; m < VP_N(ms); m++) { search("/", 1, ms[m], u, e, n); search("/.", 2, ms[m], u, e, n); search("/./", 3, ms[m], u, e, n); }
	vp_trace("root directory, flag set %ld", u);
}
const vp_scenario vp_scenarios[] = {
	{ "entries", a_units, a_run, "all subsets of 8 (12) entries x 16 flag sets x 16 masks x directory given relative, with slashes, absolute, empty or missing" },
	{ "dots", d_units, d_run, "all names of up to 4 (5) characters over {.,a} as directories, files, links in 8 assignments, 16 flag sets x 16 masks" },
	{ "dirnames", b_units, b_run, "all directory names of up to 2 (3) characters over 8 special ones, side by side, 4 flag sets x 7 masks" },
	{ "limits", c_units, c_run, "refused arguments; 5 fillings x 4 splits x 300 (1000) lengths around the path limit" },
	{ "bytevalues", y_units, y_run, "every byte value in the names of the directory and of its entries, 16 flag sets x 8 masks" },
	{ "many", z_units, z_run, "directories of 7 to 1025 (10000) entries of all kinds, 16 (thinned above 300) flag sets x 6 masks" },
	{ "longnames", w_units, w_run, "directory and entry names of every length 1..255, 16 flag sets x 5 masks" },
	{ "root", r_units, r_run, "the root directory in three spellings, 16 flag sets x 10 masks" },
	{ 0 }
};
