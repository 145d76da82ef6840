/* C31: ulz_mkdtemp and mktempdir under every sequence of answers of directory creation (a stand-in; nothing is created outside
   the scratch directory), and on the real file system inside the scratch directory. */
#include "engine.h"
#include "strs.h"
#include <fcntl.h>
#include <sys/stat.h>
#include <dirent.h>
#include "filelib.h"
const char vp_property[] = "C31";
static int standin = 1; static long rbase, rstep, rcount; static int rmodel;
#define MAXCALLS 64
static struct { char path[4200]; int mode, ans; } call[MAXCALLS]; static int ncalls; static int answering;
static const int ERRS[] = { EACCES, ENOSPC, ENOENT, EROFS, EINTR };
int __real_mkdir(const char*, mode_t);
int __wrap_mkdir(const char *p, mode_t m) {
	vp_trans(1);
	if(!standin) { if(strstr(p, "/dev/shm") || !strncmp(p, "/tmp/", 5)) { /* the scratch directory itself lies below /tmp */ char cw[4096]; getcwd(cw, sizeof cw); if(strncmp(p, cw, strlen(cw))) { errno = EPERM; return -1; } } return __real_mkdir(p, m); }
	if(ncalls >= MAXCALLS) vp_fail("more than %d attempts: a name already refused is tried again and again (%s)", MAXCALLS, vp_shows(p));
	int i = ncalls++; snprintf(call[i].path, sizeof call[i].path, "%s", p); call[i].mode = m; int a = 0, again = 0;
	for(int j = 0; j < i; j++) if(call[j].ans == EEXIST && !strcmp(call[j].path, p)) again = 1;
	if(again) a = EEXIST; else { int c = vp_fault(answering + 1); a = c == 0 ? 0 : c == 1 ? EEXIST : ERRS[c - 2]; }
	call[i].ans = a; vp_trace("    mkdir(%s, %o) -> %s", vp_shows(p), (unsigned)m, a ? strerror(a) : "created"); if(a) { errno = a; return -1; } return 0;
}
int __wrap_mkdirat(int fd, const char *p, mode_t m) { (void)fd; return __wrap_mkdir(p, m); }
static int rpat[6];
int __wrap_rand(void) { if(rmodel == 2 && rcount < 6) return rpat[rcount++]; if(rmodel != 1) return (int)(rcount++ * 7919 % 2147483647); return (int)((rbase + rstep * rcount++) & 0x7fffffff); }
static int alnum6(const char *s) { for(int i = 0; i < 6; i++) if(!((s[i] >= '0' && s[i] <= '9') || (s[i] >= 'A' && s[i] <= 'Z') || (s[i] >= 'a' && s[i] <= 'z'))) return 0; return 1; }
static void reset(void) { ncalls = 0; rcount = 0; standin = 1; }
static void okcall(int i, const char *pre, size_t pl) { VP_CHECK(strlen(call[i].path) == pl + 6 && !memcmp(call[i].path, pre, pl) && alnum6(call[i].path + pl), "attempt %d uses the name %s, expected %s and six letters or digits", i, vp_shows(call[i].path), vp_show(pre, pl)); VP_CHECK((call[i].mode & 0777) == 0700, "attempt %d asks for the permissions %o", i, call[i].mode); }
/* template */
static void templ(const char *t, size_t n) {
	size_t mk = vp_buf_mark(); char *b = vp_buf(n + 1); memcpy(b, t, n); b[n] = 0; reset(); errno = 0; char *r = ulz_mkdtemp(b); int e = errno; vp_trace("ulz_mkdtemp(%s) = %s", vp_show(t, n), vp_shows(r));
	if(n < 6) { VP_CHECK(!r && ncalls == 0, "a template of %zu characters is accepted", n); VP_CHECK(e == EINVAL, "a template of %zu characters: errno %d", n, e); VP_CHECK(!memcmp(b, t, n) && !b[n], "the refused template was changed"); }
	else { VP_CHECK(ncalls > 0, "no directory was created"); for(int i = 0; i < ncalls; i++) { okcall(i, t, n - 6); if(i < ncalls - 1) VP_CHECK(call[i].ans == EEXIST, "a further attempt after %s", call[i].ans ? strerror(call[i].ans) : "success"); }
		int a = call[ncalls-1].ans; VP_CHECK(a != EEXIST, "given up after a name collision"); VP_CHECK(!memcmp(b, t, n - 6) && !b[n], "the prefix of the template was changed: %s", vp_show(b, n));
		if(!a) VP_CHECK(r == b && !strcmp(r, call[ncalls-1].path), "returns %s, created %s", vp_shows(r), vp_shows(call[ncalls-1].path)); else { VP_CHECK(!r, "success reported though creation failed with %s", strerror(a)); VP_CHECK(e == a, "errno is %s, creation failed with %s", strerror(e), strerror(a)); } }
	vp_state(vp_mix(vp_mix(n, ncalls), ncalls ? call[ncalls-1].ans : 0)); vp_buf_release(mk);
}
static long t_units(void) { return VP_T(30, 80); }
static void t_run(long u) { char t[100]; for(int i = 0; i < u; i++) t[i] = i >= u - 6 ? 'X' : "/ab.X"[i % 5]; answering = 5; rmodel = 0; vp_fault_budget(VP_T(4, 6)); templ(t, u); }
/* what the random numbers are must not matter */
static long r_units(void) { return VP_T(200, 600); }
static void r_run(long u) { answering = 1; rmodel = 1; rbase = u < 130 ? u : u < 160 ? 0x7fffffff - (u - 130) : 0x40000000 + u * 61; for(rstep = 1; rstep < 64; rstep += 3) { vp_fault_budget(0); templ("pre-XXXXXX", 10); templ("XXXXXX", 6); templ("noplaceholderatall", 18); } vp_trace("random numbers from %ld", rbase); }
/* every pattern of equal and different characters in the first, colliding name */
static long n_units(void) { return 12; }
static void n_run(long u) {
	static const int BASE[] = { 0, 9, 10, 25, 35, 36, 51, 61, 62, 1000, 0x3fffffff, 0x7ffffff0 };
	answering = 1; rmodel = 2; int mx = 0;
	for(int i = 0; i < 6; i++) { int c = i ? vp_choose(mx + 2) : 0; if(c > mx) mx = c; rpat[i] = BASE[u] + c; }
	vp_fault_budget(3); templ("pre-XXXXXX", 10);
}
/* mktempdir */
static const char SHM[] = "/dev/shm/", TMP[] = "/tmp/";
static void tempdir(const char *pre, size_t pl, size_t bs) {
	size_t mk = vp_buf_mark(); char *p = vp_str(pre), *b = vp_buf(bs); reset(); size_t r = mktempdir(p, b, bs); vp_trace("mktempdir(%s, %zu) = %zu", vp_shows(pre), bs, r);
	char full[5000]; 
	if(bs < 5 + pl + 7) { VP_CHECK(!r && !ncalls, "prefix of %zu, buffer of %zu bytes: accepted", pl, bs); goto out; }
	if(bs < 9 + pl + 7 && !r && !ncalls) goto out;
	VP_CHECK(ncalls > 0, "prefix of %zu, buffer of %zu bytes: nothing was tried", pl, bs);
	int loc = 0, i; if(bs < 9 + pl + 7) loc = 1;
	for(i = 0; i < ncalls; i++) { int n = snprintf(full, sizeof full, "%s%s", loc ? TMP : SHM, pre); okcall(i, full, n); if(call[i].ans == 0) break; if(call[i].ans != EEXIST) { if(loc++) break; } }
	VP_CHECK(i >= ncalls - 1, "further attempts after the end"); int a = call[ncalls-1].ans;
	VP_CHECK(a == 0 || loc == 2, "given up after %s in %s", strerror(a), loc == 1 && a != EEXIST ? "the preferred location only" : "one location");
	if(!a) VP_CHECK(r == strlen(call[ncalls-1].path) && r < bs && !memcmp(b, call[ncalls-1].path, r + 1), "returns %zu %s, created %s", r, r < bs ? vp_show(b, r) : "", call[ncalls-1].path); else VP_CHECK(r == 0, "both locations refused, but %zu is returned", r);
	out: VP_CHECK(!strcmp(p, pre), "the prefix was changed"); vp_state(vp_mix(vp_mix(pl, bs), vp_mix(ncalls, ncalls ? call[ncalls-1].ans : 0))); vp_buf_release(mk);
}
static long m_units(void) { return VP_T(12, 40); }
static void m_run(long u) { char p[64]; for(int i = 0; i < u; i++) p[i] = "aX.b-"[i % 5]; p[u] = 0; answering = VP_T(3, 5); rmodel = 0; int bs = vp_choose(u + 40); vp_fault_budget(0); tempdir(p, u, bs); }
static long q_units(void) { return 6; }
static void q_run(long u) { char p[64]; int n = u * 3; memset(p, 'q', n); p[n] = 0; answering = VP_T(3, 5); rmodel = 0; int bs = 16 + n + (vp_choose(2) ? 30 : 0); vp_fault_budget(VP_T(5, 6)); tempdir(p, n, bs); }
/* real directories */
static long f_units(void) { return VP_T(40, 120); }
static void f_run(long u) {
	char d[64], t[200], n1[8][200]; snprintf(d, sizeof d, "w%ld.%d", u, (int)getpid()); if(__real_mkdir(d, 0700)) { perror(d); _exit(78); } umask(u % 4 == 0 ? 0 : u % 4 == 1 ? 022 : u % 4 == 2 ? 077 : 0); standin = 0; rmodel = 1; int pl = u % 12;
	for(int k = 0; k < 8; k++) { /* the same random numbers every time: all but the first collide */
		rbase = u * 131; rstep = 17; rcount = 0; int n = snprintf(t, sizeof t, "%s/", d); for(int i = 0; i < pl; i++) t[n++] = 'p'; memcpy(t + n, "XXXXXX", 7); char *b = vp_str(t); ncalls = 0; char *r = ulz_mkdtemp(b); VP_CHECK(r == b, "failed: %s", strerror(errno)); struct stat st; VP_CHECK(!lstat(b, &st) && S_ISDIR(st.st_mode), "%s is not a directory", b); VP_CHECK((st.st_mode & 07777) == 0700, "%s has the permissions %o", b, st.st_mode & 07777); strcpy(n1[k], b); for(int j = 0; j < k; j++) VP_CHECK(strcmp(n1[j], b), "an existing directory was returned"); DIR *dp = opendir(b); int c = 0; while(readdir(dp)) c++; closedir(dp); VP_CHECK(c == 2, "not empty"); vp_states_add(1);
		if(k == 3) { rmdir(n1[0]); int fd = open(n1[0], O_CREAT | O_WRONLY, 0600); close(fd); } }
	for(int k = 0; k < 8; k++) { unlink(n1[k]); rmdir(n1[k]); }
	snprintf(t, sizeof t, "%s/missing/XXXXXX", d); char *b = vp_str(t); VP_CHECK(!ulz_mkdtemp(b) && errno == ENOENT, "creating below a missing directory");
	DIR *dp = opendir(d); int c = 0; while(readdir(dp)) c++; closedir(dp); VP_CHECK(c == 2, "something else was created"); rmdir(d); vp_trace("8 directories with colliding names"); umask(0);
}
/* long templates and prefixes */
static long w_units(void) { return VP_T(330, 4090); }
static void w_run(long u) { static char t[4200]; for(int i = 0; i < u; i++) t[i] = i >= u - 6 ? 'X' : "/ab.X"[i % 5]; t[u] = 0; answering = 1; rmodel = 0; vp_fault_budget(2); templ(t, u); }
static long x_units(void) { return VP_T(320, 4070); }
static void x_run(long u) { static char p[4200]; for(int i = 0; i < u; i++) p[i] = "aX.b-"[i % 5]; p[u] = 0; answering = 1; rmodel = 0; static const int D[] = { -20, -5, -1, 0, 1, 2, 3, 4, 5, 40 }; int d = D[vp_choose(10)] + (int)u + 16; if(d < 0) d = 0; vp_fault_budget(2); tempdir(p, u, d); }
const vp_scenario vp_scenarios[] = {
	{ "templates", t_units, t_run, "template lengths 0..29 (79) x all answer sequences with up to 4 (6) collisions or errors (5 kinds)" },
	{ "random", r_units, r_run, "200 (600) starting points x 21 steps of the random numbers" },
	{ "names", n_units, n_run, "all patterns of equal and different random characters in the first name x 12 offsets x up to 3 collisions" },
	{ "buffers", m_units, m_run, "prefix lengths 0..11 (39) x all buffer sizes" },
	{ "locations", q_units, q_run, "6 prefixes x all answer sequences with up to 5 (6) collisions or errors over both locations" },
	{ "real", f_units, f_run, "real directories in the scratch directory: forced collisions with directories and a file, permissions under several umasks" },
	{ "longtemplates", w_units, w_run, "template lengths 0..329 (4089) x up to 2 collisions" },
	{ "longprefixes", x_units, x_run, "prefix lengths 0..319 (4069) x 10 buffer sizes around the needed one x up to 2 collisions" },
	{ 0 }
};
