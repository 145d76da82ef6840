/* child program of the C30 check: c30_child MODE CODE [DELAY_MS] */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
#include <signal.h>
#include <sys/stat.h>
int main(int argc, char **argv) {
	signal(SIGPIPE, SIG_IGN); char b[4096]; int n; const char *mode = argc > 1 ? argv[1] : ""; int code = argc > 2 ? atoi(argv[2]) : 0;
	if(!strcmp(mode, "exit")) _exit(code);
	if(!strcmp(mode, "report")) { /* every open descriptor: number device inode accessmode */
		int o = 0; char r[8192];
		for(int i = 0; i < 20200; i++) { struct stat st; int fl = fcntl(i, F_GETFL); if(fl == -1 || fstat(i, &st)) continue; o += snprintf(r + o, sizeof r - o, "%d %lu %lu %d\n", i, (unsigned long)st.st_dev, (unsigned long)st.st_ino, fl & O_ACCMODE); if(o > 8000) break; }
		o += snprintf(r + o, sizeof r - o, "END %s\n", argc > 3 ? argv[3] : ""); write(1, r, o);
	}
	if(!strcmp(mode, "flood")) { /* writes argv[3] bytes to stdout and argv[4] to stderr, as far as somebody takes them; does not read */
		for(int f = 1; f < 3; f++) { long left = atol(argv[2 + f]); memset(b, 'a' + f, sizeof b); while(left > 0) { int k = write(f, b, left < (long)sizeof b ? left : (long)sizeof b); if(k <= 0) break; left -= k; } }
		_exit(code);
	}
	write(2, "err", 3);
	while((n = read(0, b, sizeof b)) > 0) for(int w = 0; w < n;) { int k = write(1, b + w, n - w); if(k <= 0) _exit(99); w += k; }
	if(!strcmp(mode, "slow")) { struct timespec t = { 0, 120 * 1000000 }; while(nanosleep(&t, &t)); }
	_exit(code);
}
