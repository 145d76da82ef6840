/* the code under test as a user writes it: stdio calls in a file that includes the replacement header last */
#include <stdio.h>
#include <stdarg.h>
#include <errno.h>
#include "stdio-repl.h"
#include "strswitch.h"
#include "c36.h"
static int vs(char *b, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, n, f, ap); va_end(ap); return r; }
long c36_call(int k, const call *c, char *b, size_t n) {
	switch(k) {
		case 0: printf("plain text"); break;
		case 1: printf("%d %s%%%c\n", c->d, c->s, c->c); break;
		case 2: fprintf(stdout, "[%s]", c->s); break;
		case 3: fprintf(stderr, "<%u|%s|%x>\n", c->u, c->s, c->u); break;
		case 4: dprintf(c->fd, "%ld:%.3d", c->l, c->d); break;
		case 5: errno = c->e; perror(c->s[0] ? c->s : "ctx"); break;
		case 6: puts(c->s); break;
		case 7: return snprintf(b, n, "%s-%d", c->s, c->d);
		case 8: return vs(b, n, "%zu/%s", c->z, c->s);
		case 9: if(c->d > 3) fprintf(stderr, "no args\n"); else fprintf(stdout, "no args\n"); break;
		case 10: { FILE *other = stdin; fprintf(other, "%s", "lost"); break; }
		case 11: puts("x"); puts(c->s); break;
	}
	return 0;
}
#define CLASS(N) static int is_##N(int c) { switch(c) { case N: return 1; default: return 0; } }
CLASS(STRSWITCH_LETTERS_UC) CLASS(STRSWITCH_LETTERS_LC) CLASS(STRSWITCH_LETTERS) CLASS(STRSWITCH_NUMBERS) CLASS(STRSWITCH_ALPHA) CLASS(STRSWITCH_MATH_OPS)
CLASS(STRSWITCH_NON_ALPHA_C) CLASS(STRSWITCH_NON_ALPHA_SH) CLASS(STRSWITCH_NON_ALPHA) CLASS(STRSWITCH_PRINTABLE) CLASS(STRSWITCH_C_PRINTABLE) CLASS(STRSWITCH_SH_PRINTABLE)
const class c36_class[] = {
#define X(N) { #N, is_##N }
	X(STRSWITCH_LETTERS_UC), X(STRSWITCH_LETTERS_LC), X(STRSWITCH_LETTERS), X(STRSWITCH_NUMBERS), X(STRSWITCH_ALPHA), X(STRSWITCH_MATH_OPS),
	X(STRSWITCH_NON_ALPHA_C), X(STRSWITCH_NON_ALPHA_SH), X(STRSWITCH_NON_ALPHA), X(STRSWITCH_PRINTABLE), X(STRSWITCH_C_PRINTABLE), X(STRSWITCH_SH_PRINTABLE), { 0 } };
/* the classes side by side in one switch */
int c36_kind(int c) { switch(c) { case STRSWITCH_LETTERS_UC: return 1; case STRSWITCH_LETTERS_LC: return 2; case STRSWITCH_NUMBERS: return 3; case STRSWITCH_NON_ALPHA: return 4; default: return 0; } }
