#include <stddef.h>
typedef struct { int d, e, fd; unsigned u; long l; size_t z; char c; const char *s; } call;
typedef struct { const char *name; int (*f)(int); } class;
long c36_call(int k, const call *c, char *b, size_t n);
extern const class c36_class[];
int c36_kind(int c);
#define NCALL 12
