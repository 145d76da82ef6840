/* one configuration of the included-source pool allocator */
#include "ssalloc.c"
#include "c28.h"
static void i_(void) { SSINIT; }
static void *a_(size_t n) { return SSALLOC(n); }
static void f_(void *p) { SSFREE(p); }
static void *n_(void *p) { void *q[3] = { (void*)n_, p, (void*)n_ }; SSNULL(q[1]); return q[0] == (void*)n_ && q[2] == (void*)n_ ? q[1] : (void*)-1; }
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#define STR_(x) #x
#define STR(x) STR_(x)
const poolcfg CAT(pool_, CFG) = { STR(SSA_MAXELEM) "x" STR(SSA_ELEMSIZE), SSA_MAXELEM, SSA_ELEMSIZE, sizeof SSA_POOL, &SSA_POOL, i_, a_, f_, n_ };
