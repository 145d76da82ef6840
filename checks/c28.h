typedef struct { const char *name; size_t n, es, psize; void *pool; void (*init)(void); void *(*alloc)(size_t); void (*free)(void*); void *(*fnull)(void*); } poolcfg;
