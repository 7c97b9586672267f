/* Stand-in for boehm-gc/include/gc.h in the replay library: every allocation is a zeroed
   malloc block (so AddressSanitizer sees exact sizes) and nothing is collected. */
#ifndef VH_GC_H
#define VH_GC_H
#include <stddef.h>
void *vh_malloc(size_t n);
void *vh_malloc_atomic(size_t n);
void *vh_realloc(void *p, size_t n);
#define GC_malloc(n)        vh_malloc(n)
#define GC_malloc_atomic(n) vh_malloc_atomic(n)
#define GC_MALLOC(n)        vh_malloc(n)
static inline void *GC_realloc(void *p, size_t n) { return vh_realloc(p, n); }
#define GC_add_roots(a, b)  ((void) 0)
#define GC_register_finalizer(o, p, a, b, c) ((void) 0)
static inline void GC_init(void) { }
static inline void GC_deinit(void) { }
#define GC_disable()        ((void) 0)
#define GC_enable()         ((void) 0)
#endif
