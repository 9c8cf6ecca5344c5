// Force-included into every library translation unit: routes the allocator
// through counting / fault-injecting / poisoning wrappers (vf_alloc.c).
#ifndef VF_ALLOC_H
#define VF_ALLOC_H
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
#ifdef __cplusplus
#include <cstdlib>
#include <cstring>
extern "C" {
#endif
void* vf_malloc(size_t n);
void* vf_calloc(size_t n, size_t m);
void* vf_realloc(void* p, size_t n);
void vf_free(void* p);
char* vf_strdup(const char* s);

// control
long vf_live(void);           // allocations currently outstanding
long vf_alloc_count(void);    // allocation requests since the last reset
void vf_alloc_reset(void);    // zero the request counter, disable faults
void vf_alloc_fail(long nth, int persist);  // nth request (0-based from reset) fails
void vf_alloc_limit(long one, long all);  // bytes in one allocation and in all of them
long vf_fault_hits(void);     // how many requests were refused since reset
#ifdef __cplusplus
}
#endif
#ifndef VF_ALLOC_NO_MACROS
#undef malloc
#undef calloc
#undef realloc
#undef free
#undef strdup
#define malloc vf_malloc
#define calloc vf_calloc
#define realloc vf_realloc
#define free vf_free
#define strdup vf_strdup
#endif
#endif
