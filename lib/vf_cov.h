/* Force-included into every library translation unit of the "cov" variant: bulk memory
   functions report their ranges like the instrumented loads and stores do. */
#ifndef VF_COV_H
#define VF_COV_H
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#ifdef __cplusplus
#include <cmath>
#include <cstdio>
#include <cstring>
#include <algorithm>
#include <limits>
#include <system_error>
extern "C" {
#endif
void* vf_memcpy(void* d, const void* s, size_t n);
void* vf_memmove(void* d, const void* s, size_t n);
void* vf_memset(void* d, int c, size_t n);
int vf_snprintf(char* d, size_t n, const char* f, ...);
int vf_vsnprintf(char* d, size_t n, const char* f, va_list a);
#ifdef __cplusplus
}
#endif
#undef memcpy
#undef memmove
#undef memset
#undef snprintf
#undef vsnprintf
#define memcpy vf_memcpy
#define memmove vf_memmove
#define memset vf_memset
#define snprintf vf_snprintf
#define vsnprintf vf_vsnprintf
#endif
