#define VF_ALLOC_NO_MACROS
#include "vf_alloc.h"
#include <malloc.h>
#include <stdatomic.h>
#include <stdint.h>

static atomic_long g_live, g_count, g_hits, g_bytes;
static atomic_long g_fail_at = -1;
static atomic_int g_persist;
static atomic_long g_max_one = 256L << 20, g_max_all = 1L << 30;

static int refuse(size_t n) {
  long i = atomic_fetch_add_explicit(&g_count, 1, memory_order_relaxed);
  long at = atomic_load_explicit(&g_fail_at, memory_order_relaxed);
  if (at >= 0 && (i == at || (i > at && atomic_load_explicit(&g_persist, memory_order_relaxed)))) {
    atomic_fetch_add_explicit(&g_hits, 1, memory_order_relaxed);
    return 1;
  }
  // Keep a runaway size from taking the machine down: behave as out of memory.
  if (n > (size_t)atomic_load_explicit(&g_max_one, memory_order_relaxed)) return 1;
  if (atomic_load_explicit(&g_bytes, memory_order_relaxed) + (long)n > atomic_load_explicit(&g_max_all, memory_order_relaxed)) return 1;
  return 0;
}

static void* fresh(size_t n) {
  void* p = malloc(n ? n : 1);
  if (!p) return NULL;
  memset(p, 0xA5, n);
  atomic_fetch_add_explicit(&g_live, 1, memory_order_relaxed);
  atomic_fetch_add_explicit(&g_bytes, (long)n, memory_order_relaxed);
  return p;
}

void* vf_malloc(size_t n) { return refuse(n) ? NULL : fresh(n); }

void* vf_calloc(size_t n, size_t m) {
  if (m && n > SIZE_MAX / m) return NULL;
  if (refuse(n * m)) return NULL;
  void* p = fresh(n * m);
  if (p) memset(p, 0, n * m);
  return p;
}

void vf_free(void* p) {
  if (!p) return;
  atomic_fetch_sub_explicit(&g_live, 1, memory_order_relaxed);
  atomic_fetch_sub_explicit(&g_bytes, (long)malloc_usable_size(p), memory_order_relaxed);
  free(p);
}

void* vf_realloc(void* p, size_t n) {
  if (refuse(n)) return NULL;
  if (!p) return fresh(n);
  size_t old = malloc_usable_size(p);
  void* q = fresh(n);
  if (!q) return NULL;
  memcpy(q, p, old < n ? old : n);
  vf_free(p);
  return q;
}

char* vf_strdup(const char* s) {
  size_t n = strlen(s) + 1;
  char* p = (char*)vf_malloc(n);
  if (p) memcpy(p, s, n);
  return p;
}

long vf_live(void) { return atomic_load(&g_live); }
long vf_alloc_count(void) { return atomic_load(&g_count); }
long vf_fault_hits(void) { return atomic_load(&g_hits); }
void vf_alloc_limit(long one, long all) {
  atomic_store(&g_max_one, one);
  atomic_store(&g_max_all, all);
}
void vf_alloc_reset(void) {
  atomic_store(&g_count, 0);
  atomic_store(&g_hits, 0);
  atomic_store(&g_fail_at, -1);
  atomic_store(&g_persist, 0);
}
void vf_alloc_fail(long nth, int persist) {
  atomic_store(&g_count, 0);
  atomic_store(&g_hits, 0);
  atomic_store(&g_persist, persist);
  atomic_store(&g_fail_at, nth);
}
