// malloc of the program and of the libraries it uses: a fill pattern, and failures at chosen points; included by one file
#pragma once
#include <stdlib.h>
#include <string.h>
#include <malloc.h>
extern "C" void *__interceptor_malloc(size_t); extern "C" void *__interceptor_calloc(size_t, size_t); extern "C" void *__interceptor_realloc(void *, size_t);
static int g_fill = -1;
static bool g_count = false; static long g_allocs = 0, g_fail_at = -1, g_failed = 0; static bool g_fail_all = false;
static inline bool alloc_fails() {
    if (!g_count) return false;
    long n = g_allocs++;
    if (g_fail_at < 0 || (g_fail_all ? n < g_fail_at : n != g_fail_at)) return false;
    g_failed++; return true;
}
static long g_live = 0;   // blocks held
extern "C" void *malloc(size_t n) noexcept { if (alloc_fails()) return nullptr; void *p = __interceptor_malloc(n); if (p) g_live++; if (p && g_fill >= 0 && n < 1 << 22) memset(p, g_fill, n); return p; }
extern "C" void *calloc(size_t a, size_t b) noexcept { if (alloc_fails()) return nullptr; void *p = __interceptor_calloc(a, b); if (p) g_live++; return p; }
extern "C" void __interceptor_free(void *);
extern "C" void __asan_poison_memory_region(void const volatile *, size_t); extern "C" void __asan_unpoison_memory_region(void const volatile *, size_t);
// large blocks that grow keep room to grow (poisoned), as otherwise each small step would copy everything
struct AllocBig { void *p; size_t n, cap; }; static AllocBig g_big[64]; static int g_bigs = 0;
static inline AllocBig *alloc_big(void *p) { for (int i = 0; i < g_bigs; i++) if (g_big[i].p == p) return &g_big[i]; return nullptr; }
extern "C" void free(void *p) noexcept { if (p) g_live--; if (g_bigs) if (AllocBig *b = alloc_big(p)) { __asan_unpoison_memory_region(p, b->cap); *b = g_big[--g_bigs]; } __interceptor_free(p); }
extern "C" void *realloc(void *q, size_t n) noexcept {
    if (n && alloc_fails()) return nullptr;
    AllocBig *b = q && g_bigs ? alloc_big(q) : nullptr; size_t old = b ? b->n : q && (g_fill >= 0 || n > 8192) ? malloc_usable_size(q) : 0; void *p;
    if (b && n && n <= b->cap) { __asan_unpoison_memory_region(q, b->cap); __asan_poison_memory_region((char *)q + n, b->cap - n); b->n = n; p = q; }
    else if (q && n > 8192 && n > old && n < 1 << 28 && (b || g_bigs < 64)) {
        size_t cap = n * 2; p = __interceptor_malloc(cap); if (!p) return nullptr;
        memcpy(p, q, old); if (b) __asan_unpoison_memory_region(q, b->cap); __interceptor_free(q); if (!b) b = &g_big[g_bigs++]; *b = {p, n, cap}; __asan_poison_memory_region((char *)p + n, cap - n);
    }
    else { if (b) { __asan_unpoison_memory_region(q, b->cap); *b = g_big[--g_bigs]; } p = __interceptor_realloc(q, n); if (!q && p) g_live++; if (q && !n) g_live--; }
    if (p && g_fill >= 0 && n > old && n < 1 << 22) memset((char *)p + old, g_fill, n - old);
    return p;
}
extern "C" char *strdup(const char *x) noexcept { size_t n = strlen(x) + 1; char *p = (char *)malloc(n); if (p) memcpy(p, x, n); return p; }
extern "C" char *strndup(const char *x, size_t k) noexcept { size_t n = strnlen(x, k); char *p = (char *)malloc(n + 1); if (p) { memcpy(p, x, n); p[n] = 0; } return p; }
