#include "alloc.hh"
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cerrno>
#include <malloc.h>
AllocCtl g_alloc;
long g_work;
extern "C" void __sanitizer_cov_trace_pc() { ++g_work; }
#ifndef EXACT
extern "C" { void* __libc_malloc(size_t); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void __libc_free(void*); }
static inline bool deny() {
    if (!g_alloc.armed) return false;
    ++g_alloc.count;
    if (g_alloc.fail_at > 0 && (g_alloc.count == g_alloc.fail_at || (g_alloc.fail_after && g_alloc.count > g_alloc.fail_at))) { g_alloc.failed = true; errno = ENOMEM; return true; }
    return false;
}
static inline void took(void* p) { if (!p || !g_alloc.armed) return; ++g_alloc.live; g_alloc.bytes += malloc_usable_size(p); if (g_alloc.bytes > g_alloc.peak) g_alloc.peak = g_alloc.bytes; }
static inline void gave(void* p) { if (p && g_alloc.armed) { --g_alloc.live; g_alloc.bytes -= malloc_usable_size(p); } }
extern "C" void* malloc(size_t n) {
    if (deny()) return nullptr;
    void* p = __libc_malloc(n); took(p); if (p && g_alloc.armed && g_alloc.fill >= 0) memset(p, g_alloc.fill, n);
    return p;
}
extern "C" void* calloc(size_t a, size_t b) { if (deny()) return nullptr; void* p = __libc_calloc(a, b); took(p); return p; }
extern "C" void* realloc(void* q, size_t n) { if (n && deny()) return nullptr; gave(q); void* p = __libc_realloc(q, n); if (p) took(p); else if (n) took(q); return p; }
extern "C" void free(void* p) { gave(p); if (p && g_alloc.armed && g_alloc.fill >= 0) memset(p, g_alloc.fill ^ 0xff, malloc_usable_size(p)); __libc_free(p); } // nothing survives being freed
#endif
