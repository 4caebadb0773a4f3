// Exact numbers of live objects: operator new and delete, malloc and free called from the code
// under test, and memory from libnuma.  Not with the sanitizers, which replace the same functions.
#include "perturb.hpp"
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__)
#include <atomic>
#include <cstdlib>
#include <cstddef>
#include <new>
static std::atomic<long> nnew(0), nmal(0), nnuma(0);
static thread_local int in_new = 0;
extern "C" {
void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t); void __real_free(void*);
void* __wrap_malloc(size_t n) { void* p = __real_malloc(n); if (p) nmal++; return p; }
void* __wrap_calloc(size_t n, size_t m) { void* p = __real_calloc(n, m); if (p) nmal++; return p; }
void* __wrap_realloc(void* q, size_t n) { void* p = __real_realloc(q, n); if (!q && p) nmal++; return p; }
void __wrap_free(void* p) { if (p) nmal--; __real_free(p); }
void* __real_numa_alloc_onnode(size_t, int); void* __real_numa_alloc_local(size_t); void* __real_numa_alloc(size_t); void* __real_numa_alloc_interleaved(size_t);
void __real_numa_free(void*, size_t);
void* __wrap_numa_alloc_onnode(size_t n, int d) { void* p = __real_numa_alloc_onnode(n, d); if (p) nnuma++; return p; }
void* __wrap_numa_alloc_local(size_t n) { void* p = __real_numa_alloc_local(n); if (p) nnuma++; return p; }
void* __wrap_numa_alloc(size_t n) { void* p = __real_numa_alloc(n); if (p) nnuma++; return p; }
void* __wrap_numa_alloc_interleaved(size_t n) { void* p = __real_numa_alloc_interleaved(n); if (p) nnuma++; return p; }
void __wrap_numa_free(void* p, size_t n) { if (p) nnuma--; __real_numa_free(p, n); }
}
void* operator new(size_t n) { void* p = __real_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); nnew++; return p; }
void* operator new[](size_t n) { void* p = __real_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); nnew++; return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { void* p = __real_malloc(n ? n : 1); if (p) nnew++; return p; }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { void* p = __real_malloc(n ? n : 1); if (p) nnew++; return p; }
void operator delete(void* p) noexcept { if (p) nnew--; __real_free(p); }
void operator delete[](void* p) noexcept { if (p) nnew--; __real_free(p); }
void operator delete(void* p, size_t) noexcept { if (p) nnew--; __real_free(p); }
void operator delete[](void* p, size_t) noexcept { if (p) nnew--; __real_free(p); }
live_counts_t live_counts() { live_counts_t c = {nnew, nmal, nnuma}; return c; }
#else
live_counts_t live_counts() { live_counts_t c = {0, 0, 0}; return c; }
#endif
