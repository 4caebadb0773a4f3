// Node memory from the ordinary heap, so that the sanitizers and memcheck know its bounds and its end.
#include "perturb.hpp"
#include <cstdlib>
#include <cstddef>
extern "C" {
void* __wrap_numa_alloc_onnode(size_t n, int) { return calloc(1, n); }
void* __wrap_numa_alloc_local(size_t n) { return calloc(1, n); }
void* __wrap_numa_alloc(size_t n) { return calloc(1, n); }
void* __wrap_numa_alloc_interleaved(size_t n) { return calloc(1, n); }
void __wrap_numa_free(void* p, size_t) { free(p); }
}
live_counts_t live_counts() { live_counts_t c = {0, 0, 0}; return c; }
