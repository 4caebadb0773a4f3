#include "perturb.hpp"
#include <pthread.h>
#include <sched.h>
#include <time.h>
#include <cstdlib>
#include <atomic>

static std::atomic<unsigned long> injected(0), nthr(0);
static std::atomic<long> created(0), joined(0), ended(0);
static unsigned long seed = 0;
static int level = 0;      // 0 off, 1 yields, 2 short sleeps, 3 long sleeps
static int bias = 0;       // 1 delay wakers, 2 delay workers after waking, 3 delay before locking, 4 delay before waiting
static thread_local unsigned long st = 0;

void perturb_config(const std::string& s) {
    level = 0; if (s.empty()) return;
    seed = strtoul(s.c_str(), 0, 10);
    size_t p = s.find(':'); level = p == std::string::npos ? 2 : atoi(s.c_str() + p + 1);
    if (p != std::string::npos) { p = s.find(':', p + 1); if (p != std::string::npos) bias = atoi(s.c_str() + p + 1); }
    st = 0; nthr = 0;
}
unsigned long perturb_count() { return injected; }

static unsigned long rnd() {
    if (!st) st = (seed + 1)*0x9E3779B97F4A7C15ul + (nthr++)*0xD1342543DE82EF95ul + 1;
    st ^= st << 13; st ^= st >> 7; st ^= st << 17;
    return st;
}
static void delay(int site) {
    if (!level) return;
    unsigned long r = rnd();
    int p = 4; // of 16
    if (bias && bias == site) p = 12; else if (bias) p = 1;
    if ((int) (r & 15) >= p) return;
    injected++;
    r >>= 8;
    if (level == 1 || (r & 3) == 0) { for (unsigned i = 0; i < (r >> 2) % 4 + 1; i++) sched_yield(); return; }
    long us = level == 2 ? (long) ((r >> 2) % 120) : (long) ((r >> 2) % 2500);
    timespec t = {0, us*1000}; nanosleep(&t, 0);
}

extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __real_pthread_cond_wait(pthread_cond_t*, pthread_mutex_t*);
int __real_pthread_cond_signal(pthread_cond_t*);
int __real_pthread_create(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);

int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { delay(3); return __real_pthread_mutex_lock(m); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { int r = __real_pthread_mutex_unlock(m); delay(1); return r; }
int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    // a spurious wake-up is allowed at any time
    if (level && (rnd() & 63) == 0) { int u = __real_pthread_mutex_unlock(m); if (u) return u; delay(2); return __real_pthread_mutex_lock(m); }
    delay(4);       // after the condition was tested, before the wait: a wake-up now must not be lost
    int r = __real_pthread_cond_wait(c, m); delay(2); return r; }
int __wrap_pthread_cond_signal(pthread_cond_t* c) { delay(1); int r = __real_pthread_cond_signal(c); delay(1); return r; }

struct tramp { void* (*f)(void*); void* a; };
struct guard_t { bool on; guard_t() : on(false) {} ~guard_t() { if (on) ended++; } };
static thread_local guard_t guard;     // destroyed when the thread ends, however it does
static void* start(void* p) { tramp t = *(tramp*) p; delete (tramp*) p; guard.on = true; delay(2); return t.f(t.a); }
int __wrap_pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* arg) {
    tramp* tr = new tramp; tr->f = f; tr->a = arg;
    int r = __real_pthread_create(t, a, start, tr);
    if (r) delete tr; else created++;
    delay(1);
    return r; }
// OpenMP: the threads of a team arrive in any order
void __real_GOMP_parallel(void (*)(void*), void*, unsigned, unsigned);
void __real_GOMP_critical_start(void);
void __real_GOMP_critical_name_start(void**);
struct omp_tramp { void (*f)(void*); void* a; };
static void omp_start(void* p) { omp_tramp* t = (omp_tramp*) p; delay(2); t->f(t->a); }
void __wrap_GOMP_parallel(void (*f)(void*), void* a, unsigned n, unsigned flags) {
    omp_tramp t = {f, a}; __real_GOMP_parallel(omp_start, &t, n, flags); }
void __wrap_GOMP_critical_start(void) { delay(3); __real_GOMP_critical_start(); }
void __wrap_GOMP_critical_name_start(void** p) { delay(3); __real_GOMP_critical_name_start(p); }
int __real_pthread_join(pthread_t, void**);
int __wrap_pthread_join(pthread_t t, void** v) { int r = __real_pthread_join(t, v); if (!r) joined++; return r; }
}
thread_counts_t thread_counts() { thread_counts_t c = {created, joined, ended}; return c; }
