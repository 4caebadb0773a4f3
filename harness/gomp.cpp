// A small OpenMP runtime on plain threads, in place of libgomp (whose own synchronisation the race detector
// cannot see).  Every parallel region starts and joins its threads; loops are shared out with relaxed
// counters, which order nothing, so that only what OpenMP promises to order is ordered.
#include <pthread.h>
#include <unistd.h>
#include <time.h>
#include <atomic>
#include <cstdlib>
#include <cstdint>
typedef unsigned long long ull;
enum { SLOTS = 512 };
struct team_t {
    unsigned n; pthread_mutex_t m; pthread_cond_t c; unsigned waiting; unsigned long gen;
    std::atomic<ull> taken[SLOTS];
    team_t(unsigned n) : n(n), waiting(0), gen(0) { pthread_mutex_init(&m, 0); pthread_cond_init(&c, 0); for (auto& t : taken) t.store(0, std::memory_order_relaxed); }
    ~team_t() { pthread_cond_destroy(&c); pthread_mutex_destroy(&m); }
};
struct me_t { team_t* team; unsigned id; unsigned ws; ull start, step, count, chunk; bool neg; int kind; bool done; ull round; };
static thread_local me_t me = {0, 0, 0, 0, 0, 0, 0, false, 0, false, 0};
static unsigned dflt() { static std::atomic<unsigned> d(0); if (!d.load()) { const char* e = getenv("OMP_NUM_THREADS"); d = e ? atoi(e) : 4; if (!d.load()) d = 4; } return d; }
static std::atomic<unsigned> want(0);
static unsigned size_() { return me.team ? me.team->n : 1; }
struct arg_t { void (*f)(void*); void* a; team_t* t; unsigned id; const me_t* init; };
static void* member(void* p) { arg_t a = *(arg_t*) p; if (a.init) me = *a.init; me.team = a.t; me.id = a.id; a.f(a.a); return 0; }
static void region(void (*f)(void*), void* a, unsigned n, const me_t* init) {
    if (!n) n = want.load() ? want.load() : dflt();
    if (me.team) n = 1;                                    // nested regions have one thread
    team_t* t = new team_t(n); me_t saved = me;
    arg_t* as = new arg_t[n]; pthread_t* th = new pthread_t[n];
    for (unsigned i = 0; i < n; i++) { arg_t x = {f, a, t, i, init}; as[i] = x; }
    for (unsigned i = 1; i < n; i++) if (pthread_create(&th[i], 0, member, &as[i])) abort();
    if (init) me = *init; me.team = t; me.id = 0; if (!init) { me.ws = 0; me.done = false; }
    f(a);
    for (unsigned i = 1; i < n; i++) pthread_join(th[i], 0);
    me = saved; delete[] th; delete[] as; delete t;
}
static bool grab(ull& b, ull& e) {                         // iterations b..e of the current loop
    if (!me.count) return false;
    unsigned n = size_();
    if (me.kind == 1) {                                    // static
        if (!me.chunk) { if (me.done) return false; me.done = true; ull q = me.count/n, r = me.count%n; b = me.id*q + (me.id < r ? me.id : r); e = b + q + (me.id < r); return e > b; }
        b = (me.id + n*me.round++)*me.chunk; if (b >= me.count) return false;   // chunks in turn
        e = b + me.chunk < me.count ? b + me.chunk : me.count; return true;
    }
    ull c = me.chunk ? me.chunk : 1;
    if (!me.team) { if (me.done) return false; me.done = true; b = 0; e = me.count; return true; }
    b = ((me.id + me.ws) % n + n*me.round++)*c;            // dynamic: any sharing out is legal, and this one gives every thread its part of short loops
    if (b >= me.count) return false;
    e = b + c < me.count ? b + c : me.count; return true;
}
static void set(int kind, bool up, ull start, ull end, ull incr, ull chunk) {   // incr as unsigned, may be "negative"
    me.kind = kind; me.start = start; me.step = incr; me.chunk = chunk; me.done = false; me.round = 0; me.neg = !up;
    if (up) me.count = start < end ? (end - start + incr - 1)/incr : 0; else { ull d = 0 - incr; me.count = start > end ? (start - end + d - 1)/d : 0; }
}
static void setl(int kind, long start, long end, long incr, long chunk) {
    me.kind = kind; me.start = (ull) start; me.step = (ull) incr; me.chunk = (ull) chunk; me.done = false; me.round = 0; me.neg = incr < 0;
    if (incr > 0) me.count = start < end ? ((ull) end - (ull) start + incr - 1)/incr : 0; else me.count = start > end ? ((ull) start - (ull) end + (ull) -incr - 1)/(ull) -incr : 0;
}
template <typename T> static bool next(T* is, T* ie) { ull b, e; if (!grab(b, e)) return false; *is = (T) (me.start + b*me.step); *ie = (T) (me.start + e*me.step); return true; }
static void barrier() {
    team_t* t = me.team; if (!t || t->n == 1) return;
    pthread_mutex_lock(&t->m); unsigned long g = t->gen;
    if (++t->waiting == t->n) { t->waiting = 0; t->gen++; pthread_cond_broadcast(&t->c); }
    else while (t->gen == g) pthread_cond_wait(&t->c, &t->m);
    pthread_mutex_unlock(&t->m);
}
static void endws() { me.ws++; me.count = 0; }
static pthread_mutex_t crit = PTHREAD_MUTEX_INITIALIZER, atom = PTHREAD_MUTEX_INITIALIZER, named = PTHREAD_MUTEX_INITIALIZER;
extern "C" {
void GOMP_parallel(void (*f)(void*), void* a, unsigned n, unsigned) { region(f, a, n, 0); }
void GOMP_barrier() { barrier(); }
void GOMP_critical_start() { pthread_mutex_lock(&crit); }
void GOMP_critical_end() { pthread_mutex_unlock(&crit); }
static pthread_mutex_t* of(void** p) {
    pthread_mutex_lock(&named); if (!*p) { pthread_mutex_t* m = new pthread_mutex_t; pthread_mutex_init(m, 0); *p = m; } pthread_mutex_t* m = (pthread_mutex_t*) *p; pthread_mutex_unlock(&named); return m; }
void GOMP_critical_name_start(void** p) { pthread_mutex_lock(of(p)); }
void GOMP_critical_name_end(void** p) { pthread_mutex_unlock(of(p)); }
void GOMP_atomic_start() { pthread_mutex_lock(&atom); }
void GOMP_atomic_end() { pthread_mutex_unlock(&atom); }
bool GOMP_single_start() { if (!me.team) return true; ull first = me.team->taken[me.ws % SLOTS].fetch_add(1, std::memory_order_relaxed); me.ws++; return first == 0; }
#define LONG(name, kind) \
    bool GOMP_loop_##name##_start(long s, long e, long i, long c, long* a, long* b) { setl(kind, s, e, i, c); return next(a, b); } \
    bool GOMP_loop_##name##_next(long* a, long* b) { return next(a, b); }
#define ULL(name, kind) \
    bool GOMP_loop_ull_##name##_start(bool up, ull s, ull e, ull i, ull c, ull* a, ull* b) { set(kind, up, s, e, i, c); return next(a, b); } \
    bool GOMP_loop_ull_##name##_next(ull* a, ull* b) { return next(a, b); }
#define LONGR(name) \
    bool GOMP_loop_##name##_start(long s, long e, long i, long* a, long* b) { setl(2, s, e, i, 1); return next(a, b); } \
    bool GOMP_loop_##name##_next(long* a, long* b) { return next(a, b); }
#define ULLR(name) \
    bool GOMP_loop_ull_##name##_start(bool up, ull s, ull e, ull i, ull* a, ull* b) { set(2, up, s, e, i, 1); return next(a, b); } \
    bool GOMP_loop_ull_##name##_next(ull* a, ull* b) { return next(a, b); }
LONG(static, 1) LONG(dynamic, 2) LONG(guided, 2) LONG(nonmonotonic_dynamic, 2) LONG(nonmonotonic_guided, 2)
ULL(static, 1) ULL(dynamic, 2) ULL(guided, 2) ULL(nonmonotonic_dynamic, 2) ULL(nonmonotonic_guided, 2)
LONGR(runtime) LONGR(nonmonotonic_runtime) LONGR(maybe_nonmonotonic_runtime)
ULLR(runtime) ULLR(nonmonotonic_runtime) ULLR(maybe_nonmonotonic_runtime)
#define PLOOP(name, kind) void GOMP_parallel_loop_##name(void (*f)(void*), void* a, unsigned n, long s, long e, long i, long c, unsigned) { \
    me_t saved = me; setl(kind, s, e, i, c); me_t in = me; me = saved; in.ws = 0; in.team = 0; in.done = false; in.round = 0; region(f, a, n, &in); }
PLOOP(static, 1) PLOOP(dynamic, 2) PLOOP(guided, 2) PLOOP(nonmonotonic_dynamic, 2) PLOOP(nonmonotonic_guided, 2)
#define PLOOPR(name) void GOMP_parallel_loop_##name(void (*f)(void*), void* a, unsigned n, long s, long e, long i, unsigned) { \
    me_t saved = me; setl(2, s, e, i, 1); me_t in = me; me = saved; in.ws = 0; in.team = 0; in.done = false; in.round = 0; region(f, a, n, &in); }
PLOOPR(runtime) PLOOPR(nonmonotonic_runtime) PLOOPR(maybe_nonmonotonic_runtime)
void GOMP_loop_end() { endws(); barrier(); }
void GOMP_loop_end_nowait() { endws(); }
unsigned GOMP_sections_start(unsigned n) { setl(2, 1, (long) n + 1, 1, 1); long a, b; return next(&a, &b) ? (unsigned) a : 0; }
unsigned GOMP_sections_next() { long a, b; return next(&a, &b) ? (unsigned) a : 0; }
void GOMP_sections_end() { endws(); barrier(); }
void GOMP_sections_end_nowait() { endws(); }
void GOMP_parallel_sections(void (*f)(void*), void* a, unsigned n, unsigned c, unsigned) {
    me_t saved = me; setl(2, 1, (long) c + 1, 1, 1); me_t in = me; me = saved; in.ws = 0; in.team = 0; in.done = false; in.round = 0; region(f, a, n, &in); }
int omp_get_num_threads() { return (int) size_(); }
int omp_get_thread_num() { return (int) me.id; }
int omp_get_max_threads() { return (int) (want.load() ? want.load() : dflt()); }
void omp_set_num_threads(int n) { want = n > 0 ? (unsigned) n : 1; }
int omp_get_num_procs() { return (int) sysconf(_SC_NPROCESSORS_ONLN); }
int omp_in_parallel() { return me.team && me.team->n > 1; }
void omp_set_dynamic(int) {} int omp_get_dynamic() { return 0; }
void omp_set_nested(int) {} int omp_get_nested() { return 0; }
int omp_get_level() { return me.team ? 1 : 0; } int omp_get_thread_limit() { return 1024; }
double omp_get_wtime() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec*1e-9; }
double omp_get_wtick() { return 1e-9; }
typedef struct { pthread_mutex_t* m; } lock_t;
void omp_init_lock(lock_t* l) { l->m = new pthread_mutex_t; pthread_mutex_init(l->m, 0); }
void omp_destroy_lock(lock_t* l) { pthread_mutex_destroy(l->m); delete l->m; }
void omp_set_lock(lock_t* l) { pthread_mutex_lock(l->m); }
void omp_unset_lock(lock_t* l) { pthread_mutex_unlock(l->m); }
int omp_test_lock(lock_t* l) { return pthread_mutex_trylock(l->m) == 0; }
}
