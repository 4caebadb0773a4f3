// P32: random streams split over processes against the undivided stream
#include "u.hpp"
#include "util.hpp"
using namespace knor::base;

template <typename T> static void stream_case(const char* type) {
    size_t lo = P(.5) ? 0 : U(0, 50), hi = lo + (P(.3) ? U(0, 4) : P(.5) ? U(0, 1000) : U(0, 2000000000)), procs = U(1, 20), len = U(1, 120), seed = U(0, 1u << 30); bool dflt = P(.3); if (dflt) seed = 1234;
    cur_case = fmt("%s stream of [%zu,%zu] over %zu", type, lo, hi, procs); mix(lo); mix(hi); mix(procs); mix(seed); mix(len); stat("streams");
    // undivided
    mpi_random_generator<T> one = dflt ? mpi_random_generator<T>(lo, hi, 0, 1) : mpi_random_generator<T>(lo, hi, 0, 1, seed);
    std::vector<T> s(len*procs); for (auto& x : s) x = one.next();
    std::vector<T> o = s; std::sort(o.begin(), o.end());
    check(o.front() >= (T) lo && o.back() <= (T) hi, "range", "%zu..%zu drawn", (size_t) o.front(), (size_t) o.back());
    if (s.size() >= 60*(hi - lo + 1)) { stat("small ranges"); o.erase(std::unique(o.begin(), o.end()), o.end()); check(o.size() == hi - lo + 1, "range", "only %zu of %zu values drawn in %zu", o.size(), hi - lo + 1, s.size()); }
    if (hi - lo > 100000 && s.size() > 20) check(std::count(s.begin(), s.end(), s[0]) < (long) s.size()/4, "range", "the stream is constant");
    // divided, in any order of the processes
    std::vector<size_t> ord(procs); for (size_t i = 0; i < procs; i++) ord[i] = i; std::shuffle(ord.begin(), ord.end(), G);
    for (size_t r : ord) {
        mpi_random_generator<T> g = dflt ? mpi_random_generator<T>(lo, hi, r, procs) : mpi_random_generator<T>(lo, hi, r, procs, seed);
        for (size_t i = 0; i < len; i++) { T x = g.next(); stat("draws"); if (x != s[i*procs+r]) { check(false, "interleaving", "draw %zu of process %zu of %zu is %zu, in the undivided stream it is %zu", i, r, procs, (size_t) x, (size_t) s[i*procs+r]); break; } }
    }
    check(true, "interleaving", "");
    // skipping forward
    rand123emulator<T> z = dflt ? rand123emulator<T>(lo, hi, 0) : rand123emulator<T>(lo, hi, 0, seed); std::vector<T> w(s.size()); for (auto& x : w) x = z.next();
    std::vector<T> v = w; std::sort(v.begin(), v.end()); check(v.front() >= (T) lo && v.back() <= (T) hi, "range", "%zu..%zu drawn", (size_t) v.front(), (size_t) v.back());
    for (int t = 0; t < 4; t++) { size_t skip = t == 0 ? 0 : U(0, w.size()-1); rand123emulator<T> g = dflt ? rand123emulator<T>(lo, hi, skip) : rand123emulator<T>(lo, hi, skip, seed);
        bool ok = true; size_t i = skip; for (; i < w.size() && ok; i++) ok = g.next() == w[i]; check(ok, "skipping", "a stream begun at draw %zu differs at draw %zu from the stream begun at 0", skip, i - 1); }
}

static void one_case() { if (P(.5)) stream_case<unsigned>("unsigned"); else if (P(.5)) stream_case<size_t>("size_t"); else stream_case<int>("int"); }
