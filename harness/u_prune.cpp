// P33: records of pruning and activity against a model
#include "u.hpp"
#include <thread>
#include <fstream>
#include "prune_stats.hpp"
using namespace knor::base;
typedef std::vector<size_t> VZ;

static void stats_case() {
    size_t n = U(1, 2000), k = U(1, 30), parts = U(1, 6), iters = U(1, 8); cur_case = fmt("pruning of %zux%zu by %zu threads", n, k, parts); stat("pruning records"); mix(n); mix(k);
    prune_stats::ptr g = prune_stats::create(n, k); std::vector<prune_stats::ptr> th; size_t tot[5] = {0, 0, 0, 0, 0};
    for (size_t it = 0; it < iters; it++) {
        size_t left = n*k, sum[5] = {0, 0, 0, 0, 0}; th.clear();
        for (size_t p = 0; p < parts; p++) {
            prune_stats::ptr s = prune_stats::create(n, k); size_t m[5] = {0, 0, 0, 0, 0}, ops = U(0, std::min<size_t>(left, 40));
            for (size_t i = 0; i < ops && left; i++) { left--;
                switch (U(0, 5)) { case 0: s->pp_lemma1(); m[0]++; break; case 1: { size_t v = U(0, left); v = std::min<size_t>(v, k); left -= v; s->pp_lemma1(v); m[0] += v; break; }
                    case 2: s->pp_3a(); m[1]++; break; case 3: s->pp_3b(); m[2]++; break; case 4: s->pp_3c(); m[3]++; break; default: s->pp_4(); m[4]++; } }
            check(s->get_lemma1() == m[0] && s->get_3a() == m[1] && s->get_3b() == m[2] && s->get_3c() == m[3] && s->get_4() == m[4], "counts", "a record holds %zu %zu %zu %zu %zu instead of %zu %zu %zu %zu %zu", s->get_lemma1(), s->get_3a(), s->get_3b(), s->get_3c(), s->get_4(), m[0], m[1], m[2], m[3], m[4]);
            th.push_back(s); for (int i = 0; i < 5; i++) { sum[i] += m[i]; mix(m[i]); }
        }
        for (auto& s : th) (*g) += *s;
        check(g->get_lemma1() == sum[0] && g->get_3a() == sum[1] && g->get_3b() == sum[2] && g->get_3c() == sum[3] && g->get_4() == sum[4], "sum", "the sum of %zu records is wrong in iteration %zu", parts, it);
        g->finalize(); for (int i = 0; i < 5; i++) tot[i] += sum[i];
        check(!g->get_lemma1() && !g->get_3a() && !g->get_3b() && !g->get_3c() && !g->get_4(), "finalize", "the counts of an iteration are kept for the next");
        if (P(.4) || it + 1 == iters) { std::vector<double> v = g->get_stats(); stat("percentages", 6); ld all = 0, d = (ld) n*(it+1)*k; check(v.size() == 6, "percentages", "%zu", v.size()); if (v.size() != 6) return;
            for (int i = 0; i < 5; i++) { all += tot[i]; check(near_(v[i], 100*tot[i]/d, 1e-10L), "percentages", "number %d after %zu iterations is %.15g instead of %.15Lg", i, it + 1, v[i], 100*tot[i]/d); }
            check(near_(v[5], 100*all/d, 1e-10L), "percentages", "total after %zu iterations is %.15g instead of %.15Lg", it + 1, v[5], 100*all/d); }
    }
}

static void activation_case() {
    size_t T = U(1, 6), iters = U(1, 10); cur_case = fmt("activations of %zu threads in %zu iterations", T, iters); stat("activation records"); activation_counter::ptr c = activation_counter::create(T); VZ want;
    for (size_t i = 0; i < iters; i++) { VZ m(T); size_t s = 0; for (auto& x : m) { x = U(0, 200); s += x; mix(x); }
        if (P(.2)) { std::vector<std::thread> th; for (size_t t = 0; t < T; t++) th.emplace_back([&, t] { for (size_t j = 0; j < m[t]; j++) c->active(t); }); for (auto& t : th) t.join(); stat("recorded by threads"); }
        else for (size_t t = 0; t < T; t++) for (size_t j = 0; j < m[t]; j++) c->active(t);
        c->complete(); want.push_back(s); check(c->get_active_count_per_iter() == want, "activations", "iteration %zu of %zu", i, iters); }
}

static void active_case() {
    size_t n = U(1, 30), iters = U(1, 8); cur_case = fmt("activity of %zu rows in %zu iterations", n, iters); stat("activity records"); active_counter::ptr c = active_counter::create(n);
    std::vector<std::vector<bool>> both(1, std::vector<bool>(n)); std::vector<bool> prev(n); double p = R(0, 1);
    for (size_t i = 0; i < iters; i++) { if (i) { c->init_iter(); both.push_back(std::vector<bool>(n)); }
        for (size_t r = 0; r < n; r++) { bool a = P(p); mix(a); c->is_active(r, a); both.back()[r] = a && prev[r]; prev[r] = a; } }
    size_t rows = P(.5) ? n : U(1, 40), m = std::min(rows, n); char d[] = "/tmp/knorvXXXXXX"; if (!mkdtemp(d)) exit(97); std::string fn = std::string(d) + "/f";
    auto read = [&] { std::ifstream f(fn); std::vector<VZ> v; std::string l; while (std::getline(f, l)) { for (auto& ch : l) if (ch == ',') ch = ' '; std::istringstream is(l); VZ w; size_t x; while (is >> x) w.push_back(x); v.push_back(w); } return v; };
    c->write_raw(fn, rows); std::vector<VZ> v = read(); stat("files", 2); check(v.size() == m, "raw", "%zu lines for %zu rows", v.size(), m);
    for (size_t r = 0; r < v.size() && v.size() == m; r++) { VZ w{r}; for (auto& b : both) w.push_back(b[r]); check(v[r] == w, "raw", "row %zu of %zu", r, m); }
    c->write_consolidated(fn, rows); v = read(); std::map<VZ, size_t> want, got; size_t sum = 0; for (size_t r = 0; r < m; r++) { VZ w; for (auto& b : both) w.push_back(b[r]); want[w]++; }
    for (auto& w : v) { if (w.empty()) continue; got[VZ(w.begin()+1, w.end())] += w[0]; sum += w[0]; }
    check(got == want && v.size() == want.size(), "consolidated", "%zu patterns of %zu rows instead of %zu of %zu", v.size(), sum, want.size(), m);
    unlink(fn.c_str()); rmdir(d);
}

static void one_case() { double p = R(0, 1); if (p < .5) stats_case(); else if (p < .75) activation_case(); else active_case(); }
