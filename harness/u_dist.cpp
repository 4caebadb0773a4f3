// Monitor of the distance functions and of the inter-centroid distance matrix.
#include "u.hpp"
#include <sys/wait.h>
#include <signal.h>
#include "util.hpp"
#include "clusters.hpp"
#include "dist_matrix.hpp"
using namespace knor;
using base::dist_t;

static ld exact(dist_t m, const double* a, const double* b, size_t d) {
    ld s = 0, n1 = 0, n2 = 0;
    for (size_t j = 0; j < d; j++) {
        ld x = a[j], y = b[j];
        if (m == dist_t::TAXI) s += fabsl(x - y);
        else if (m == dist_t::COS) { s += x*y; n1 += x*x; n2 += y*y; }
        else s += (x - y)*(x - y);
    }
    if (m == dist_t::COS) return n1 == 0 || n2 == 0 ? 1 : 1 - s/(sqrtl(n1)*sqrtl(n2));
    return m == dist_t::EUCL ? sqrtl(s) : s;
}
static ld tol(dist_t m, ld want, size_t d) { return m == dist_t::COS ? (4*d + 16)*DBL_EPSILON : (2*d + 8)*DBL_EPSILON*fabsl(want) + 1e-300L; }
static const char* names[] = {"eucl", "cos", "taxi", "sqeucl"};
static const dist_t metrics[] = {dist_t::EUCL, dist_t::COS, dist_t::TAXI, dist_t::SQEUCL};
static double named(int m, const double* a, const double* b, size_t d) {
    switch (m) { case 0: return base::eucl_dist<double>(a, b, d); case 1: return base::cos_dist<double>(a, b, d);
        case 2: return base::taxi_dist<double>(a, b, d); default: return base::sqeucl_dist<double>(a, b, d); }
}

static void distances() {
    size_t d = P(.3) ? U(1, 3) : P(.5) ? U(1, 40) : U(1, 700); int st = (int) U(0, 5);
    std::vector<double> a = vals(d, st), b = P(.2) ? vals(d) : vals(d, st);
    int how = (int) U(0, 7);
    if (how == 0) b = a;
    else if (how == 1) { b = a; b[U(0, d - 1)] += R()*std::pow(10., -(double) U(0, 8)); }
    else if (how == 2) for (size_t j = 0; j < d; j++) b[j] = -a[j];
    else if (how == 3) for (size_t j = 0; j < d; j++) b[j] = 3*a[j];
    if (how == 4) { if (P(.5)) std::fill(b.begin(), b.end(), 0); if (P(.3)) std::fill(a.begin(), a.end(), 0); }
    cur_case = fmt("distances d %zu style %d how %d", d, st, how); mix(d); mixd(a[0]); mixd(b[0]);
    std::vector<double> a0 = a, b0 = b;
    for (int m = 0; m < 4; m++) {
        ld w = exact(metrics[m], a.data(), b.data(), d), t = tol(metrics[m], w, d);
        double g = named(m, a.data(), b.data(), d), r = named(m, b.data(), a.data(), d), c = base::dist_comp_raw<double>(a.data(), b.data(), d, metrics[m]), s = named(m, a.data(), a.data(), d);
        check(near_(g, w, t), names[m], "distance %.17g instead of %.17Lg", g, w);
        check(near_(r, w, t), names[m], "distance of the reversed pair %.17g instead of %.17Lg", r, w);
        check(near_(c, w, t), names[m], "dist_comp_raw %.17g instead of %.17Lg", c, w);
        if (m != 1) check(s == 0, names[m], "distance of a vector to itself %.17g", s);
        stat(names[m]);
    }
    check(a == a0 && b == b0, "arguments", "changed");
    if (P(.02)) { bool thrown = false; try { base::dist_comp_raw<double>(a.data(), b.data(), d, (dist_t) 99); } catch (std::exception& e) { thrown = true; } check(thrown, "unknown metric", "was computed"); }
}

static void rejected(prune::dist_matrix::ptr m, unsigned r, unsigned c, bool set) {
    fflush(NULL);
    pid_t p = fork();
    if (p == 0) {
        if (!freopen("/dev/null", "w", stderr)) _exit(3);
        try { if (set) m->set(r, c, 1.); else (void) m->get(r, c); } catch (std::exception& e) { _exit(2); }
        _exit(0);
    }
    int st; waitpid(p, &st, 0);
    bool ok = (WIFEXITED(st) && WEXITSTATUS(st) == 2) || (WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT);
    check(ok, "out of range", "%s(%u, %u) in a matrix of %u was not rejected (status %d)", set ? "set" : "get", r, c, m->get_num_rows() + 1, st); stat("rejections");
}

static void matrix() {
    size_t k = P(.3) ? U(2, 4) : U(2, 60), d = U(1, 12); int st = (int) U(0, 5);
    cur_case = fmt("matrix k %zu d %zu style %d", k, d, st); mix(k); mix(d);
    auto m = prune::dist_matrix::create(k);
    check(m->get_num_rows() == k - 1, "rows", "%u", m->get_num_rows());
    if (P(.3)) {              // what is set is found, whichever order is asked
        std::map<std::pair<unsigned, unsigned>, double> want;
        for (size_t t = 0; t < 3*k*k/2 + 4; t++) {
            unsigned a = U(0, k - 1), b = U(0, k - 1); if (a == b) continue;
            double v = P(.1) ? 0 : R(0, 100); m->set(a, b, v); want[std::make_pair(std::min(a, b), std::max(a, b))] = v;
        }
        for (unsigned a = 0; a < k; a++) {
            double best = DBL_MAX;
            for (unsigned b = 0; b < k; b++) {
                if (a == b) { check(m->get(a, a) == DBL_MAX && m->pw_get(a, a) == 0, "diagonal", "get %g, pw_get %g", m->get(a, a), m->pw_get(a, a)); continue; }
                auto it = want.find(std::make_pair(std::min(a, b), std::max(a, b)));
                double w = it == want.end() ? DBL_MAX : it->second; best = std::min(best, w);
                check(m->get(a, b) == w && m->pw_get(a, b) == w, "stored", "(%u, %u) is %.17g and %.17g instead of %.17g", a, b, m->get(a, b), m->pw_get(a, b), w); stat("pairs");
            }
            if (best < DBL_MAX) check(m->get_min_dist(a) == best, "minimum", "of %u is %.17g instead of %.17g", a, m->get_min_dist(a), best);
        }
    } else if (P(.5)) {       // recomputed for moving centroids
        auto c = base::prune_clusters::create(k, d);
        size_t rounds = U(1, 4);
        for (size_t r = 0; r < rounds; r++) {
            std::vector<double> v = vals(k*d, st); size_t dup = P(.2) ? U(0, k - 1) : k;
            if (r) for (size_t q = 0; q < k; q++) if (P(.5)) for (size_t j = 0; j < d; j++) v[q*d+j] = c->get_means()[q*d+j];
            if (dup < k && dup > 0) std::copy(v.begin(), v.begin() + d, v.begin() + dup*d);
            c->set_mean(v.data());
            for (size_t q = 0; q < k; q++) c->set_s_val(P(.3) ? 0 : R(0, 10), q);
            m->compute_dist(c, d); mixd(v[0]);
            for (unsigned a = 0; a < k; a++) {
                ld best = DBL_MAX;
                for (unsigned b = 0; b < k; b++) {
                    if (a == b) continue;
                    ld w = exact(dist_t::EUCL, &v[a*d], &v[b*d], d)/2, t = tol(dist_t::EUCL, w, d); best = std::min(best, w);
                    check(near_(m->get(a, b), w, t), "half distance", "round %zu (%u, %u) is %.17g instead of %.17Lg", r, a, b, m->get(a, b), w); stat("pairs");
                }
                check(near_(c->get_s_val(a), best, tol(dist_t::EUCL, best, d)), "minimum", "round %zu: s of %u is %.17g instead of %.17Lg", r, a, c->get_s_val(a), best);
                check(near_(m->get_min_dist(a), best, tol(dist_t::EUCL, best, d)), "minimum", "round %zu: of %u is %.17g instead of %.17Lg", r, a, m->get_min_dist(a), best);
            }
            check(c->get_means() == v, "arguments", "the centroids changed");
        }
    } else {                  // pairwise distances of rows
        int mm = (int) U(0, 2); size_t n = P(.2) ? U(60, 150) : k; std::vector<double> v = vals(n*d, st), v0 = v;
        auto w = prune::dist_matrix::create(n); w->compute_pairwise_dist(v.data(), d, metrics[mm]);
        for (unsigned a = 0; a < n; a++) for (unsigned b = 0; b < n; b++) {
            if (a == b) continue;
            ld x = exact(metrics[mm], &v[a*d], &v[b*d], d), t = tol(metrics[mm], x, d);
            check(near_(w->pw_get(a, b), x, t) && near_(w->get(a, b), x, t), "pairwise", "%s (%u, %u) is %.17g instead of %.17Lg", names[mm], a, b, w->pw_get(a, b), x); stat("pairs");
        }
        check(v == v0, "arguments", "the rows changed"); mixd(v[0]);
    }
    if (P(.15)) {
        unsigned a = U(0, k - 1), b = k + U(0, 2);
        if (P(.5)) std::swap(a, b);
        rejected(m, a, b, P(.5)); rejected(m, k, k + 1, P(.5));
    }
}

static void one_case() { if (P(.6)) distances(); else matrix(); }
