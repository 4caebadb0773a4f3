// P31: clustering objects against what they were given
#include "u.hpp"
#include <fstream>
#include <sys/stat.h>
#include <unordered_map>
#include "types.hpp"
#include "util.hpp"
using namespace knor; using namespace knor::base;
typedef std::vector<double> V; typedef std::vector<unsigned> VU; typedef std::vector<llong_t> VL;

struct model_t { size_t n, d, it, k; VU a; VL cnt; V c; };
static model_t model() {
    model_t m; m.n = U(1, 60); m.d = U(1, 7); m.it = U(0, 40); m.k = U(1, 12); m.a.resize(m.n); m.cnt.assign(m.k, 0);
    for (auto& x : m.a) m.cnt[x = (unsigned) U(0, m.k-1)]++;
    m.c = vals(m.k*m.d); for (auto x : m.c) mixd(x); for (auto x : m.a) mix(x); mix(m.it); return m;
}
static bool same(const cluster_t& r, const model_t& m) {
    if (r.nrow != m.n || r.ncol != m.d || r.iters != m.it || r.k != m.k || r.assignments != m.a || r.centroids != m.c || r.assignment_count.size() != m.k) return false;
    for (size_t i = 0; i < m.k; i++) if ((llong_t) r.assignment_count[i] != m.cnt[i]) return false;
    return true;
}
static cluster_t make(const model_t& m) {
    if (P(.5)) return cluster_t(m.n, m.d, m.it, m.k, m.a.data(), m.cnt.data(), m.c);
    cluster_t r; r.set_params(m.n, m.d, m.it, m.k); r.set_computed(m.a.data(), m.cnt.data(), m.c); return r;
}

static void plain_case() {
    model_t m = model(); cur_case = fmt("object of %zux%zu in %zu clusters", m.n, m.d, m.k); stat("objects");
    cluster_t r = make(m), s = make(m);
    check(same(r, m) && same(s, m), "contents", "an object does not hold what it was built from");
    { model_t o = m; m.a[0]++; m.c[0] += 1; m.cnt[0]++; check(same(r, o), "independence", "an object changes with the vectors it was built from"); m = o; }
    check(r == s && s == r && r == r, "equality", "equal objects are unequal");
    cluster_t t = r; check(t == r && same(t, m), "copy", "a copy differs");
    model_t q = m; const char* what = "";
    switch (U(0, 5)) {
        case 0: what = "one assignment"; q.a[U(0, q.n-1)] += 1; break;
        case 1: what = "one size"; q.cnt[U(0, q.k-1)] += 1; break;
        case 2: { what = "one centroid value"; size_t i = U(0, q.c.size()-1); q.c[i] = P(.5) ? std::nextafter(q.c[i], 1e9) : q.c[i] + 1; break; }
        case 3: what = "one sample less"; q.n--; q.a.pop_back(); if (!q.n) { q = m; q.a[0]++; } break;
        case 4: what = "one cluster more"; q.k++; q.cnt.push_back(0); q.c.insert(q.c.end(), q.d, 0.); break;
        case 5: what = "the last assignment"; q.a.back() += 1; break;
    }
    cluster_t u = make(q); check(!(u == r) && !(r == u), "equality", "objects that differ in %s are equal", what); stat("inequalities");
    if (P(.1)) { r.print(); check(same(r, m), "print", "printing changes an object"); }
    if (P(.01)) {
        std::string d = "ty." + std::to_string(getpid()); if (mkdir(d.c_str(), 0700) && errno != EEXIST) exit(97);
        char old[4096]; if (!getcwd(old, sizeof old) || chdir(d.c_str())) exit(97);
        if (mkdir("python", 0700) == 0) { std::ofstream f("python/util.py"); f << "import sys,os\nos.makedirs(sys.argv[1],exist_ok=True)\n"; }
        r.write("out"); std::ifstream f("out/cluster_t.yml"); std::string l; std::map<std::string, V> got;
        while (std::getline(f, l)) { size_t p = l.find(':'); if (p == std::string::npos) continue; V v; std::string s2 = l.substr(p+1); for (auto& ch : s2) if (ch == '[' || ch == ']' || ch == ',') ch = ' '; std::istringstream is(s2); double x; while (is >> x) v.push_back(x); got[l.substr(0, p)] = v; }
        if (chdir(old)) exit(97);
        V c = got["cluster"], z = got["size"], e = got["centroids"]; bool ok = got["k"] == V{(double) m.k} && got["niter"] == V{(double) m.it} && got["nsamples"] == V{(double) m.n} && got["dim"] == V{(double) m.d};
        ok = ok && c.size() == m.n && z.size() == m.k && e.size() == m.c.size();
        for (size_t i = 0; ok && i < m.n; i++) ok = c[i] == m.a[i];
        for (size_t i = 0; ok && i < m.k; i++) ok = z[i] == (double) m.cnt[i];
        for (size_t i = 0; ok && i < e.size(); i++) ok = std::fabs(e[i] - m.c[i]) <= 1e-5*std::fabs(m.c[i]);
        check(ok, "write", "the written file does not describe the object"); stat("written objects");
    }
}

// built from a map with gaps, as the hierarchical algorithms do
static void map_case() {
    size_t n = U(1, 80), d = U(1, 6), ids = U(1, 40), it = U(0, 9); VU a(n); VL cnt(ids, 0); size_t some = U(1, ids); VU pool; for (size_t i = 0; i < some; i++) pool.push_back((unsigned) U(0, ids-1));
    for (auto& x : a) { x = pool[U(0, some-1)]; cnt[x]++; mix(x); }
    std::unordered_map<unsigned, V> C; for (unsigned i = 0; i < ids; i++) if (cnt[i]) { C[i] = vals(d); mixd(C[i][0]); }
    cur_case = fmt("object of %zux%zu from %zu clusters of %zu ids", n, d, C.size(), ids); stat("objects from maps");
    VU a0 = a; VL c0 = cnt; auto C0 = C;
    cluster_t r(n, d, it, a, cnt, C);
    check(r.nrow == n && r.ncol == d && r.iters == it && r.k == C.size() && r.assignment_count.size() == r.k && r.assignments.size() == n && r.centroids.size() == r.k*d, "shape", "shape of an object from a map");
    check(a == a0 && C == C0, "operands", "building an object changes its operands");
    std::map<unsigned, unsigned> to; bool ok = true; std::set<unsigned> used;
    for (size_t i = 0; i < n && ok; i++) { unsigned c = r.assignments[i]; ok = c < r.k; if (!ok) break; auto f = to.find(a0[i]); if (f == to.end()) { ok = used.insert(c).second; to[a0[i]] = c; } else ok = f->second == c; }
    check(ok && used.size() == r.k, "remap", "clusters are not mapped one to one");
    if (!ok) return;
    for (auto& x : to) { check((llong_t) r.assignment_count[x.second] == c0[x.first], "sizes", "cluster %u has size %zu instead of %lld", x.second, r.assignment_count[x.second], (long long) c0[x.first]);
        check(std::equal(C0[x.first].begin(), C0[x.first].end(), r.centroids.begin() + x.second*d), "centroids", "centroid of cluster %u", x.second); }
}

static void one_case() { if (P(.6)) plain_case(); else map_case(); }
