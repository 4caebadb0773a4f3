// Model monitor of the cluster accumulators: every operation is mirrored in a plain model
// in extended precision that also keeps the members.
#include "u.hpp"
#include "clusters.hpp"
using namespace knor::base;

struct rowit { const double* p; size_t n, i; bool has_next() { return i < n; } double next() { return p[i++]; } };

struct model {
    size_t k, d; std::vector<ld> v; std::vector<ld> mag; std::vector<long long> n; std::vector<bool> fin;
    std::vector<std::vector<std::vector<double>>> mem;   // members
    std::vector<bool> pure;                              // v is exactly the sum (mean) of mem
    model(size_t k, size_t d): k(k), d(d), v(k*d, 0), mag(k, 1e-300L), n(k, 0), fin(k, false), mem(k), pure(k, true) {}
    void grow(size_t K) { if (K <= k) return; v.resize(K*d, 0); mag.resize(K, 1e-300L); n.resize(K, 0); fin.resize(K, false); mem.resize(K); pure.resize(K, true); k = K; }
    ld tol(size_t c) const { return 1e-12L*mag[c] + 1e-300L; }
    void bump(size_t c, const double* x) { ld m = 0; for (size_t j = 0; j < d; j++) m = std::max<ld>(m, std::fabs(x[j])); mag[c] += m; }
    void add(const double* x, size_t c) { for (size_t j = 0; j < d; j++) v[c*d+j] += x[j]; bump(c, x); n[c]++; mem[c].push_back(std::vector<double>(x, x + d)); }
    void rem(const double* x, size_t c, size_t m) { for (size_t j = 0; j < d; j++) v[c*d+j] -= x[j]; bump(c, x); n[c]--; mem[c].erase(mem[c].begin() + m); }
    void finalize(size_t c) { if (fin[c]) return; fin[c] = true; if (n[c] > 1) for (size_t j = 0; j < d; j++) v[c*d+j] /= n[c]; }
    void unfinalize(size_t c) { if (!fin[c]) return; fin[c] = false; if (n[c] > 1) for (size_t j = 0; j < d; j++) v[c*d+j] *= n[c]; }
    void clear() { std::fill(v.begin(), v.end(), 0); std::fill(n.begin(), n.end(), 0); std::fill(fin.begin(), fin.end(), false); std::fill(mag.begin(), mag.end(), 1e-300L); for (auto& m : mem) m.clear(); std::fill(pure.begin(), pure.end(), true); }
    void merge(const model& o) {
        grow(o.k);
        for (size_t c = 0; c < o.k; c++) {
            for (size_t j = 0; j < d; j++) v[c*d+j] += o.v[c*d+j];
            n[c] += o.n[c]; mag[c] += o.mag[c]; pure[c] = pure[c] && o.pure[c]; mem[c].insert(mem[c].end(), o.mem[c].begin(), o.mem[c].end());
        }
    }
};

static void compare(clusters& c, const model& m, const char* op, bool sparse) {
    bool shape = sparse ? c.get_nclust() >= m.k : c.get_nclust() == m.k;
    check(shape && c.get_ncol() == m.d && c.size() == c.get_nclust()*m.d && c.get_means().size() == c.size() &&
          c.get_num_members_v().size() == c.get_nclust() && c.get_complete_v().size() == c.get_nclust(), "shape",
          "after %s: %u clusters of %u columns, %zu means instead of %zu x %zu", op, c.get_nclust(), c.get_ncol(), c.get_means().size(), m.k, m.d);
    if (!shape) return;
    for (size_t i = 0; i < c.get_nclust(); i++) {
        bool in = i < m.k;
        long long wn = in ? m.n[i] : 0;
        check(c.get_num_members(i) == wn && c.get_num_members_v()[i] == wn, "count", "after %s: cluster %zu has %lld members instead of %lld", op, i, (long long) c.get_num_members(i), wn);
        check(c.is_complete(i) == (in && m.fin[i]) && c.get_complete_v()[i] == (in && m.fin[i]), "complete", "after %s: cluster %zu complete=%d", op, i, (int) c.is_complete(i));
        ld tol = in ? m.tol(i) : 0;
        for (size_t j = 0; j < m.d; j++) {
            ld w = in ? m.v[i*m.d+j] : 0;
            double g = c.get(i*m.d+j);
            check(near_(g, w, tol) && c.get_means()[i*m.d+j] == g && c.get_mean_rawptr(i)[j] == g, "value",
                  "after %s: cluster %zu column %zu is %.17g instead of %.17Lg", op, i, j, g, w);
        }
        if (in && m.pure[i]) {   // the law itself: sum or mean of the members
            check((size_t) wn == m.mem[i].size(), "law", "after %s: model", op);
            for (size_t j = 0; j < m.d; j++) {
                ld s = 0; for (auto& x : m.mem[i]) s += x[j];
                if (m.fin[i] && wn > 0) s /= wn;
                check(near_(c.get(i*m.d+j), s, 4*tol), "law", "after %s: cluster %zu column %zu is %.17g, its members give %.17Lg", op, i, j, c.get(i*m.d+j), s);
            }
        }
    }
}

static void one_case() {
    size_t k = U(1, P(.2) ? 40 : 6), d = U(1, P(.2) ? 33 : 5); int style = (int) U(0, 5);
    int kind = (int) U(0, 3);   // plain, pruned, two-way, sparse
    size_t steps = U(5, 120);
    if (kind == 2) k = 2;
    cur_case = fmt("kind %d k %zu d %zu style %d steps %zu", kind, k, d, style, steps);
    mix(kind); mix(k); mix(d); mix(style);
    model m(k, d);
    clusters::ptr c; prune_clusters::ptr pc;
    bool sparse = kind == 3;
    std::vector<double> init = vals(k*d, style);
    bool given = !sparse && P(.3);
    if (kind == 0) c = given ? (P(.5) ? clusters::create(k, d, init) : clusters::create(k, d, init.data())) : clusters::create(k, d);
    else if (kind == 1) { pc = given ? prune_clusters::create(k, d, init) : prune_clusters::create(k, d); c = pc; }
    else if (kind == 2) {
        unsigned a = U(0, 99), b = U(0, 99), e = U(0, 99);
        if (given) c = h_clusters::create(2, d, init.data());
        else { c = h_clusters::create(2, d, a, b, e);
            check(c->get_id() == a && c->get_zeroid() == b && c->get_oneid() == e && !c->has_converged(), "ids", "ids %u %u %u instead of %u %u %u", c->get_id(), c->get_zeroid(), c->get_oneid(), a, b, e); }
        c->set_converged(true); check(c->has_converged(), "converged", "not set"); c->set_converged(false); check(!c->has_converged(), "converged", "not reset");
        c->set_id(7); c->set_zeroid(8); c->set_oneid(9); check(c->get_id() == 7 && c->get_zeroid() == 8 && c->get_oneid() == 9, "ids", "not set");
    } else c = sparse_clusters::create(k, d);
    if (given) { for (size_t i = 0; i < k*d; i++) m.v[i] = init[i]; std::fill(m.fin.begin(), m.fin.end(), true); for (size_t i = 0; i < k; i++) { for (size_t j = 0; j < d; j++) m.mag[i] += std::fabs(init[i*d+j]); m.pure[i] = false; } }
    compare(*c, m, "creation", sparse);
    std::vector<double> x;
    for (size_t s = 0; s < steps; s++) {
        size_t op = U(0, 21), i = U(0, m.k - 1); const char* name = "?"; mix(op*100 + i);
        if (op <= 4) {           // add a member
            if (sparse && P(.15)) { i = U(0, m.k + 5); m.grow(i + 1); }
            if (m.fin[i]) { c->unfinalize(i); m.unfinalize(i); }
            x = vals(d, style); name = "add_member"; const double* p = x.data();
            if (op < 4 || sparse) c->add_member(p, i); else { rowit it{p, d, 0}; c->add_member(it, i); name = "add_member(iterator)"; }
            m.add(p, i); stat("additions");
        } else if (op <= 7) {    // take a member away, or move it
            if (m.mem[i].empty()) continue;
            if (m.fin[i]) { c->unfinalize(i); m.unfinalize(i); }
            size_t w = U(0, m.mem[i].size() - 1); x = m.mem[i][w]; const double* p = x.data();
            if (op == 5) { name = "remove_member"; if (P(.5)) c->remove_member(p, i); else { rowit it{p, d, 0}; c->remove_member(it, i); } m.rem(p, i, w); }
            else {
                size_t to = U(0, m.k - 1);
                if (m.fin[to]) { c->unfinalize(to); m.unfinalize(to); }
                name = op == 6 ? "swap_membership" : "swap_membership(iterator)";
                if (op == 6) c->swap_membership(p, i, to); else { rowit it{p, d, 0}; c->swap_membership(it, i, to); }
                m.rem(p, i, w); m.add(p, to); stat("moves");
            }
        } else if (op == 8) { name = "finalize"; c->finalize(i); m.finalize(i); }
        else if (op == 9) { name = "unfinalize"; c->unfinalize(i); m.unfinalize(i); }
        else if (op == 10) { name = "finalize_all"; c->finalize_all(); for (size_t q = 0; q < m.k; q++) m.finalize(q); m.grow(c->get_nclust()); for (size_t q = 0; q < m.k; q++) m.fin[q] = true; }
        else if (op == 11) { name = "unfinalize_all"; c->unfinalize_all(); for (size_t q = 0; q < m.k; q++) m.unfinalize(q); }
        else if (op == 12 && P(.3)) { name = "clear"; c->clear(); m.clear(); }
        else if (op == 13 || op == 14) {   // merge another accumulator
            bool any = false; for (size_t q = 0; q < m.k; q++) any = any || m.fin[q];
            if (any) { c->unfinalize_all(); for (size_t q = 0; q < m.k; q++) m.unfinalize(q); }
            size_t ok = sparse ? U(1, m.k + 3) : m.k;
            if (sparse && c->get_nclust() > 200) continue;
            clusters::ptr o = sparse ? sparse_clusters::create(ok, d) : kind == 2 ? h_clusters::create(ok, d) : clusters::create(ok, d);
            model om(ok, d);
            for (size_t t = U(0, 20); t-- > 0;) { size_t q = U(0, ok - 1); x = vals(d, style); const double* p = x.data(); o->add_member(p, q); om.add(p, q); }
            if (sparse || P(.4)) { name = "peq"; c->peq(o); }
            else if (P(.5)) { name = "operator+="; *c += *o; }
            else { name = "means_peq"; std::vector<size_t> cn(ok); for (size_t q = 0; q < ok; q++) cn[q] = om.n[q]; c->means_peq(&o->get_means()[0]); c->num_members_v_peq(cn.data()); }
            m.merge(om); compare(*o, om, "being merged", sparse); stat("merges");
        } else if (op == 15) {             // a copy has the whole state and is independent
            clusters::ptr o = kind == 0 ? clusters::create(U(1, 4), U(1, 4)) : clusters::create(m.k, d);
            if (sparse) m.grow(c->get_nclust());
            *o = *c; name = "operator=";
            compare(*o, m, "being assigned", sparse); check(*o == *c, "equality", "a copy is not equal");
            model om = m; size_t q = U(0, m.k - 1);
            if (om.fin[q]) { o->unfinalize(q); om.unfinalize(q); }
            x = vals(d, style); x[0] += 1e4; const double* p = x.data(); o->add_member(p, q); om.add(p, q);
            compare(*o, om, "changing a copy", sparse);
            check(!(*o == *c), "equality", "different accumulators are equal");
            o->remove_member(p, q); om.rem(p, q, om.mem[q].size() - 1);
            o->num_members_peq(1, q); check(!(*o == *c), "equality", "accumulators of different sizes are equal");
            o->num_members_peq(-1, q);
            if (P(.3)) { clusters::ptr z = clusters::create(m.k + 1, d); check(!(*z == *c), "equality", "accumulators of different shapes are equal"); }
            if (P(.5)) { c->clear(); m.clear(); compare(*o, om, "clearing the original", sparse); name = "clear"; }
            stat("copies");
        } else if (op == 16 && !sparse) {  // set one mean
            x = vals(d, style); int how = (int) U(0, 2); name = how == 0 ? "set_mean(vector)" : how == 1 ? "set_mean(pointer)" : "set_mean(iterator)";
            if (how == 0) { const std::vector<double>& cx = x; c->set_mean(cx, i); } else if (how == 1) { const double* p = x.data(); c->set_mean(p, i); } else { rowit it{x.data(), d, 0}; c->set_mean(it, i); }
            for (size_t j = 0; j < d; j++) m.v[i*d+j] = x[j];
            m.bump(i, x.data()); m.mag[i] += m.mag[i]*std::max<long long>(m.n[i], 1); m.pure[i] = false;
        } else if (op == 17 && !sparse) {
            std::vector<double> all = vals(m.k*d, style); name = "set_mean(all)";
            if (P(.5)) { const std::vector<double>& ca = all; c->set_mean(ca); } else { const double* p = all.data(); c->set_mean(p); }
            for (size_t q = 0; q < m.k; q++) { for (size_t j = 0; j < d; j++) m.v[q*d+j] = all[q*d+j]; m.bump(q, &all[q*d]); m.mag[q] *= 1 + std::max<long long>(m.n[q], 1); m.pure[q] = false; }
        } else if (op == 18) {
            name = "set_complete"; bool on = P(.5);
            if (P(.7)) { if (sparse && P(.2)) { i = m.k + U(0, 3); if (i < c->get_nclust()) i = m.k - 1; else m.grow(i + 1); } c->set_complete(i, on); if (m.fin[i] != on) m.pure[i] = false; m.fin[i] = on; }
            else { m.grow(c->get_nclust()); c->set_complete_all(on); for (size_t q = 0; q < m.k; q++) { if (m.fin[q] != on) m.pure[q] = false; m.fin[q] = on; } }
        } else if (op == 19) {
            name = "num_members_peq"; long long by = (long long) U(0, 5); c->num_members_peq(by, i); m.n[i] += by; if (by) m.pure[i] = false;
            if (P(.3) && !sparse) { std::vector<size_t> a(m.k); for (size_t q = 0; q < m.k; q++) a[q] = m.mem[q].size() + U(0, 9); c->set_num_members_v(a.data()); for (size_t q = 0; q < m.k; q++) { m.n[q] = a[q]; m.pure[q] = false; } name = "set_num_members_v"; }
        } else if (op == 20) {
            name = "scale_centroid"; double f = R(0, 1); x = vals(d, style); c->scale_centroid(f, i, x.data());
            for (size_t j = 0; j < d; j++) m.v[i*d+j] = (1 - (ld) f)*m.v[i*d+j] + (ld) f*x[j];
            m.bump(i, x.data()); m.pure[i] = false;
        } else if (op == 21) {
            if (pc) {
                name = "set_prev_means"; std::vector<double> before = pc->get_means(); pc->set_prev_means();
                double v1 = R(), v2 = R(); pc->set_prev_dist(v1, i); pc->set_s_val(v2, i);
                size_t o = U(0, m.k - 1); if (o != i) { pc->set_prev_dist(3.5, o); pc->set_s_val(4.5, o); }
                x = vals(d, style); const double* p = x.data(); pc->set_mean(p, i); for (size_t j = 0; j < d; j++) m.v[i*d+j] = x[j];
                m.bump(i, p); m.mag[i] *= 1 + std::max<long long>(m.n[i], 1); m.pure[i] = false;
                check(pc->get_prev_means() == before, "previous", "the previous means changed with the means");
                check(pc->get_prev_dist(i) == v1 && pc->get_s_val(i) == v2, "previous", "distance or bound not kept");
                pc->reset_s_val_v(); for (size_t q = 0; q < m.k; q++) check(pc->get_s_val(q) == std::numeric_limits<double>::max(), "previous", "bound %zu not reset", q);
                check(pc->get_prev_dist(i) == v1, "previous", "resetting bounds changed a distance");
            } else if (sparse) {           // beyond the clusters that exist
                unsigned z = c->get_nclust() + U(0, 3); int thrown = 0;
                try { c->is_complete(z); } catch (std::exception& e) { thrown++; }
                try { c->num_members_peq(1, z); } catch (std::exception& e) { thrown++; }
                try { c->get_mean_rawptr(z); } catch (std::exception& e) { thrown++; }
                check(thrown == 3, "bounds", "only %d of 3 accesses behind the last cluster were refused", thrown); name = "refused access";
            }
        }
        compare(*c, m, name, sparse); stat("operations");
        if (nviol_ > 20) return;
    }
}
