// P26: containers against mathematical models
#include "u.hpp"
#include <thread>
#include <atomic>
#include <cassert>
#include "types.hpp"
#include "hclust_compactor.hpp"
#include "thd_safe_bool_vector.hpp"
#include "hclust_id_generator.hpp"
using namespace knor; using namespace knor::base;

static void vmap_case() {
    int empty = P(.5) ? 0 : (int) U(0, 4) - 2;
    size_t cap = P(.2) ? 0 : U(1, 30);
    typedef vmap<int> M;
    M v; size_t size = 0; std::map<size_t, int> m;
    if (P(.5)) { v = M(cap, empty); size = cap; } else { empty = 0; if (P(.7)) { v.set_capacity(cap); size = cap; } }
    cur_case = fmt("vmap capacity %zu empty %d", size, empty); mix(size); mix(empty + 10); stat("vmap histories");
    size_t steps = U(1, 60);
    for (size_t s = 0; s < steps; s++) {
        int op = (int) U(0, 9); size_t i = P(.7) && size ? U(0, size-1) : U(0, 45); int x = (int) U(0, 6) - 3; mix(op*1000 + i*7 + x + 3); stat("operations");
        switch (op) {
            case 0: case 1: case 2: v[i] = x; size = std::max(size, i+1); if (x == empty) m.erase(i); else m[i] = x; break;
            case 3: v.at(i) = x; size = std::max(size, i+1); if (x == empty) m.erase(i); else m[i] = x; break;
            case 4: if (i < size) { v.erase(i); m.erase(i); } break;
            case 5: if (P(.15)) { v.clear(); m.clear(); } break;
            case 6: if (P(.1)) { size_t c = U(0, 40); v.set_capacity(c); size = c; m.clear(); } break;
            case 7: { const M& c = v; bool th = false; int g = empty; try { g = c[i]; } catch (std::exception&) { th = true; }
                      check(th == (i >= size), "vmap constant access", "index %zu of %zu %s", i, size, th ? "refused" : "accepted");
                      if (!th) { int want = m.count(i) ? m[i] : empty; check(g == want, "vmap constant access", "index %zu: %d instead of %d", i, g, want); } break; }
            case 8: { M c = v; c[i] = x == empty ? x + 1 : x; if (i < size) check(v.has_key(i) == (m.count(i) > 0), "vmap copy", "writing a copy changed the original at %zu", i); break; }
            default: { int g = v[i]; size = std::max(size, i+1); int want = m.count(i) ? m[i] : empty; check(g == want, "vmap access", "index %zu: %d instead of %d", i, g, want); }
        }
        check(v.size() == size && v.empty() == (size == 0), "vmap size", "%zu instead of %zu", v.size(), size);
        check(v.keycount() == m.size(), "vmap key count", "%zu instead of %zu", v.keycount(), m.size());
        check(v.keyless() == m.empty(), "vmap keyless", "%d with %zu keys", (int) v.keyless(), m.size());
        bool has = v.has_key(i); check(has == (m.count(i) > 0), "vmap has_key", "key %zu", i);
        check(!v.has_key(size + U(0, 9)), "vmap has_key", "a key beyond the end");
        std::vector<size_t> ks, want; v.get_keys(ks); for (auto& e : m) want.push_back(e.first); check(ks == want, "vmap keys", "%zu keys instead of %zu, or others", ks.size(), want.size());
        auto it = v.get_iterator(); std::vector<std::pair<size_t, int>> seen, all(m.begin(), m.end());
        while (it.has_next() && seen.size() <= m.size()) { if (P(.3)) it.has_next(); seen.push_back(it.next()); }
        check(seen == all, "vmap iteration", "visited %zu entries instead of %zu, or others", seen.size(), all.size());
    }
}

static void bool_case() {
    size_t n = U(1, 300); bool init = P(.5); auto b = thd_safe_bool_vector::create(n, init); std::vector<char> m(n, init);
    cur_case = fmt("flags %zu", n); mix(n); stat("flag histories");
    size_t steps = U(1, 80);
    for (size_t s = 0; s < steps; s++) { size_t i = U(0, n-1); bool x = P(.5); mix(i*2 + x); stat("operations");
        if (P(.2)) { size_t j = P(.7) ? i : n + U(0, 20); b->check_set(j, x); if (j >= n) { m.resize(j+1, 0); n = j+1; } m[j] = x; }
        else { b->set(i, x); m[i] = x; }
        size_t q = U(0, n-1); check(b->get(q) == (bool) m[q] && (*b)[q] == (bool) m[q], "flag", "flag %zu of %zu is %d", q, n, (int) b->get(q));
    }
    check(b->size() == n && b->raw().size() == n, "flag count", "%zu instead of %zu", b->size(), n);
    for (size_t i = 0; i < n; i++) check(b->get(i) == (bool) m[i], "flag", "flag %zu of %zu is %d", i, n, (int) b->get(i));
}

static void concurrent_case() {
    size_t n = U(8, 2000), T = U(2, 8), rounds = U(1, 40); auto b = thd_safe_bool_vector::create(n, P(.5));
    cur_case = fmt("%zu threads setting %zu flags", T, n); mix(n*31 + T); stat("concurrent flag histories");
    std::vector<char> want(n); uint64_t seed = G(); std::atomic<int> gate(0); int mode = (int) U(0, 1);
    std::atomic<size_t> wrong(0);
    std::vector<std::thread> ts;
    auto owner = [&](size_t i) { return mode ? i % T : i*T/n; };
    auto bit = [&](size_t i, size_t r) { uint64_t h = (seed + i*0x9E3779B97F4A7C15ULL) ^ (r*0xBF58476D1CE4E5B9ULL); h ^= h >> 29; h *= 0x94D049BB133111EBULL; return (bool) ((h >> 33) & 1); };
    for (size_t t = 0; t < T; t++) ts.push_back(std::thread([&, t] {
        gate++; while (gate < (int) T) {}
        for (size_t r = 0; r < rounds; r++) for (size_t i = 0; i < n; i++) if (owner(i) == t) { b->set(i, bit(i, r)); }
        for (size_t i = 0; i < n; i++) if (owner(i) == t && b->get(i) != bit(i, rounds-1)) wrong++;   // own flags are never changed by others
    }));
    for (auto& t : ts) t.join();
    check(wrong == 0, "concurrent flags", "%zu of %zu flags read back wrong by their writer", (size_t) wrong, n);
    size_t bad = 0; for (size_t i = 0; i < n; i++) if (b->get(i) != bit(i, rounds-1)) bad++;
    check(bad == 0, "concurrent flags", "%zu of %zu flags lost", bad, n); stat("concurrent sets", n*rounds);
}

static void id_case() {
    auto g = hclust_id_generator::create(); std::set<unsigned> used; std::vector<unsigned> list; unsigned top = 0; size_t peak = 0;
    cur_case = "id generator"; stat("id generator histories"); size_t steps = U(1, 120); double pr = R(0, .8);
    for (size_t s = 0; s < steps; s++) {
        stat("operations");
        if (!list.empty() && P(pr)) { size_t i = U(0, list.size()-1); unsigned id = list[i]; list.erase(list.begin() + i); used.erase(id); g->reclaim_id(id); mix(id*2); }
        else { split_id p = g->get_split_ids(); mix(p.first*65537 + p.second*3 + 1);
               check(p.first != p.second, "ids", "both children got %u", p.first);
               for (unsigned id : {p.first, p.second}) { check(id != 0, "ids", "the root's id was handed out"); check(!used.count(id), "ids", "id %u was handed out while in use", id); if (used.insert(id).second) list.push_back(id); top = std::max(top, id); }
               peak = std::max(peak, used.size());
               check(top <= peak, "id reuse", "id %u with at most %zu ids in use at once", top, peak); }
    }
}

static void compact_case() {
    size_t n = U(1, 60), d = U(1, 5); std::vector<llong_t> cnt(n); double pz = R(0, 1); for (auto& c : cnt) c = P(pz) ? 0 : (llong_t) U(1, 9);
    cur_case = fmt("compaction of %zu", n); for (auto c : cnt) mix(c); stat("compactions");
    std::vector<size_t> out; std::unordered_map<unsigned, unsigned> map; util::compactor::remap<llong_t>(cnt, out, map);
    std::vector<unsigned> live; for (size_t i = 0; i < n; i++) if (cnt[i]) live.push_back((unsigned) i);
    check(out.size() == live.size() && map.size() == live.size(), "compaction", "%zu counts and %zu ids for %zu non-empty clusters", out.size(), map.size(), live.size());
    std::set<unsigned> img; for (unsigned i : live) { check(map.count(i) > 0, "compaction", "cluster %u lost", i); if (!map.count(i)) continue; unsigned j = map[i]; img.insert(j); check(j < live.size(), "compaction", "id %u of %zu", j, live.size()); if (j < out.size()) check(out[j] == (size_t) cnt[i], "compaction", "count of %u", i); }
    check(img.size() == live.size(), "compaction", "ids are not distinct");
    if (live.empty()) return;
    // the result object built from sparse ids
    std::vector<unsigned> as; for (unsigned i : live) for (llong_t c = 0; c < cnt[i]; c++) as.push_back(i); std::shuffle(as.begin(), as.end(), G);
    std::unordered_map<unsigned, std::vector<double>> ce; for (unsigned i : live) ce[i] = vals(d);
    cluster_t r(as.size(), d, 7, as, cnt, ce); stat("compacted results");
    check(r.k == live.size() && r.nrow == as.size() && r.ncol == d && r.iters == 7 && r.centroids.size() == live.size()*d && r.assignments.size() == as.size(), "compacted result", "k=%zu for %zu clusters", r.k, live.size());
    if (r.centroids.size() != live.size()*d || r.assignments.size() != as.size()) return;
    std::map<unsigned, unsigned> seen; bool ok = true;
    for (size_t i = 0; i < as.size(); i++) { unsigned j = r.assignments[i]; if (j >= live.size() || (seen.count(as[i]) && seen[as[i]] != j)) { ok = false; break; } seen[as[i]] = j; }
    check(ok, "compacted result", "assignments do not map one to one");
    if (ok) for (auto& e : seen) { check(r.assignment_count[e.second] == (size_t) cnt[e.first], "compacted result", "size of cluster %u", e.first); for (size_t c = 0; c < d; c++) check(r.centroids[e.second*d+c] == ce[e.first][c], "compacted result", "centroid of cluster %u", e.first); }
    cluster_t s = r; check(s == r, "result equality", "a copy differs"); int w = (int) U(0, 2);
    if (w == 0) s.assignments[U(0, as.size()-1)] += 1; else if (w == 1) s.assignment_count[U(0, live.size()-1)] += 1; else s.centroids[U(0, live.size()*d-1)] += 1e6;
    if (r.centroids != s.centroids || w != 2) check(!(s == r), "result equality", "results differing in %s are equal", w == 0 ? "an assignment" : w == 1 ? "a size" : "a centroid");
    // the result object built from buffers
    std::vector<unsigned> bc(as.size()); size_t k = live.size(); for (size_t i = 0; i < as.size(); i++) bc[i] = seen[as[i]];
    std::vector<llong_t> cc(k); for (size_t i = 0; i < k; i++) cc[i] = (llong_t) r.assignment_count[i];
    cluster_t q(as.size(), d, 3, k, bc.data(), cc.data(), r.centroids), p; p.set_params(as.size(), d, 3, k); p.set_computed(bc.data(), cc.data(), r.centroids);
    check(q == r && p == r && q.k == k && p.k == k && q.nrow == as.size() && p.ncol == d && q.iters == 3 && p.iters == 3, "result from buffers", "differs from its contents");
}

static void one_case() {
    double p = R(0, 1);
    if (p < .4) vmap_case(); else if (p < .55) bool_case(); else if (p < .58) concurrent_case(); else if (p < .8) id_case(); else compact_case();
}
