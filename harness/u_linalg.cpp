// P25: dense matrices, linear algebra, small numeric helpers against extended-precision references
#include "u.hpp"
#include <cassert>
#include "dense_matrix.hpp"
#include "linalg.hpp"
#include "util.hpp"
#include "AndersonDarling.hpp"
using namespace knor::base;
typedef dense_matrix<double> DM;
typedef std::vector<double> V;
static const ld EPS = DBL_EPSILON;

static V mvals(size_t n) {           // matrix entries
    return vals(n, (int) U(0, 5));
}
static V nz(size_t n) { V v = vals(n); for (auto& x : v) if (std::fabs(x) < 1e-9) x = P(.5) ? 1 : -3; return v; }
static DM* mk(size_t r, size_t c, const V& v) {
    DM* m = P(.5) ? DM::create(r, c, P(.5)) : DM::create();
    if (m->get_nrow() != r || m->get_ncol() != c) m->resize(r, c);
    switch (U(0, 3)) {
        case 0: m->set(&v[0]); break;
        case 1: for (size_t i = 0; i < r; i++) m->set_row(&v[i*c], i); break;
        case 2: for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++) m->set(i, j, v[i*c+j]); break;
        default: m->as_vector() = v;
    }
    return m;
}
static void same(DM* m, size_t r, size_t c, const std::vector<ld>& w, const std::vector<ld>& tol, const char* what) {
    check(m->get_nrow() == r && m->get_ncol() == c, what, "shape %zux%zu instead of %zux%zu", m->get_nrow(), m->get_ncol(), r, c);
    if (m->get_nrow() != r || m->get_ncol() != c) return;
    check(m->as_vector().size() == r*c, what, "%zu elements for shape %zux%zu", m->as_vector().size(), r, c);
    if (m->as_vector().size() != r*c) return;
    for (size_t i = 0; i < r*c; i++) {
        ld g = m->as_pointer()[i];
        if (std::isnan((double) w[i]) && std::isnan((double) g)) continue;
        check(near_(g, w[i], tol[i]), what, "%zux%zu: element (%zu,%zu) is %.17g instead of %.17Lg", r, c, i/c, i%c, (double) g, w[i]);
    }
}
static void same(DM* m, size_t r, size_t c, const V& v, const char* what) {
    std::vector<ld> w(v.begin(), v.end()), t(v.size(), 0.L); same(m, r, c, w, t, what);
}
// sums of the signed and of the absolute products over all permutations
static void expand(const std::vector<ld>& a, size_t n, std::vector<size_t>& p, size_t row, ld prod, int sign, ld& d, ld& s) {
    if (row == n) { d += sign*prod; s += std::fabs(prod); return; }
    for (size_t i = row; i < n; i++) {
        std::swap(p[row], p[i]);
        if (a[row*n+p[row]] != 0) expand(a, n, p, row+1, prod*a[row*n+p[row]], i == row ? sign : -sign, d, s);
        std::swap(p[row], p[i]);
    }
}
static ld det(const std::vector<ld>& a, size_t n, ld* abs = 0) {
    std::vector<size_t> p; for (size_t i = 0; i < n; i++) p.push_back(i);
    ld d = 0, s = 0; expand(a, n, p, 0, 1, 1, d, s); if (abs) *abs = s; return d;
}
static ld perm(const std::vector<ld>& a, size_t n) { ld s; det(a, n, &s); return s; }

static void matrix_case() {
    size_t r = P(.04) ? U(10, 90) : U(1, 9), c = P(.3) ? r : U(1, 9); if (r > 40 && r == c) c = 3;
    V v = mvals(r*c); DM* m = mk(r, c, v);
    std::vector<ld> w(v.begin(), v.end());
    cur_case = fmt("matrix %zux%zu", r, c);
    size_t steps = U(1, 8);
    for (size_t s = 0; s < steps; s++) {
        int op = (int) U(0, 19); mix(op); stat("operations"); stat(fmt("op %d", op).c_str());
        v = m->as_vector(); w.assign(v.begin(), v.end());
        size_t n = r*c;
        std::vector<ld> t(n, 0.L);
        switch (op) {
            case 0: { DM* o = DM::create(m); same(o, r, c, v, "copy");
                      check(*o == *m, "equal", "a copy differs from its original");
                      size_t i = U(0, n-1); o->as_pointer()[i] += 1 + std::fabs(v[i]); check(!(*o == *m), "equal", "matrices differing in element %zu compare equal", i);
                      same(m, r, c, v, "copy shares storage"); delete o; break; }
            case 1: { DM* o = mk(U(1, 5), U(1, 5), mvals(25)); o->copy_from(m); same(o, r, c, v, "copy_from"); same(m, r, c, v, "copy_from operand"); delete o; break; }
            case 2: { V b = mvals(n); DM* o = mk(r, c, b); DM* a = *m + *o; 
                      for (size_t i = 0; i < n; i++) { w[i] += b[i]; t[i] = EPS*std::fabs(w[i]); } same(a, r, c, w, t, "sum");
                      same(m, r, c, v, "sum left operand"); same(o, r, c, b, "sum right operand"); delete a; delete o; break; }
            case 3: { V b = mvals(n); DM* o = mk(r, c, b); DM* a = *m - *o;
                      for (size_t i = 0; i < n; i++) { w[i] -= b[i]; t[i] = EPS*std::fabs(w[i]); } same(a, r, c, w, t, "difference");
                      same(m, r, c, v, "difference left operand"); same(o, r, c, b, "difference right operand"); delete a; delete o; break; }
            case 4: { V b = mvals(n); DM* o = mk(r, c, b); *m += *o;
                      for (size_t i = 0; i < n; i++) { w[i] += b[i]; t[i] = EPS*std::fabs(w[i]); } same(m, r, c, w, t, "+="); same(o, r, c, b, "+= operand"); delete o; break; }
            case 5: { size_t k = U(1, 9); V b = mvals(c*k); DM* o = mk(c, k, b); DM* a = *m * *o; std::vector<ld> x(r*k), y(r*k);
                      for (size_t i = 0; i < r; i++) for (size_t j = 0; j < k; j++) { ld q = 0, z = 0; for (size_t l = 0; l < c; l++) { q += w[i*c+l]*b[l*k+j]; z += std::fabs(w[i*c+l]*b[l*k+j]); } x[i*k+j] = q; y[i*k+j] = EPS*(c+2)*z; }
                      same(a, r, k, x, y, "product"); same(m, r, c, v, "product left operand"); same(o, c, k, b, "product right operand"); delete a; delete o; break; }
            case 6: { if (r != c) break; V b = mvals(r); V b0 = b; DM* a = *m - b;
                      for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++) { w[i*c+j] -= b[i]; t[i*c+j] = EPS*std::fabs(w[i*c+j]); }
                      same(a, r, c, w, t, "matrix minus vector"); same(m, r, c, v, "matrix minus vector operand"); delete a; break; }
            case 7: { V o; size_t ax = U(0, 1); m->sum((unsigned) ax, o); size_t L = ax ? r : c;
                      check(o.size() == L, "axis sum", "axis %zu of %zux%zu gives %zu sums", ax, r, c, o.size());
                      if (o.size() == L) for (size_t i = 0; i < L; i++) { ld q = 0, z = 0; size_t K = ax ? c : r; for (size_t j = 0; j < K; j++) { ld e = ax ? w[i*c+j] : w[j*c+i]; q += e; z += std::fabs(e); }
                          check(near_(o[i], q, EPS*(K+1)*z), "axis sum", "%zux%zu axis %zu sum %zu is %.17g instead of %.17Lg", r, c, ax, i, o[i], q); }
                      same(m, r, c, v, "axis sum operand"); break; }
            case 8: { ld q = 0, z = 0, f = 0; for (auto e : w) { q += e; z += std::fabs(e); f += e*e; }
                      double g = m->sum(), h = m->frobenius_norm();
                      check(near_(g, q, EPS*(n+1)*z), "total sum", "%zux%zu sum %.17g instead of %.17Lg", r, c, g, q);
                      check(near_(h, std::sqrt(f), EPS*(n+4)*std::sqrt(f)), "norm", "%zux%zu norm %.17g instead of %.17Lg", r, c, h, std::sqrt(f));
                      same(m, r, c, v, "sum/norm operand"); break; }
            case 9: { size_t dim = U(0, 1); V o = vals(U(0, 12)); m->mean(o, dim); size_t L = dim ? c : r, K = dim ? r : c;
                      check(o.size() == L, "mean", "dim %zu of %zux%zu gives %zu means", dim, r, c, o.size());
                      if (o.size() == L) for (size_t i = 0; i < L; i++) { ld q = 0, z = 0; for (size_t j = 0; j < K; j++) { ld e = dim ? w[j*c+i] : w[i*c+j]; q += e; z += std::fabs(e); }
                          check(near_(o[i], q/K, EPS*(K+3)*z/K), "mean", "%zux%zu dim %zu mean %zu is %.17g instead of %.17Lg", r, c, dim, i, o[i], q/K); }
                      same(m, r, c, v, "mean operand"); break; }
            case 10: { double x = nz(1)[0]; DM& ret = (*m /= x); check(&ret == m, "/= returns itself", "other object");
                       for (size_t i = 0; i < n; i++) { w[i] /= x; t[i] = EPS*std::fabs(w[i]) + 1e-320L; } same(m, r, c, w, t, "/= scalar"); break; }
            case 11: { bool byrow = P(.5); V b = nz(byrow ? r : c); if (r == c) { bool th = false; try { *m /= b; } catch (std::exception&) { th = true; } check(th, "/= vector", "a square matrix was divided by a vector"); same(m, r, c, v, "/= vector refused"); break; }
                       V b0 = b; *m /= b; for (size_t i = 0; i < n; i++) { w[i] /= byrow ? b0[i/c] : b0[i%c]; t[i] = EPS*std::fabs(w[i]) + 1e-320L; } same(m, r, c, w, t, "/= vector"); check(b == b0, "/= vector operand", "changed"); break; }
            case 12: { unsigned ax = (unsigned) U(0, 1); V b = nz(ax ? r : c), b0 = b; m->div_eq(b, ax);
                       for (size_t i = 0; i < n; i++) { w[i] /= ax ? b0[i/c] : b0[i%c]; t[i] = EPS*std::fabs(w[i]) + 1e-320L; } same(m, r, c, w, t, "div_eq"); check(b == b0, "div_eq operand", "changed"); break; }
            case 13: { unsigned ax = (unsigned) U(0, 1), e = (unsigned) U(1, 4); V b = nz(ax ? r : c), b0 = b; m->div_eq_pow(b, ax, e);
                       for (size_t i = 0; i < n; i++) { w[i] = std::pow(w[i]/(ld) (ax ? b0[i/c] : b0[i%c]), (ld) e); t[i] = EPS*(2*e+2)*std::fabs(w[i]) + 1e-320L; } same(m, r, c, w, t, "div_eq_pow"); check(b == b0, "div_eq_pow operand", "changed"); break; }
            case 14: { bool pos = true; for (auto e : v) if (e < 0) pos = false; double e = pos && P(.5) ? R(.1, 3) : (double) U(1, 3); m->pow_eq(e);
                       for (size_t i = 0; i < n; i++) { w[i] = std::pow(w[i], (ld) e); t[i] = 4*EPS*std::fabs(w[i]) + 1e-320L; } same(m, r, c, w, t, "pow_eq"); break; }
            case 15: { size_t ax = U(0, 1); std::vector<unsigned> idx(U(0, 3), 77u); m->argmax(ax, idx); size_t L = ax ? c : r, K = ax ? r : c;
                       check(idx.size() == L, "argmax", "axis %zu of %zux%zu gives %zu", ax, r, c, idx.size());
                       if (idx.size() == L) for (size_t i = 0; i < L; i++) { size_t b = 0; for (size_t j = 1; j < K; j++) if ((ax ? v[j*c+i] : v[i*c+j]) > (ax ? v[b*c+i] : v[i*c+b])) b = j;
                           check(idx[i] == b, "argmax", "%zux%zu axis %zu position %zu: %u instead of %zu", r, c, ax, i, idx[i], b); }
                       same(m, r, c, v, "argmax operand"); break; }
            case 16: { size_t i = U(0, r-1), j = U(0, c-1); double x = vals(1)[0]; m->peq(i, j, x); w[i*c+j] += x; t[i*c+j] = EPS*std::fabs(w[i*c+j]); same(m, r, c, w, t, "peq");
                       check(m->get(i, j) == m->as_pointer()[i*c+j], "get", "(%zu,%zu)", i, j); break; }
            case 17: { size_t i = U(0, r-1); V b = vals(c); m->set_row(&b[0], i); for (size_t j = 0; j < c; j++) w[i*c+j] = b[j]; same(m, r, c, w, t, "set_row"); break; }
            case 18: { m->zero(); for (auto& e : w) e = 0; same(m, r, c, w, t, "zero"); V b = mvals(n); m->set(&b[0]); same(m, r, c, b, "set"); break; }
            case 19: { bool th = false; int which = (int) U(0, 2); V b = nz(r + c); std::vector<unsigned> idx;
                       try { if (which == 0) m->sum(2, b); else if (which == 1) m->div_eq(b, (unsigned) U(0, 1)); else m->argmax(2, idx); } catch (std::exception&) { th = true; }
                       check(th, "undefined operation", "operation %d on %zux%zu was not refused", which, r, c); same(m, r, c, v, "undefined operation"); break; }
        }
        bool big = false; for (auto e : m->as_vector()) if (!std::isfinite(e) || std::fabs(e) > 1e60 || (e != 0 && std::fabs(e) < 1e-60)) big = true;
        if (big) { V b = mvals(n); m->set(&b[0]); }
    }
    for (auto e : m->as_vector()) mixd(e);
    delete m;
}

static void square_case() {
    size_t n = U(1, 6); bool integer = P(.6); V a(n*n);
    for (auto& x : a) x = integer ? (double) (long) U(0, 8) - 4 : R(-3, 3);
    if (P(.25) && n > 1) { size_t i = U(0, n-1), j = (i + 1)%n; double f = (double) U(0, 2); for (size_t c = 0; c < n; c++) a[i*n+c] = f*a[j*n+c]; }
    if (P(.2)) for (auto& x : a) if (P(.5)) x = 0;
    cur_case = fmt("%s %zux%zu", integer ? "integer" : "real", n, n); for (auto x : a) mixd(x);
    stat("square matrices");
    V a0 = a; std::vector<ld> w(a.begin(), a.end());
    ld d = det(w, n), s = perm(w, n), tol = 64*EPS*s;
    double g = linalg::determinant(&a[0], n, n);
    check(near_(g, d, tol), "determinant", "%.17g instead of %.17Lg", g, d);
    check(a == a0, "determinant operand", "changed");
    V adj(n*n, 7.); DM* A = DM::create(n, n); A->set(&a[0]);
    if (P(.5)) linalg::adjoint(&a[0], &adj[0], n); else { DM* r = linalg::adjoint(A); adj = r->as_vector(); check(r->get_nrow() == n && r->get_ncol() == n, "adjoint", "shape"); delete r; }
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) {   // adj(i,j) = (-1)^(i+j) det of A without row j, column i
        std::vector<ld> mn; for (size_t r = 0; r < n; r++) for (size_t c = 0; c < n; c++) if (r != j && c != i) mn.push_back(w[r*n+c]);
        ld x = n == 1 ? 1 : det(mn, n-1), z = n == 1 ? 0 : perm(mn, n-1); if ((i+j)%2) x = -x;
        check(near_(adj[i*n+j], x, 64*EPS*z), "adjoint", "%zux%zu (%zu,%zu): %.17g instead of %.17Lg", n, n, i, j, adj[i*n+j], x);
    }
    check(a == a0 && A->as_vector() == a0, "adjoint operand", "changed"); delete A;
    V inv(n*n, 5.), inv0 = inv; bool ok = linalg::inverse(&a[0], &inv[0], n);
    check(a == a0, "inverse operand", "changed");
    if (integer) {                       // determinants of small integer matrices are exact
        bool sing = std::fabs(d) < .5L; stat(sing ? "singular" : "invertible");
        check(ok == !sing, "inverse", "%s matrix of determinant %.3Lg", ok ? "inverted a singular" : "refused an invertible", d);
        if (sing && !ok) check(inv == inv0, "inverse of singular", "output written");
    }
    if (ok && std::fabs(d) > 1e-6L*s && s > 0)
        for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) { ld x = 0, z = 0; for (size_t k = 0; k < n; k++) { x += w[i*n+k]*inv[k*n+j]; z += std::fabs(w[i*n+k]*inv[k*n+j]); }
            check(near_(x, i == j, 1e-9L*(1 + z)*(1 + s/std::fabs(d))), "inverse", "product with the inverse has (%zu,%zu) = %.12Lg", i, j, x); }
}

static void ad_case(const V& a) {
    size_t n = a.size(); V a0 = a;
    // Anderson-Darling
    if (n >= 3) { V t = a; ld m = 0, v = 0; for (auto x : a) m += x; m /= n; for (auto x : a) v += (x-m)*(x-m); ld sd = std::sqrt(v/(n-1)); ld am = 0; for (auto x : a) am = std::max(am, std::fabs((ld) x));
      if (sd > 1e-5L*am && sd > 0) {
          std::vector<ld> y; V so = a; std::sort(so.begin(), so.end()); for (auto x : so) y.push_back((x-m)/sd);
          auto phi = [](ld x) { return .5L*erfcl(-x*0.70710678118654752440L); };
          ld A = -(ld) n, cond = 0; bool tail = false; for (size_t i = 0; i < n; i++) { ld p = phi(y[i]), u = phi(-y[n-1-i]); if (std::fabs(y[i]) > 5 || p <= 0 || u <= 0) tail = true; else { A -= (2*(ld) i+1)/n*(std::log(p) + std::log(u)); cond += (2*(ld) i+1)/n*(1/p + 1/u + 8*(n + 4)*(1 + am/sd)); } }
          double got = AndersonDarling::compute_statistic(n, &t[0]);
          if (!tail) { stat("Anderson-Darling statistics"); check(near_(got, A, 8*EPS*(1 + cond)), "Anderson-Darling", "statistic of %zu values %.15g instead of %.15Lg", n, got, A); }
          std::sort(a0.begin(), a0.end()); std::sort(t.begin(), t.end()); check(t == a0, "Anderson-Darling operand", "values changed");
      }
      double N = (double) U(4, 5000); V cv; AndersonDarling::compute_critical_values(N, cv); const double A5[] = {0.576, 0.656, 0.787, 0.918, 1.092};
      check(cv.size() == 5, "critical values", "%zu values", cv.size()); if (cv.size() == 5) for (int i = 0; i < 5; i++) check(near_(cv[i], A5[i]/(1 + 4/N - 25/(N*N)), 1e-12), "critical values", "N=%g level %d: %.15g", N, i, cv[i]);
    }
}

static void vector_case() {
    size_t n = U(1, 40); V a = vals(n), b = vals(n), a0 = a, b0 = b; cur_case = fmt("vectors of %zu", n); for (auto x : a) mixd(x);
    stat("vector cases");
    ld q = 0, z = 0, s2 = 0, sm = 0, sa = 0; for (size_t i = 0; i < n; i++) { q += (ld) a[i]*b[i]; z += std::fabs((ld) a[i]*b[i]); s2 += (ld) a[i]*a[i]; sm += a[i]; sa += std::fabs((ld) a[i]); }
    check(near_(linalg::dot(&a[0], &b[0], n), q, EPS*(n+2)*z), "dot", "%zu elements", n);
    check(near_(linalg::dot(a, b), q, EPS*(n+2)*z), "dot", "%zu elements (vectors)", n);
    check(near_(linalg::frobenius_norm(&a[0], n), std::sqrt(s2), EPS*(n+4)*std::sqrt(s2)), "vector norm", "%zu", n);
    V o; if (P(.5)) o = vals(n); linalg::vdiff(&a[0], &b[0], n, o); check(o.size() == n, "vdiff", "%zu of %zu", o.size(), n);
    if (o.size() == n) for (size_t i = 0; i < n; i++) check(near_(o[i], (ld) a[i]-b[i], EPS*std::fabs((ld) a[i]-b[i])), "vdiff", "element %zu of %zu", i, n);
    { size_t c = U(1, 8); V m = vals(n*c), m0 = m, res = vals(U(0, 9)); linalg::dot(&a[0], &m[0], n, c, res); check(res.size() == c, "vector times matrix", "%zu of %zu", res.size(), c);
      if (res.size() == c) for (size_t j = 0; j < c; j++) { ld x = 0, y = 0; for (size_t i = 0; i < n; i++) { x += (ld) a[i]*m[i*c+j]; y += std::fabs((ld) a[i]*m[i*c+j]); } check(near_(res[j], x, EPS*(n+2)*y), "vector times matrix", "%zux%zu column %zu: %.17g instead of %.17Lg", n, c, j, res[j], x); }
      check(m == m0, "vector times matrix operand", "changed"); }
    { V res; if (P(.5)) res = vals(n); double f = vals(1)[0]; linalg::scale(a, f, res); check(res.size() == n, "scale by", "size");
      if (res.size() == n) for (size_t i = 0; i < n; i++) check(near_(res[i], (ld) a[i]*f, EPS*std::fabs((ld) a[i]*f)), "scale by", "element %zu", i); }
    { V p = a; for (auto& x : p) x = std::fabs(x); V res; if (P(.5)) res = vals(n); double e = R(.2, 3); linalg::pow(p, res, e); check(res.size() == n, "pow", "size");
      if (res.size() == n) for (size_t i = 0; i < n; i++) check(near_(res[i], std::pow((ld) p[i], (ld) e), 4*EPS*std::pow((ld) p[i], (ld) e) + 1e-320L), "pow", "element %zu", i); }
    { V t = a; linalg::peq(&t[0], &b[0], n); for (size_t i = 0; i < n; i++) check(near_(t[i], (ld) a[i]+b[i], EPS*std::fabs((ld) a[i]+b[i])), "peq", "element %zu", i); }
    check(a == a0 && b == b0, "vector operands", "changed");
    // standardisation
    { V t = a; bool cst = P(.1); if (cst) t.assign(n, vals(1)[0]); V t0 = t; linalg::scale(&t[0], n); ld m = 0, v = 0, am = 0; for (auto x : t0) { m += x; am = std::max(am, std::fabs((ld) x)); } m /= n; for (auto x : t0) v += (x-m)*(x-m); ld sd = std::sqrt(v/n);
      if (sd > 1e-6L*am) for (size_t i = 0; i < n; i++) check(near_(t[i], (t0[i]-m)/sd, 64*n*EPS*(1 + am/sd)*(1 + std::fabs((t0[i]-m)/sd))), "standardise", "element %zu of %zu: %.17g instead of %.17Lg", i, n, t[i], (t0[i]-m)/sd);
      else for (size_t i = 0; i < n; i++) check(std::isfinite(t[i]), "standardise", "constant vector gives %g", t[i]); }
    ad_case(a);
}

static void misc_case() {
    size_t r = U(1, 30), c = U(1, 8); V a = vals(r*c); if (P(.3)) { size_t z = U(0, r-1); for (size_t j = 0; j < c; j++) a[z*c+j] = 0; }
    cur_case = fmt("helpers %zux%zu", r, c); for (auto x : a) mixd(x); stat("helper cases");
    V b = a; spherical_projection(&b[0], r, c);
    for (size_t i = 0; i < r; i++) { ld s = 0; for (size_t j = 0; j < c; j++) s += (ld) a[i*c+j]*a[i*c+j]; s = std::sqrt(s);
        for (size_t j = 0; j < c; j++) check(near_(b[i*c+j], s == 0 ? a[i*c+j] : a[i*c+j]/s, EPS*(c+6)), "projection", "row %zu column %zu of %zux%zu", i, j, r, c); }
    V dv = vals(U(1, 60)); ld s = 0, z = 0; for (auto x : dv) { s += x; z += std::fabs((ld) x); } unsigned k = (unsigned) U(1, 20);
    ld pen = std::log((ld) r)*c*k; check(near_(get_bic(dv, r, c, k), 2*s + pen, EPS*(2*(dv.size()+8)*z + 8*pen)), "information criterion", "%zu distances", dv.size());
    unsigned x = P(.5) ? (unsigned) U(1, 70) : (unsigned) U(1, 1u << 20), lo = 1; while (lo*2 <= x) lo *= 2;
    check(get_hclust_floor(x) == lo, "power of two below", "%u: %u", x, get_hclust_floor(x)); check(get_hclust_ceil(x) == (lo == x ? x : 2*lo), "power of two above", "%u: %u", x, get_hclust_ceil(x));
    unsigned nodes = 0; for (unsigned i = 1; i <= x; i *= 2) nodes += i; check(get_max_hnodes(x) == nodes, "tree nodes", "%u", x);
    V e = a; check(v_eq(a, e) && eq_all(&a[0], &e[0], (unsigned) a.size()), "vector equality", "equal vectors differ");
    size_t i = U(0, e.size()-1); e[i] += 1 + std::fabs(e[i]); check(!v_eq(a, e) && !eq_all(&a[0], &e[0], (unsigned) a.size()), "vector equality", "vectors differing in %zu of %zu are equal", i, a.size());
    e.pop_back(); check(!v_eq(a, e) && !v_eq(e, a), "vector equality", "vectors of different length are equal");
    std::vector<int> cc(U(1, 9), 4); check(v_eq_const(cc, 4), "constant vector", "not recognised"); cc[U(0, cc.size()-1)] = 5; check(!v_eq_const(cc, 4), "constant vector", "wrongly recognised");
}

static void one_case() {
    static const bool ad = getenv("U_MODE") && !strcmp(getenv("U_MODE"), "ad");
    if (ad) { V a = vals(U(3, P(.3) ? 400 : 40)); if (P(.3)) for (auto& x : a) x += 1000; cur_case = fmt("sample of %zu", a.size()); for (auto x : a) mixd(x); ad_case(a); return; }
    double p = R(0, 1);
    if (p < .5) matrix_case(); else if (p < .7) square_case(); else if (p < .9) vector_case(); else misc_case();
}
