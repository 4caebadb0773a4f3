#pragma once
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <cstring>
#include <vector>
#include <string>
#include <set>
#include <algorithm>
#include <unistd.h>
#include "kmeans_coordinator.hpp"
#include "kmeans_task_coordinator.hpp"
#include "skmeans_coordinator.hpp"
#include "medoid_coordinator.hpp"
#include "fcm_coordinator.hpp"
#include "hclust_coordinator.hpp"
#include "xmeans_coordinator.hpp"
#include "gmeans_coordinator.hpp"
#include "io.hpp"
#include "libauto/kmeans.hpp"
#include "binding/kmeanspp.hpp"

typedef std::vector<double> vec;
static unsigned long long rs = 88172645463325252ULL;
static double rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return (rs >> 11)*(1.0/9007199254740992.0); }
static double gauss() { double s = 0; for (int i = 0; i < 12; i++) s += rnd(); return s - 6; }
static vec blobs(size_t n, size_t d, size_t g, double spread = 10) {
    vec c(g*d), x(n*d);
    for (auto& v : c) v = gauss()*spread;
    for (size_t i = 0; i < n; i++) { size_t b = (size_t) (rnd()*g); for (size_t j = 0; j < d; j++) x[i*d + j] = c[b*d + j] + gauss(); }
    return x;
}
static std::string file_of(const vec& x, const char* name = "data.bin") {
    FILE* f = fopen(name, "wb"); fwrite(x.data(), sizeof(double), x.size(), f); fclose(f); return name;
}
static double dist2(const double* a, const double* b, size_t d) { double s = 0; for (size_t j = 0; j < d; j++) s += (a[j]-b[j])*(a[j]-b[j]); return s; }
static void expect(bool ok, const char* what) { if (!ok) { fprintf(stderr, "FAILED: %s\n", what); fflush(stderr); _exit(1); } }
static void quiet() { if (!freopen("/dev/null", "w", stdout)) _exit(2); }
static void done() { fprintf(stderr, "as it should be\n"); _exit(0); }

// Lloyd's algorithm, plainly
struct ref_t { std::vector<unsigned> a; vec c; std::vector<size_t> n; size_t iters; };
static ref_t lloyd(const vec& x, size_t d, vec c, size_t iters) {
    size_t n = x.size()/d, k = c.size()/d; ref_t r; r.a.assign(n, ~0u); r.c = c; r.iters = 0;
    for (size_t t = 0; t < iters; t++) {
        size_t ch = 0; r.n.assign(k, 0); vec s(k*d, 0);
        for (size_t i = 0; i < n; i++) {
            unsigned b = 0; double bd = 1e300;
            for (size_t j = 0; j < k; j++) { double e = dist2(&x[i*d], &r.c[j*d], d); if (e < bd) { bd = e; b = j; } }
            if (r.a[i] != b) ch++;
            r.a[i] = b; r.n[b]++; for (size_t j = 0; j < d; j++) s[b*d + j] += x[i*d + j];
        }
        for (size_t j = 0; j < k; j++) for (size_t q = 0; q < d; q++) r.c[j*d + q] = r.n[j] ? s[j*d + q]/r.n[j] : 0;
        r.iters++;
        if (!ch) break;
    }
    return r;
}
static bool close_to(const vec& a, const vec& b, double tol = 1e-8) {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); i++) if (!(fabs(a[i] - b[i]) <= tol*(1 + fabs(b[i])))) return false;
    return true;
}
