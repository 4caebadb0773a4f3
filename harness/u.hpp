// Common parts of the unit-level monitors: random inputs, reporting.
//   BINARY SEED CASES OUTFILE
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cstdarg>
#include <cmath>
#include <cfloat>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <random>
#include <algorithm>
#include <functional>
#include <sstream>
#include <iostream>
#include <unistd.h>

typedef long double ld;
static std::mt19937_64 G;
static size_t U(size_t lo, size_t hi) { return std::uniform_int_distribution<size_t>(lo, hi)(G); }
static double R(double lo = -1, double hi = 1) { return std::uniform_real_distribution<double>(lo, hi)(G); }
static bool P(double p) { return R(0, 1) < p; }
// values of a vector: small integers, reals, large and small magnitudes, zeros
static double val(int style) {
    switch (style) {
        case 0: return (double) (long) U(0, 200) - 100;
        case 1: return R(-10, 10);
        case 2: return R()*std::pow(10., (double) U(0, 12) - 6);
        case 3: return P(.5) ? 0 : R();
        case 4: return -std::fabs(R(0, 50));
        default: return R(1e5, 1e5 + 1);
    }
}
static std::vector<double> vals(size_t n, int style) { std::vector<double> v(n); for (auto& x : v) x = val(style); return v; }
static std::vector<double> vals(size_t n) { return vals(n, (int) U(0, 5)); }

static FILE* out_;
static std::map<std::string, size_t> stats_;
static size_t nviol_;
static uint64_t cur_hash; static std::string cur_case; static size_t cur_no;
static void mix(uint64_t v) { cur_hash = (cur_hash ^ v)*1099511628211ULL; }
static void mixd(double d) { uint64_t v; memcpy(&v, &d, 8); mix(v); }
static void stat(const char* k, size_t n = 1) { stats_[k] += n; }
static std::string fmt(const char* f, ...) { char b[600]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
static void viol(const std::string& key, const std::string& msg) {
    if (nviol_++ < 20) { fprintf(out_, "VIOL\t%s\t[case %zu%s%s] %s\n", key.c_str(), cur_no, cur_case.empty() ? "" : ": ", cur_case.c_str(), msg.c_str()); fflush(out_); }
}
static bool near_(ld got, ld want, ld tol) { return std::fabs(got - want) <= tol; }
static void check(bool ok, const char* key, const char* f, ...) {
    stat("comparisons");
    if (ok) return;
    char b[600]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); viol(key, b);
}
static void one_case();
int main(int argc, char** argv) {
    if (argc < 4) return 97;
    out_ = fopen(argv[3], "w"); if (!out_) return 97;
    if (!freopen("/dev/null", "w", stdout)) return 97;
    uint64_t seed = strtoull(argv[1], 0, 10); size_t n = strtoull(argv[2], 0, 10);
    size_t only = argc > 4 ? strtoull(argv[4], 0, 10) : (size_t) -1;
    for (size_t i = 0; i < n; i++) {
        if (only != (size_t) -1 && i != only) continue;
        G.seed(seed*1000003 + i); cur_hash = 1469598103934665603ULL; cur_case.clear(); cur_no = i;
        fprintf(out_, "BEGIN\t%zu\n", i); fflush(out_);
        one_case();
        fprintf(out_, "CASE\t%016llx\t%s\n", (unsigned long long) cur_hash, cur_case.substr(0, 150).c_str());
    }
    for (auto& s : stats_) fprintf(out_, "STAT\t%s\t%zu\n", s.first.c_str(), s.second);
    fprintf(out_, "END\n"); fclose(out_);
    return 0;
}
