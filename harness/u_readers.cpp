// P21: readers and writers against the bytes they were given
#include "u.hpp"
#include <sys/wait.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <cassert>
#include "io.hpp"
#include "util.hpp"
#include "thread.hpp"
using namespace knor; using namespace knor::base;
typedef std::vector<double> V;

static std::string dir() { static std::string d; if (d.empty()) { d = "rd." + std::to_string(getpid()); if (mkdir(d.c_str(), 0700)) exit(97); } return d; }
static void put(const std::string& fn, const void* p, size_t n) { FILE* f = fopen(fn.c_str(), "wb"); if (!f || (n && fwrite(p, 1, n, f) != n) || fclose(f)) exit(97); }
static std::string get(const std::string& fn) { std::ifstream f(fn, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
static V bits(size_t n) { V v = vals(n); for (auto& x : v) if (P(.02)) { const double sp[] = {INFINITY, -INFINITY, NAN, -0., 5e-324, DBL_MAX}; x = sp[U(0, 5)]; } return v; }
static bool eqb(const double* a, const double* b, size_t n) { return !memcmp(a, b, n*sizeof(double)); }
// how a call that must be refused ends
static bool refused(std::function<void()> f) {
    fflush(NULL);
    pid_t p = fork();
    if (p == 0) {
        if (!freopen("/dev/null", "w", stderr)) _exit(0);
        try { f(); } catch (std::exception&) { _exit(42); }
        _exit(0);
    }
    int st; waitpid(p, &st, 0);
    if (WIFSIGNALED(st)) return WTERMSIG(st) == SIGABRT;
    return WEXITSTATUS(st) == 42;
}

class filethread : public thread {
public:
    filethread(unsigned id, size_t ncol, unsigned* asg, unsigned from, size_t rows, const std::string& fn) : thread(0, id, ncol, asg, from, fn) { set_data_size(rows*ncol*sizeof(double)); this->start(WAIT); }
    static void* nothing(void*) { return NULL; }
    void start(const thread_state_t) override { if (pthread_create(&hw_thd, NULL, nothing, NULL)) exit(97); }
    void run() override { }
    double* mine() { return local_data; }
    void release() { destroy_numa_mem(); local_data = NULL; preallocd_data = true; }
};

template <typename T> static void bin_case(const char* tn) {
    size_t r = U(1, 60), c = U(1, 12); if (P(.03)) { if (P(.5)) r = U(1000, 6000); else { r = U(1, 5); c = U(500, 5000); } } V v = bits(r*c); std::vector<T> data(v.begin(), v.end());
    if (sizeof(T) == 8) { memcpy((void*) data.data(), v.data(), r*c*8); }
    std::string fn = dir() + "/b"; cur_case = fmt("binary %zux%zu of %s", r, c, tn); for (auto x : v) mixd(x); stat("binary files");
    size_t B = sizeof(T);
    if (P(.5)) put(fn, data.data(), r*c*B);
    else { bin_io<T> w(fn, r, c, "wb"); size_t at = 0; while (at < r*c) { size_t n = std::min(r*c - at, U(1, r*c)); if (P(.5)) w.write(&data[at], n); else { std::vector<T> s(data.begin() + at, data.begin() + at + n); w.write(s, n); } at += n; } stat("written"); }
    std::string raw = get(fn);
    check(raw.size() == r*c*B && !memcmp(raw.data(), data.data(), raw.size()), "write", "%zu bytes written instead of %zu, or others", raw.size(), r*c*B);
    check(filesize(fn.c_str()) == r*c*B && is_file_exist(fn.c_str()), "file size", "%zu", filesize(fn.c_str()));
    auto same = [&](const T* a, const T* b, size_t n) { return !memcmp((const void*) a, (const void*) b, n*B); };
    { std::vector<T> o(r*c); bin_io<T> br(fn, r, c); if (P(.5)) br.read(&o); else br.read(o.data()); check(same(o.data(), data.data(), r*c), "whole read", "differs from the file"); check(!br, "end of data", "not reached after reading all"); }
    { bin_io<T> br(fn, r, c); bool ok = true; for (size_t i = 0; i < r && ok; i++) { check((bool) br, "end of data", "reached before row %zu of %zu", i, r); std::vector<T> row(c); if (P(.5)) row = br.readline(); else br.readline(row.data()); ok = row.size() == c && same(row.data(), &data[i*c], c); check(ok, "row read", "row %zu differs from the file", i); stat("rows read"); } check(!br, "end of data", "not reached"); }
    { bin_rm_reader<T> rd(fn); std::vector<T> o(r*c); if (P(.3)) { size_t f = U(0, r-1); rd.seek(f*c*B); o.resize((r-f)*c); rd.read(o); check(same(o.data(), &data[f*c], (r-f)*c), "read after seek", "from row %zu of %zu", f, r); } else { rd.read(o); check(same(o.data(), data.data(), r*c), "whole read", "differs from the file"); } }
    { bin_rm_reader<T> rd(fn); rd.set_ncol(c); check(rd.get_ncol() == c && rd.get_fn() == fn, "reader", "shape"); std::vector<T> row(c); size_t f = P(.3) ? U(0, r-1) : 0, i = f; if (f) rd.seek(f*c*B);
      while (i <= r && rd.readline(row)) { if (i < r) check(same(row.data(), &data[i*c], c), "row read", "row %zu of %zu differs from the file", i, r); i++; stat("rows read"); }
      check(i == r && rd.get_nrow() == r - f, "row read", "%zu rows (counted %zu) instead of %zu", i - f, rd.get_nrow(), r - f); }
}

static std::string num(double x) { char b[64]; switch (U(0, 2)) { case 0: snprintf(b, sizeof b, "%.17g", x); break; case 1: snprintf(b, sizeof b, "%.17e", x); break; default: snprintf(b, sizeof b, "%+.17g", x); } return b; }
static void text_case() {
    size_t r = U(1, 30), c = U(1, 8); if (P(.06)) { r = U(1, 4); c = U(150, 700); } V v = vals(r*c); std::string fn = dir() + "/t", s; cur_case = fmt("text %zux%zu", r, c); for (auto x : v) mixd(x); stat("text files");
    bool last = P(.7);
    for (size_t i = 0; i < r; i++) { if (P(.2)) s += " "; for (size_t j = 0; j < c; j++) { s += num(v[i*c+j]); if (j + 1 < c) s += P(.8) ? " " : P(.5) ? "\t" : "   "; } if (P(.2)) s += " "; if (P(.05)) s += "\r"; if (i + 1 < r || last) s += "\n"; }
    put(fn, s.data(), s.size());
    { text_reader<double> rd(fn); V o(r*c); rd.set_ncol(c); rd.read(o); check(eqb(o.data(), v.data(), r*c), "text read", "values differ"); check(rd.get_nrow() == r, "text rows", "%zu instead of %zu", rd.get_nrow(), r); }
    { text_reader<double> rd(fn); V row(c); size_t i = 0; while (i <= r && rd.readline(row)) { if (i < r) check(eqb(row.data(), &v[i*c], c), "text row", "row %zu differs", i); i++; stat("rows read"); } check(i == r && rd.get_nrow() == r, "text rows", "%zu instead of %zu", i, r); }
}

static void range_case() {           // what a worker reads of a file
    size_t c = U(1, 10), r = U(1, 400), T = U(1, std::min<size_t>(r, 9)); V v = bits(r*c); std::string fn = dir() + "/r"; put(fn, v.data(), r*c*8);
    cur_case = fmt("%zu workers reading %zux%zu", T, r, c); for (auto x : v) mixd(x); mix(T); stat("range reads", T);
    std::vector<unsigned> asg(r); size_t at = 0;
    for (size_t t = 0; t < T; t++) {
        size_t n = t + 1 == T ? r - at : P(.8) ? r/T : U(1, r - at - (T - 1 - t)); n = std::min(n, r - at - (T - 1 - t));
        filethread th((unsigned) t, c, asg.data(), (unsigned) at, n, fn);
        th.numa_alloc_mem();
        check(th.mine() && eqb(th.mine(), &v[at*c], n*c), "range read", "rows %zu..(%zu) of %zu x %zu differ from the file", at, n, r, c);
        for (size_t q : {(size_t) 0, n-1}) check(th.get_global_data_id((unsigned) q) == at + q, "global row", "local row %zu of the worker from %zu is %u", q, at, th.get_global_data_id((unsigned) q));
        th.release();
        // and of memory
        filethread tm((unsigned) t, c, asg.data(), (unsigned) at, n, ""); tm.set_local_data_ptr(v.data()); check(tm.mine() == &v[at*c], "range of memory", "worker from row %zu reads at %td", at, tm.mine() - v.data());
        at += n;
    }
}

// offsets beyond 2 and 4 GiB, in a file that is mostly a hole
static void far_case() {
    size_t c = U(1, 3) == 1 ? 512 : U(4, 64), r = U(1, 20); size_t lo = ((size_t) 1 << U(31, 34)) / (c*8), from = lo - std::min<size_t>(lo, U(0, 12)) + U(0, 3), tail = U(0, 5);
    V v = bits(r*c); std::string fn = dir() + "/far"; off_t at = (off_t) (from*c*8);
    cur_case = fmt("rows %zu..(%zu) of %zu columns in a file beyond %zu bytes", from, r, c, (size_t) at); mix(from); mix(c); for (auto x : v) mixd(x);
    int fd = open(fn.c_str(), O_RDWR|O_CREAT|O_TRUNC, 0600); if (fd < 0) exit(97);
    if (ftruncate(fd, at + (off_t) ((r + tail)*c*8)) || pwrite(fd, v.data(), r*c*8, at) != (ssize_t) (r*c*8)) { close(fd); unlink(fn.c_str()); return; }    // not on this file system
    close(fd); stat("far reads");
    check(filesize(fn.c_str()) == (size_t) at + (r + tail)*c*8, "file size", "%zu", filesize(fn.c_str()));
    { unsigned asg[1]; filethread th(0, c, asg, (unsigned) from, r, fn); th.numa_alloc_mem(); check(th.mine() && eqb(th.mine(), v.data(), r*c), "range read", "rows from %zu, at byte %zu, differ from the file", from, (size_t) at);
      check(th.get_global_data_id((unsigned) (r-1)) == from + r - 1, "global row", "%u", th.get_global_data_id((unsigned) (r-1))); th.release(); }
    { bin_rm_reader<double> rd(fn); rd.set_ncol(c); rd.seek((size_t) at); V row(c); for (size_t i = 0; i < r; i++) { bool ok = rd.readline(row); check(ok && eqb(row.data(), &v[i*c], c), "read after seek", "row %zu after byte %zu differs from the file", i, (size_t) at); } }
    unlink(fn.c_str());
}

static void store_case() {
    size_t r = U(1, 80), c = U(1, 6), k = U(1, 5); V v = vals(r*c); std::vector<unsigned> a(r); std::vector<unsigned> cnt(k); for (auto& x : a) cnt[x = (unsigned) U(0, k-1)]++;
    cur_case = fmt("stored cluster of %zux%zu", r, c); for (auto x : v) mixd(x); stat("stored clusters");
    unsigned id = (unsigned) U(0, k-1); std::string d = dir() + "/"; store_cluster(id, v.data(), cnt[id], a.data(), r, c, d);
    std::string fn = d + "cluster_" + std::to_string(id) + "_r" + std::to_string(cnt[id]) + "_c" + std::to_string(c) + ".bin", raw = get(fn); V want;
    for (size_t i = 0; i < r; i++) if (a[i] == id) want.insert(want.end(), &v[i*c], &v[i*c] + c);
    check(raw.size() == want.size()*8 && (want.empty() || !memcmp(raw.data(), want.data(), raw.size())), "stored cluster", "%zu bytes instead of %zu, or others", raw.size(), want.size()*8);
    unlink(fn.c_str());
}

static void refuse_case() {
    size_t r = U(1, 20), c = U(1, 8); V v = vals(r*c); std::string fn = dir() + "/s", none = dir() + "/absent"; size_t miss = P(.4) ? U(1, 8) : U(1, r*c*8); put(fn, v.data(), r*c*8 - miss);
    int w = (int) U(0, 6); cur_case = fmt("short or missing file, reader %d, %zux%zu less %zu bytes", w, r, c, miss); mix(w); mix(r); mix(c); mix(miss); stat("refusals");
    bool ok = true; const char* what = "";
    switch (w) {
        case 0: what = "bin_io on a missing file"; ok = refused([&] { bin_io<double> b(none, r, c); }); check(!is_file_exist(none.c_str()), "file exists", "missing file"); break;
        case 1: what = "text reader on a missing file"; ok = refused([&] { text_reader<double> b(none); }); break;
        case 2: what = "binary reader on a missing file"; ok = refused([&] { bin_rm_reader<double> b(none); }); break;
        case 3: what = "whole read of a short file"; ok = refused([&] { bin_io<double> b(fn, r, c); V o(r*c); if (P(.5)) b.read(&o); else b.read(o.data()); }); break;
        case 4: what = "row reads of a short file"; ok = refused([&] { bin_io<double> b(fn, r, c); V o(c); bool p = P(.5); for (size_t i = 0; i < r; i++) if (p) b.readline(); else b.readline(o.data()); }); break;
        case 5: what = "worker reading a missing file"; ok = refused([&] { unsigned a[400]; filethread t(0, c, a, 0, r, none); }); break;
        case 6: what = "worker reading a short file"; ok = refused([&] { unsigned a[400]; filethread t(0, c, a, 0, r, fn); t.numa_alloc_mem(); }); break;
    }
    check(ok, "refusal", "%s was not reported", what);
    { bin_rm_reader<double> rd(fn); rd.set_ncol(c); V row(c); size_t n = 0; while (n <= r && rd.readline(row)) n++; check(n == (r*c*8 - miss)/(c*8), "rows of a short file", "%zu rows read of %zu complete ones", n, (r*c*8 - miss)/(c*8)); }
}

static void one_case() {
    double p = R(0, 1);
    if (p < .3) bin_case<double>("double"); else if (p < .36) bin_case<float>("float"); else if (p < .55) text_case(); else if (p < .79) range_case(); else if (p < .8) far_case(); else if (p < .88) store_case(); else refuse_case();
}
