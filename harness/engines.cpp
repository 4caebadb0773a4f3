// Runs knor's engines on jobs read from a file. Every job is a forked child, which does
// one or more runs and writes what they returned; the parent records how each child ended.
//   engines JOBS OUTDIR PARALLEL
// JOBS:  job ID timeout=S [perturb=SEED:LEVEL] [...]   then lines  run key=value ...   then  end
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <sstream>
#include <fstream>
#include <iostream>
#include <algorithm>
#include <memory>
#include <random>
#include <atomic>
#include <thread>
#include <new>
#include <unistd.h>
#include <fcntl.h>
#include <dirent.h>
#include <malloc.h>
#include <signal.h>
#include <time.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/resource.h>

#include "kmeans_coordinator.hpp"
#include "kmeans_task_coordinator.hpp"
#include "skmeans_coordinator.hpp"
#include "medoid_coordinator.hpp"
#include "fcm_coordinator.hpp"
#include "hclust_coordinator.hpp"
#include "xmeans_coordinator.hpp"
#include "gmeans_coordinator.hpp"
#include "io.hpp"
#include "binding/kmeanspp.hpp"
#include "binding/numa_reorg.hpp"
#ifdef _OPENMP
#include "libauto/kmeans.hpp"
#include <omp.h>
#endif

#ifdef USE_NUMA
#include <numa.h>
#endif
#include "perturb.hpp"

namespace kb = knor::base;
namespace kp = knor::prune;
typedef std::map<std::string, std::string> opts_t;

static std::string S(const opts_t& o, const char* k, const char* d="") {
    auto it = o.find(k); return it == o.end() ? std::string(d) : it->second; }
static long I(const opts_t& o, const char* k, long d=0) {
    auto it = o.find(k); return it == o.end() ? d : strtol(it->second.c_str(), 0, 10); }
static double D(const opts_t& o, const char* k, double d=0) {
    auto it = o.find(k); return it == o.end() ? d : strtod(it->second.c_str(), 0); }

// The data of a run, in a block of exactly its size (so that the sanitizers know its end)
static double* load(const std::string& fn, size_t nelem) {
    double* p = (double*) malloc(nelem*sizeof(double));
    FILE* f = fopen(fn.c_str(), "rb");
    if (!f || fread(p, sizeof(double), nelem, f) != nelem) {
        fprintf(stderr, "HARNESS cannot read %s\n", fn.c_str()); _exit(97); }
    fclose(f);
    return p;
}

static int count_dir(const char* d) {
    int n = 0; DIR* dir = opendir(d); if (!dir) return -1;
    while (readdir(dir)) n++;
    closedir(dir); return n - 2;
}
static long vm_pages() {
    long v = 0; FILE* f = fopen("/proc/self/statm", "r"); if (!f) return 0;
    if (fscanf(f, "%ld", &v) != 1) v = 0; fclose(f); return v;
}

struct record_t {
    std::string error;   // an exception ended the run
    kb::cluster_t c;
    int modified;        // the caller's data changed
    int centers_modified;
    double energy; long best_start;
    std::vector<double> data_after;
    int threads_after, fds_before, fds_after, threads_before, created, joined;
    double secs; live_counts_t live0, live1;
};

static void put(FILE* f, const record_t& r) {
    std::string e;
    for (char ch : r.error) if (ch == '"' || ch == '\\' || (unsigned char) ch < 32) e += ' '; else e += ch;
    char buf[2048];
    snprintf(buf, sizeof buf, "{\"error\":\"%.800s\",\"nrow\":%zu,\"ncol\":%zu,\"iters\":%zu,\"k\":%zu,"
        "\"na\":%zu,\"nc\":%zu,\"nm\":%zu,\"nx\":%zu,\"modified\":%d,\"cmod\":%d,\"energy\":\"%a\",\"best_start\":%ld,"
        "\"threads_before\":%d,\"threads_after\":%d,\"created\":%d,\"joined\":%d,\"delays\":%lu,\"fds_before\":%d,\"fds_after\":%d,\"vm\":%ld,\"heap\":%zu,\"left\":%ld,\"left_blocks\":%ld,\"left_numa\":%ld,\"secs\":%.6f}\n",
        e.c_str(), r.c.nrow, r.c.ncol, r.c.iters, r.c.k, r.c.assignments.size(), r.c.assignment_count.size(),
        r.c.centroids.size(), r.data_after.size(), r.modified, r.centers_modified, r.energy, r.best_start,
        r.threads_before, r.threads_after, r.created, r.joined, perturb_count(), r.fds_before, r.fds_after, vm_pages(),
        (size_t) mallinfo2().uordblks,
        r.live1.objects - r.live0.objects, r.live1.blocks - r.live0.blocks, r.live1.numa - r.live0.numa, r.secs);
    fputs(buf, f);
    if (r.c.assignments.size()) fwrite(r.c.assignments.data(), sizeof(unsigned), r.c.assignments.size(), f);
    if (r.c.assignment_count.size()) fwrite(r.c.assignment_count.data(), sizeof(size_t), r.c.assignment_count.size(), f);
    if (r.c.centroids.size()) fwrite(r.c.centroids.data(), sizeof(double), r.c.centroids.size(), f);
    if (r.data_after.size()) fwrite(r.data_after.data(), sizeof(double), r.data_after.size(), f);
}

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec*1e-9; }

static void one_run(const opts_t& o, record_t& r) {
    const std::string eng = S(o, "engine");
    const size_t n = I(o, "n"), d = I(o, "d");
    const unsigned k = I(o, "k"), threads = I(o, "threads", 1), nodes = I(o, "nodes", 1);
    const unsigned iters = (unsigned) strtoul(S(o, "iters", "100").c_str(), 0, 10);
    const std::string src = S(o, "src", "mem"), init = S(o, "init", "none"), dist = S(o, "dist", "eucl");
    const double tol = D(o, "tol", -1);
    const std::string datafn = S(o, "data");
    std::string fn = src == "file" || src == "both" ? datafn : "";    // both: a file is named, the data given
    const size_t ncent = I(o, "ncent", k);   // rows in the centers file

    double *data = NULL, *copy = NULL, *centers = NULL, *ccopy = NULL;
    if (src != "file" || eng.compare(0, 3, "omp") == 0) {
        data = load(datafn, n*d);
        copy = load(datafn, n*d);
    }
    if (o.count("centers")) { centers = load(S(o, "centers"), ncent*d); ccopy = load(S(o, "centers"), ncent*d); }

    double t0 = now();
    try {
        knor::coordinator::ptr co;
        if (eng == "kmeans") co = knor::kmeans_coordinator::create(fn, n, d, k, iters, nodes, threads, centers, init, tol, dist);
        else if (eng == "prune" || eng == "mb") co = kp::kmeans_task_coordinator::create(fn, n, d, k, iters, nodes, threads, centers, init, tol, dist);
        else if (eng == "skmeans") co = knor::skmeans_coordinator::create(fn, n, d, k, iters, nodes, threads, centers, init, tol, dist);
        else if (eng == "medoid") co = knor::medoid_coordinator::create(fn, n, d, k, iters, nodes, threads, centers, init, tol, dist, D(o, "rate", .2));
        else if (eng == "fcm") co = knor::fcm_coordinator::create(fn, n, d, k, iters, nodes, threads, centers, init, tol, dist, I(o, "fuzz", 2));
        else if (eng == "hclust") co = knor::hclust_coordinator::create(fn, n, d, k, iters, nodes, threads, centers, init, tol, dist, I(o, "minsz", 2));
        else if (eng == "xmeans") co = knor::xmeans_coordinator::create(fn, n, d, k, iters, nodes, threads, centers, init, tol, dist, I(o, "minsz", 2));
        else if (eng == "gmeans") co = knor::gmeans_coordinator::create(fn, n, d, k, iters, nodes, threads, centers, init, tol, dist, I(o, "minsz", 2), I(o, "strict", 4));

        if (eng == "mb") {
            auto kc = std::static_pointer_cast<kp::kmeans_task_coordinator>(co);
            kc->set_mini_batch_size(I(o, "batch", 10));
            r.c = kc->mb_run(data);
        } else if (co) {
            if (src == "numa") {
                auto md = knor::binding::memory_distributor<double>::create(data, nodes, n, d);
                md->numa_reorg(co->get_threads());
                r.c = co->run(NULL, true);
            } else
                r.c = co->run(data);
        } else if (eng == "kpp") {
            auto res = src == "file" ? kb::kmeansPP(datafn, n, d, k, I(o, "nstart", 1), threads, dist)
                                     : kb::kmeansPP(data, n, d, k, I(o, "nstart", 1), threads, dist);
            r.best_start = res.first.first; r.energy = res.first.second; r.c = res.second;
        }
        else if (eng == "kppone") {     // the state of one k-means++ start
            auto kc = std::static_pointer_cast<kp::kmeans_task_coordinator>(kp::kmeans_task_coordinator::create(
                fn, n, d, k, 0, nodes, threads, NULL, "kmeanspp", -1, dist));
            r.c = kc->run(data);
            kc->tally_assignment_counts();
            for (long s = 1; s < I(o, "start", 1); s++) { kc->reinit(); kc->tally_assignment_counts(); }
            r.energy = kc->compute_cluster_energy();
            if (I(o, "start", 1) > 1) r.c = kc->dump_state();
        }
#ifdef _OPENMP
        else if (eng == "omp" || eng == "ompmin") {
            std::vector<unsigned> asg(n);
            std::vector<knor::llong_t> cnt(k);
            double* cc = (double*) malloc(std::max<size_t>(1, k)*d*sizeof(double));
            for (size_t i = 0; i < k*d; i++) cc[i] = centers ? centers[i] : 0;
            try {
                if (eng == "omp") r.c = knor::omp::compute_kmeans(data, cc, asg.data(), cnt.data(), n, d, k, iters, threads, init, tol, dist);
                else r.c = knor::omp::compute_min_kmeans(data, cc, asg.data(), cnt.data(), n, d, k, iters, threads, init, tol, dist);
                // what it wrote into the caller's buffers has to agree with what it returned
                if (I(o, "chkbuf", 1)) {
                    bool ok = r.c.assignments == asg && r.c.centroids.size() == k*d && r.c.assignment_count.size() == k;
                    for (size_t i = 0; ok && i < k; i++) ok = (knor::llong_t) r.c.assignment_count[i] == cnt[i];
                    if (!ok) r.error = "BUFFERS the caller's buffers differ from the returned clustering";
                }
            } catch (...) { free(cc); throw; }
            free(cc);
        }
#endif
        else { fprintf(stderr, "HARNESS unknown engine %s\n", eng.c_str()); _exit(97); }
    } catch (const std::exception& e) {
        r.error = std::string("EXCEPTION ") + e.what();
    }
    r.secs = now() - t0;
    if (data) {
        r.modified = memcmp(data, copy, n*d*sizeof(double)) != 0;
        if (I(o, "dump_data")) r.data_after.assign(data, data + n*d);
        free(data); free(copy);
    }
    if (centers) { r.centers_modified = memcmp(centers, ccopy, ncent*d*sizeof(double)) != 0; free(centers); free(ccopy); }
}

struct job_t { std::string id; opts_t o; std::vector<opts_t> runs; };

static void parse_kv(std::istringstream& is, opts_t& o) {
    std::string t;
    while (is >> t) { size_t p = t.find('='); if (p != std::string::npos) o[t.substr(0, p)] = t.substr(p + 1); }
}

static int settle_threads() {   // threads of this process that have not ended
    thread_counts_t c = thread_counts();
    for (int i = 0; i < 300 && c.created > c.ended; i++) { usleep(1000); c = thread_counts(); }
    return (int) (c.created - c.ended);
}

static void child(const job_t& j, const std::string& outdir) {
    int nul = open("/dev/null", O_RDWR);
    dup2(nul, 0); dup2(nul, 1); close(nul);
    int err = open((outdir + "/" + j.id + ".err").c_str(), O_WRONLY|O_CREAT|O_TRUNC, 0644);
    dup2(err, 2); close(err);
    struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
    if (getenv("KNORV_PID")) { fprintf(stderr, "PID %d\n", (int) getpid()); fflush(stderr); }
    perturb_config(S(j.o, "perturb"));
    std::string tmp = outdir + "/" + j.id + ".tmp";
    FILE* f = fopen(tmp.c_str(), "wb");
    if (j.o.count("conc")) {        // all runs at the same time
        std::vector<record_t*> rs; std::vector<std::thread> ts; std::atomic<int> ready(0);
        for (size_t i = 0; i < j.runs.size(); i++) {
            rs.push_back(new record_t()); record_t* r = rs.back();
            r->modified = 0; r->centers_modified = 0; r->energy = 0; r->best_start = -1;
            r->threads_after = r->fds_before = r->fds_after = r->threads_before = r->created = r->joined = 0; r->live0 = r->live1 = live_counts();
        }
        for (size_t i = 0; i < j.runs.size(); i++)
            ts.push_back(std::thread([&, i] {
                ready++; while (ready.load() < (int) j.runs.size()) usleep(50);
                one_run(j.runs[i], *rs[i]);
            }));
        for (auto& t : ts) t.join();
        for (auto r : rs) { put(f, *r); delete r; }
    } else
    for (auto const& ro : j.runs) {
        long repeat = I(ro, "repeat", 1), keep = I(ro, "keep", repeat);
        for (long i = 0; i < repeat; i++) {
            record_t* r = new record_t();
            r->modified = 0; r->centers_modified = 0; r->energy = 0; r->best_start = -1;
            thread_counts_t c0 = thread_counts(); r->threads_before = c0.created - c0.ended; r->fds_before = count_dir("/proc/self/fd");
            r->live0 = live_counts();
            one_run(ro, *r);
            r->threads_after = settle_threads();
            thread_counts_t c1 = thread_counts();
            r->created = c1.created - c0.created; r->joined = c1.joined - c0.joined;
            // what the run left behind: all that is alive but its result
            r->live1 = live_counts();
            r->live1.objects -= (r->c.assignments.capacity() > 0) + (r->c.assignment_count.capacity() > 0) + (r->c.centroids.capacity() > 0)
                + (r->data_after.capacity() > 0) + (r->error.capacity() > 15);
            r->fds_after = count_dir("/proc/self/fd");
            if (i < keep || i >= repeat - keep) { put(f, *r); fflush(f); }
            delete r;
        }
    }
    fclose(f);
    rename(tmp.c_str(), (outdir + "/" + j.id + ".res").c_str());
    if (j.o.count("exit")) exit(0);    // let exit handlers (leak detection) run
    fflush(NULL);
#if defined(__SANITIZE_THREAD__)
    exit(0);                            // its exit status tells about reports
#endif
    _exit(0);
}

int main(int argc, char** argv) {
    if (argc < 4) return 96;
#ifdef USE_NUMA
    {   // libnuma fills its table of nodes at first use, unsynchronised: not what is judged here
        struct bitmask* m = numa_allocate_cpumask(); numa_node_to_cpus(0, m); numa_free_cpumask(m);
    }
#endif
    std::ifstream in(argv[1]);
    std::string outdir = argv[2];
    int par = atoi(argv[3]);
    int budget = argc > 4 ? atoi(argv[4]) : 1 << 30;      // time-outs after which no more jobs are run
    std::vector<job_t> jobs; std::string line;
    while (std::getline(in, line)) {
        std::istringstream is(line); std::string w; is >> w;
        if (w == "job") { jobs.push_back(job_t()); is >> jobs.back().id; parse_kv(is, jobs.back().o); }
        else if (w == "run") { jobs.back().runs.push_back(opts_t()); parse_kv(is, jobs.back().runs.back()); }
    }
    in.close();
    std::ofstream idx(outdir + "/index");
    struct live_t { size_t job; double t0; bool killed, given_up; };
    std::map<pid_t, live_t> live;
    size_t next = 0;
    while (next < jobs.size() || !live.empty()) {
        if (budget <= 0) {
            for (auto& l : live) if (!l.second.killed) { l.second.killed = l.second.given_up = true; kill(l.first, SIGKILL); }
            for (; next < jobs.size(); next++) idx << jobs[next].id << " unknown 0 0\n";
        }
        while (next < jobs.size() && (int) live.size() < par) {
            idx.flush();
            pid_t p = fork();
            if (p < 0) { perror("HARNESS fork"); return 95; }
            if (p == 0) { setpgid(0, 0); child(jobs[next], outdir); _exit(94); }
            live_t l = {next, now(), false, false}; live[p] = l; next++;
        }
        int st; pid_t p = waitpid(-1, &st, WNOHANG);
        if (p > 0) {
            auto it = live.find(p); if (it == live.end()) continue;
            const job_t& j = jobs[it->second.job];
            idx << j.id << ' ' << (it->second.given_up ? "unknown" : it->second.killed ? "timeout" : WIFSIGNALED(st) ? "signal" : "exit") << ' '
                << (WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st)) << ' ' << (now() - it->second.t0) << "\n";
            live.erase(it);
            continue;
        }
        for (auto& l : live)
            if (!l.second.killed && now() - l.second.t0 > D(jobs[l.second.job].o, "timeout", 60)) {
                l.second.killed = true; budget--; kill(l.first, SIGKILL); }
        usleep(500);
    }
    idx << "done\n";
    return 0;
}
