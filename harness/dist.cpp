// Runs knor's distributed engines, several runs per mpirun, and records on every process what
// each run left and every collective operation it took part in.
//   mpirun -n P dist JOBS OUTPREFIX     JOBS: lines  run key=value ...
#include <mpi.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <fstream>
#include <sstream>
#include <unistd.h>
#include <sched.h>
#include <fcntl.h>
#include <sys/resource.h>
#include "dist_coordinator.hpp"
#include "dist_task_coordinator.hpp"
#include "clusters.hpp"
#include "perturb.hpp"

namespace kb = knor::base;
typedef std::map<std::string, std::string> opts_t;
static std::string S(const opts_t& o, const char* k, const char* d="") { auto it = o.find(k); return it == o.end() ? std::string(d) : it->second; }
static long I(const opts_t& o, const char* k, long d=0) { auto it = o.find(k); return it == o.end() ? d : strtol(it->second.c_str(), 0, 10); }
static double D(const opts_t& o, const char* k, double d=0) { auto it = o.find(k); return it == o.end() ? d : strtod(it->second.c_str(), 0); }

// ---- the collective operations, as this process saw them
struct ev_t { unsigned long long op, count, sent, got; };
static std::vector<ev_t> trace;
static std::vector<double> vals;     // the results of small reductions of integers
static unsigned long long delay_state = 0; static int delay_level = 0;
static int world_rank = 0;

static unsigned long long fnv(const void* p, size_t n) {
    unsigned long long h = 1469598103934665603ull; const unsigned char* c = (const unsigned char*) p;
    for (size_t i = 0; i < n; i++) h = (h ^ c[i])*1099511628211ull;
    return h & 0xffffffffffffull;
}
static void stall() {
    if (!delay_level) return;
    delay_state = delay_state*6364136223846793005ull + 1442695040888963407ull;
    unsigned r = (unsigned) (delay_state >> 40);
    if (r % 4 == 0) usleep(r/4 % (200*delay_level));
}
// Waits without spinning: there are more processes than processors
static int polite(int rc, MPI_Request* q) {
    int done = 0;
    for (int i = 0; rc == MPI_SUCCESS && !done; i++) {
        rc = PMPI_Test(q, &done, MPI_STATUS_IGNORE);
        if (!done) { if (i < 20) sched_yield(); else usleep(30); }
    }
    return rc;
}
static size_t tsize(MPI_Datatype t) { int s = 0; PMPI_Type_size(t, &s); return s; }

static bool inited = false;
extern "C" int MPI_Init(int* c, char*** v) {
    if (inited) return MPI_SUCCESS;
    inited = true; return PMPI_Init(c, v);
}
extern "C" int MPI_Finalize() { return MPI_SUCCESS; }    // at the end of main
extern "C" int MPI_Allreduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) {
    stall();
    ev_t e = {1 + 16*tsize(t), (unsigned long long) n, fnv(s, n*tsize(t)), 0};
    MPI_Request q; int rc = polite(PMPI_Iallreduce(s, r, n, t, op, c, &q), &q);
    e.got = fnv(r, n*tsize(t)); trace.push_back(e); return rc;
}
extern "C" int MPI_Allgather(const void* s, int n, MPI_Datatype t, void* r, int rn, MPI_Datatype rt, MPI_Comm c) {
    stall();
    ev_t e = {2, (unsigned long long) n, fnv(s, n*tsize(t)), 0};
    MPI_Request q; int rc = polite(PMPI_Iallgather(s, n, t, r, rn, rt, c, &q), &q), np; PMPI_Comm_size(c, &np);
    e.got = fnv(r, (size_t) np*rn*tsize(rt)); trace.push_back(e); return rc;
}
extern "C" int MPI_Bcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm c) {
    stall();
    ev_t e = {3 + 16ull*root, (unsigned long long) n, 0, 0};
    MPI_Request q; int rc = polite(PMPI_Ibcast(b, n, t, root, c, &q), &q);
    e.got = fnv(b, n*tsize(t)); trace.push_back(e); return rc;
}
extern "C" int MPI_Ssend(const void* b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c) { stall(); MPI_Request q; return polite(PMPI_Issend(b, n, t, dst, tag, c, &q), &q); }
extern "C" int MPI_Recv(void* b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Status* s) { stall(); (void) s; MPI_Request q; return polite(PMPI_Irecv(b, n, t, src, tag, c, &q), &q); }

// the helper that makes a directory is not run: the results go to the working directory
extern "C" int system(const char*) { return 1; }

static FILE* out;
template <typename V> static void dump(const V& v) { if (v.size()) fwrite(v.data(), sizeof(v[0]), v.size(), out); }
template <typename CO>
static void one(const opts_t& o, int argc, char** argv, int idx) {
    const size_t n = I(o, "n"), d = I(o, "d"); const unsigned k = I(o, "k");
    std::vector<double> cent;
    if (o.count("centers")) {
        cent.resize(k*d); FILE* f = fopen(S(o, "centers").c_str(), "rb");
        if (!f || fread(cent.data(), sizeof(double), k*d, f) != k*d) { fprintf(stderr, "HARNESS centers\n"); _exit(97); }
        fclose(f);
    }
    trace.clear();
    std::string error; kb::cluster_t ret; ret.iters = 0; ret.k = 0; ret.nrow = ret.ncol = 0;
    size_t ln = 0; std::vector<double> data, means; std::vector<unsigned> asg; std::vector<long long> memb;
    try {
        auto dc = std::static_pointer_cast<CO>(CO::create(argc, argv, S(o, "data"), n, d, k, (unsigned) strtoul(S(o, "iters", "100").c_str(), 0, 10),
            I(o, "nodes", 1), I(o, "threads", 1), o.count("centers") ? cent.data() : NULL, S(o, "init", "none"), D(o, "tol", -1), S(o, "dist", "eucl")));
        dc->run(ret, "out");
        ln = dc->get_nrow();
        for (size_t i = 0; i < ln; i++) { const double* p = dc->get_thd_data(i); data.insert(data.end(), p, p + d); }
        asg.assign(dc->get_cluster_assignments(), dc->get_cluster_assignments() + ln);
        auto c = dc->get_gcltrs();
        means = c->get_means();
        for (auto m : c->get_num_members_v()) memb.push_back(m);
    } catch (const std::exception& e) { error = e.what(); for (char& c : error) if (c == '"' || c == '\\' || (unsigned char) c < 32) c = ' '; }
    if (world_rank == 0) {
        std::string y = S(o, "yml");
        if (y.empty()) unlink("cluster_t.yml"); else rename("cluster_t.yml", y.c_str());
    }
    fprintf(out, "{\"run\":%d,\"rank\":%d,\"error\":\"%.500s\",\"ln\":%zu,\"iters\":%zu,\"k\":%zu,\"nrow\":%zu,\"ncol\":%zu,\"nd\":%zu,\"na\":%zu,\"nm\":%zu,\"nc\":%zu,"
        "\"ra\":%zu,\"rc\":%zu,\"rm\":%zu,\"ev\":%zu,\"delays\":%lu}\n", idx, world_rank, error.c_str(), ln, ret.iters, ret.k, ret.nrow, ret.ncol, data.size(), asg.size(),
        means.size(), memb.size(), ret.assignments.size(), ret.assignment_count.size(), ret.centroids.size(), trace.size(), perturb_count());
    dump(data); dump(asg); dump(means); dump(memb); dump(ret.assignments); dump(ret.assignment_count); dump(ret.centroids); dump(trace);
    fflush(out);
}

int main(int argc, char** argv) {
    struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
    MPI_Init(&argc, &argv);
    PMPI_Comm_rank(MPI_COMM_WORLD, &world_rank);
    if (argc < 3) return 96;
    std::string pre = argv[2];
    int nul = open("/dev/null", O_RDWR); dup2(nul, 1); close(nul);
    int err = open((pre + ".err" + std::to_string(world_rank)).c_str(), O_WRONLY|O_CREAT|O_TRUNC, 0644); dup2(err, 2); close(err);
    out = fopen((pre + ".res" + std::to_string(world_rank)).c_str(), "wb");
    std::ifstream in(argv[1]); std::string line; int idx = 0;
    while (std::getline(in, line)) {
        std::istringstream is(line); std::string t; is >> t; if (t != "run") continue;
        opts_t o; while (is >> t) { size_t p = t.find('='); if (p != std::string::npos) o[t.substr(0, p)] = t.substr(p + 1); }
        std::string pt = S(o, "perturb");
        delay_level = I(o, "stall"); delay_state = 77 + 1000003ull*world_rank + idx*7919ull;
        perturb_config(pt.empty() ? pt : std::to_string(atol(pt.c_str()) + world_rank*131) + pt.substr(pt.find(':')));
        if (S(o, "engine") == "dprune") one<knor::prune::dist_task_coordinator>(o, argc, argv, idx);
        else one<knor::dist::dist_coordinator>(o, argc, argv, idx);
        idx++;
    }
    fclose(out);
    MPI_Request q; polite(PMPI_Ibarrier(MPI_COMM_WORLD, &q), &q);
    PMPI_Finalize();
    return 0;
}
