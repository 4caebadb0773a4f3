// Monitor of the phases of workers: the real coordinator, thread and task queue code drives probe
// workers that record when they run, in which phase, and on which rows.
//   U_MODE=phases|tasks   U_PERTURB=0|1
#include "u.hpp"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <signal.h>
#include <time.h>
#include <atomic>
#include <numa.h>
#include "coordinator.hpp"
#include "thread.hpp"
#include "clusters.hpp"
#include "task_queue.hpp"
#include "kmeans_task_thread.hpp"
#include "perturb.hpp"
#if defined(__SANITIZE_THREAD__)
#define SLOW 5
#else
#define SLOW 1
#endif
using namespace knor;

struct shared_t { size_t phases, runs, tasks, delays, wakes_seen, interleavings; uint64_t orders[4096]; };
static shared_t* sh;

struct rec_t { unsigned start, n; const double* ptr; };
struct log_t {          // written by one worker, read by the coordinator after the phase
    long runs; int phase; int state; long entered, left; std::vector<rec_t> tasks; long overlap;
    char pad[64];
};
static std::vector<log_t> L;
static std::atomic<long> seq_(0), inside_(0);
static int phase_;      // written by the coordinator between phases only
static const double* data_;
static int busy_;
static void work(unsigned long r) {
    if (!busy_) return;
    if (r % 3 == 0) { timespec t = {0, (long) (r % 90)*1000}; nanosleep(&t, 0); }
    else for (unsigned i = 0; i < r % 4; i++) sched_yield();
}

class probe : public thread {
public:
    probe(unsigned id, size_t ncol, unsigned* asg, unsigned start, size_t rows) : thread(0, id, ncol, asg, start, "") { set_data_size(rows*ncol*sizeof(double)); }
    void start(const thread_state_t s) override {
        this->state = s;
        if (pthread_create(&hw_thd, NULL, callback<probe>, this)) abort();
    }
    void run() override {
        log_t& l = L[thd_id]; inside_++;
        l.entered = seq_++; l.phase = phase_; l.state = (int) get_state(); l.runs++;
        if (get_state() == KMSPP_INIT) cuml_dist += thd_id + 1;
        meta.num_changed = thd_id + 7;
        work(l.entered*7919 + thd_id*31);
        l.left = seq_++; inside_--;
        sleep();
    }
};

class tprobe : public prune::kmeans_task_thread {
public:
    tprobe(unsigned id, size_t ncol, unsigned* asg, unsigned start, unsigned rows, std::shared_ptr<base::prune_clusters> g)
        : prune::kmeans_task_thread(0, id, start, rows, ncol, g, asg, "", base::dist_t::EUCL) {}
    void start(const thread_state_t s) override {
        this->state = s;
        if (pthread_create(&hw_thd, NULL, callback<tprobe>, this)) abort();
    }
    void run() override {
        log_t& l = L[thd_id]; inside_++;
        l.entered = seq_++;
        if (l.phase != phase_) { l.phase = phase_; l.runs++; l.state = (int) get_state(); l.tasks.clear(); }
        rec_t r = {curr_task->get_start_rid(), curr_task->get_nrow(), curr_task->get_data_ptr()};
        if (r.n && get_global_data_id(r.n - 1) != r.start + r.n - 1) r.n = ~0u;
        l.tasks.push_back(r);
        work(l.entered*7919 + thd_id*31);
        l.left = seq_++; inside_--;
        request_task();
    }
};

class pcoord : public coordinator {
public:
    bool task; std::shared_ptr<base::prune_clusters> cl;
    pcoord(size_t n, size_t d, unsigned nthreads, bool task) : coordinator("", n, d, 2, 1, 1, nthreads, NULL, base::init_t::NONE, -1, base::dist_t::EUCL), task(task) {
        cl = base::prune_clusters::create(2, d); L.assign(this->nthreads, log_t()); for (auto& l : L) { l.runs = 0; l.phase = -1; l.entered = l.left = -1; }
        build_thread_state();
    }
    unsigned nthr() { return nthreads; }
    void build_thread_state() override {
        unsigned per = nrow/nthreads;
        for (unsigned t = 0; t < nthreads; t++) {
            auto tup = get_rid_len_tup(t);
            thd_max_row_idx.push_back(t*per + tup.second);
            if (task) threads.push_back(std::make_shared<tprobe>(t, ncol, &cluster_assignments[0], tup.first, tup.second, cl));
            else threads.push_back(std::make_shared<probe>(t, ncol, &cluster_assignments[0], tup.first, tup.second));
            threads[t]->set_parent_cond(&cond); threads[t]->set_parent_mutex(&mutex);
            threads[t]->set_parent_pending_threads(&pending_threads);
            threads[t]->start(WAIT);
        }
    }
    base::cluster_t run(double*, const bool) override { return base::cluster_t(); }
    void give(double* d) { set_thread_data_ptr(d); if (task) for (auto& t : threads) std::static_pointer_cast<tprobe>(t)->get_task_queue()->set_data_ptr(t->get_local_data()); }
};

static void body(bool task, size_t n, size_t d, unsigned nth, int phases, bool perturbed) {
    std::vector<double> data(n*d, 1.); data_ = data.data();
    thread_counts_t c0 = thread_counts();
    {
        pcoord co(n, d, nth, task); nth = co.nthr(); co.give(data.data());
        // the parts of the workers
        size_t next = 0;
        for (unsigned t = 0; t < nth; t++) {
            auto tup = co.get_rid_len_tup(t);
            check(tup.first == next && tup.second > 0, "parts", "worker %u has rows %u.. (%u), expected from %zu", t, tup.first, tup.second, next);
            next = tup.first + tup.second;
            for (size_t r : {(size_t) tup.first, (size_t) (tup.first + tup.second - 1)})
                check(co.get_thd_data(r) == &data[r*d], "parts", "row %zu of worker %u is read at another row", r, t);
        }
        check(next == n, "parts", "the workers have %zu of %zu rows", next, n);
        static const thread_state_t states[] = {EM, KMSPP_INIT, MB_EM, EM, EM};
        for (int p = 0; p < phases; p++) {
            thread_state_t s = states[U(0, task ? 4 : 4)];
            std::vector<long> before; for (auto& l : L) before.push_back(l.runs);
            phase_ = p; long s0 = seq_;
            co.wake4run(s);
            if (P(.2)) work(p*13 + 5);
            co.wait4complete();
            long s1 = seq_, in = inside_;
            check(in == 0, "completion", "%ld workers were still working when the phase was reported complete", in);
            uint64_t order = 1469598103934665603ULL; std::vector<std::pair<long, unsigned>> ev;
            double sum = 0;
            for (unsigned t = 0; t < nth; t++) {
                log_t& l = L[t];
                check(l.phase == p, "completion", "phase %d was reported complete before worker %u took part (last in phase %d)", p, t, l.phase);
                check(l.runs == before[t] + 1, "once", "worker %u ran %ld times in phase %d", t, l.runs - before[t], p);
                if (l.phase != p) continue;
                check(l.state == (int) s, "task", "worker %u ran state %d instead of %d", t, l.state, (int) s);
                check(l.entered >= s0 && l.left < s1, "completion", "worker %u ran outside phase %d", t, p);
                ev.push_back(std::make_pair(l.entered, 2*t)); ev.push_back(std::make_pair(l.left, 2*t + 1)); sum += t + 1;
                if (task) {
                    auto tup = co.get_rid_len_tup(t); unsigned at = tup.first;
                    for (auto& r : l.tasks) {
                        check(r.start == at && r.n > 0 && r.n <= n && r.ptr == &data[(size_t) r.start*d], "rows", "worker %u got rows %u..(%u) at %td instead of from %u", t, r.start, r.n, (r.ptr - data.data())/(long) d, at);
                        at = r.start + r.n; sh->tasks++;
                    }
                    check(at == tup.first + tup.second, "rows", "worker %u (rows %u..%u) got the rows up to %u in %zu tasks", t, tup.first, tup.first + tup.second, at, l.tasks.size());
                    check(!std::static_pointer_cast<tprobe>(co.get_threads()[t])->get_task_queue()->has_task(), "rows", "worker %u has a task left", t);
                } else check(co.get_threads()[t]->get_num_changed() == t + 7, "results", "worker %u's count is not the one it computed", t);
            }
            if (!task && s == KMSPP_INIT) check(co.reduction_on_cuml_sum() == sum, "results", "the sum over the workers is %g instead of %g", co.reduction_on_cuml_sum(), sum);
            std::sort(ev.begin(), ev.end()); for (auto& e : ev) order = (order ^ (e.second + 1))*1099511628211ULL;
            order = (order ^ nth)*1099511628211ULL;
            size_t slot = order % 4096; if (sh->orders[slot] != order) { sh->orders[slot] = order; sh->interleavings++; }
            sh->phases++; sh->runs += nth;
            if (P(.15)) {          // nobody works between phases
                timespec t = {0, 100000}; nanosleep(&t, 0);
                for (unsigned t = 0; t < nth; t++) check(L[t].runs == before[t] + 1 && L[t].phase == p, "between", "worker %u ran between phases", t);
            }
            if (nviol_ > 5) _exit(0);
        }
        phase_ = phases + 1;
    }
    for (auto& l : L) check(l.phase < phases, "end", "a worker ran while being ended");
    thread_counts_t c1 = thread_counts();
    check(c1.created - c0.created == nth, "end", "%ld threads created for %u workers", c1.created - c0.created, nth);
    check(c1.joined - c0.joined == nth, "end", "%ld of %u workers were waited for when the coordinator ended", c1.joined - c0.joined, nth);
}

static void one_case() {
    static bool task = getenv("U_MODE") && !strcmp(getenv("U_MODE"), "tasks");
    if (!sh) { sh = (shared_t*) mmap(0, sizeof(shared_t), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
        struct bitmask* m = numa_allocate_cpumask(); numa_node_to_cpus(0, m); numa_free_cpumask(m); }   // libnuma fills its tables unsynchronised: not what is judged here
    static int wide = 0;
    if (task && SLOW == 1 && wide < 20 && P(.05)) {    // a share of more than 2^32 values: only addresses are computed
        wide++;
        size_t n = 8192*U(2, 6) + U(0, 500), d = ((size_t) 1 << 32)/n*U(1, 3) + U(1, 999); unsigned start = U(0, 100000);
        void* m = mmap(0, n*d*sizeof(double), PROT_NONE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
        cur_case = fmt("queue of %zu rows of %zu from %u (addresses only)", n, d, start); mix(n); mix(d);
        if (m != MAP_FAILED) {
            double* data = (double*) m; size_t at = 0;
            task_queue q(data, start, n, d);
            while (q.has_task()) {
                knor::task* t = q.get_task(); stat("wide_tasks");
                bool ok = t->get_start_rid() == start + at && t->get_nrow() > 0 && at + t->get_nrow() <= n && t->get_data_ptr() == data + at*d;
                check(ok, "queue", "task of rows %u..(%u) at offset %td instead of %zu", t->get_start_rid(), t->get_nrow(), t->get_data_ptr() - data, at*d);
                at += t->get_nrow(); delete t;
                if (!ok || at > n) break;
            }
            check(at == n, "queue", "the tasks have %zu of %zu rows", at, n);
            munmap(m, n*d*sizeof(double));
        }
        return;
    }
    if (task && P(.5)) {       // the queue alone, and taken by several takers
        size_t n = P(.5) ? 8192*U(0, 3) + U(0, 5) : U(1, 40000), d = U(1, 4); if (!n) n = 1; if (P(.3) && n > 3) n -= 3;
        unsigned start = U(0, 100000); std::vector<double> data(n*d);
        cur_case = fmt("queue of %zu rows of %zu from %u", n, d, start); mix(n); mix(d); mix(start);
        task_queue* q; if (P(.5)) q = new task_queue(data.data(), start, n, d); else { q = new task_queue(); q->set_start_rid(start); q->set_nrow(n); q->set_ncol(d); q->set_data_ptr(data.data()); q->reset(); }
        check(q->get_ncol() == d && q->get_nrow() == n && q->get_start_rid() == start, "queue", "shape");
        for (int round = 0; round < 3; round++) {
            size_t at = 0, stop = P(.2) ? U(0, 3) : (size_t) -1, taken = 0;
            while (q->has_task() && taken < stop) {
                check(q->get_nxt_rid() == start + at || at + 1 == n, "queue", "next row is %u instead of %zu", q->get_nxt_rid(), start + at);
                knor::task* t = q->get_task(); taken++; stat("queue_tasks");
                bool ok = t->get_start_rid() == start + at && t->get_nrow() > 0 && at + t->get_nrow() <= n && t->get_data_ptr() == &data[at*d];
                check(ok, "queue", "task of rows %u..(%u) at offset %td instead of from %zu of %zu", t->get_start_rid(), t->get_nrow(), t->get_data_ptr() - data.data(), start + at, n);
                at += t->get_nrow(); delete t;
                if (!ok || at > n) break;
            }
            if (stop == (size_t) -1 || !q->has_task()) { check(at == n, "queue", "the tasks have %zu of %zu rows", at, n); check(!q->has_task(), "queue", "a task is left");
                if (P(.3)) { knor::task* t = q->get_task(); check(t->get_nrow() == 0, "queue", "an empty queue gave %u rows", t->get_nrow()); delete t; check(!q->has_task(), "queue", "taking from an empty queue filled it"); } }
            q->reset(); check(q->has_task() && q->get_curr_rid() == 0, "queue", "not full after a reset");
        }
        delete q;
        return;
    }
    unsigned nth = P(.5) ? U(1, 4) : U(1, 16); int phases = (int) U(1, 40)/SLOW + 1;
    size_t d = U(1, 3), n = task ? (P(.4) ? nth*8192*U(1, 2) + U(0, 3) : U(1, 60000)) : U(1, 500);
    bool pert = P(.75); int lvl = (int) U(1, 2), bias = (int) U(0, 4); unsigned long ps = U(1, 1000000); busy_ = P(.7);
    cur_case = fmt("%s %u threads %zu rows %d phases delays %d:%d", task ? "tasks" : "phases", nth, n, phases, pert ? lvl : 0, bias); mix(nth); mix(n); mix(phases); mix(ps*pert);
    static int hangs = 0; if (hangs > 1) return;     // each takes its time, and two are enough
    std::mt19937_64 saved = G; bool hung = false;
    for (int attempt = 0; attempt < 2; attempt++) {
        G = saved; fflush(NULL);
        pid_t pid = fork();
        if (pid == 0) {
            if (pert) perturb_config(fmt("%lu:%d:%d", ps, lvl, bias));
            body(task, n, d, nth, phases, pert);
            sh->delays += perturb_count();
            fflush(NULL);
            _exit(nviol_ ? 10 : 0);
        }
        int st = 0; hung = true;
        for (int i = 0; i < 20000*SLOW; i++) { if (waitpid(pid, &st, WNOHANG) == pid) { hung = false; break; } timespec t = {0, 1000000}; nanosleep(&t, 0); }
        if (!hung) {
            if (WIFEXITED(st) && WEXITSTATUS(st) == 10) nviol_++;
            else if (WIFEXITED(st) && WEXITSTATUS(st) == 66) viol("race", "the sanitizer reported a race");
            else if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) viol("crash", fmt("the workers' process ended with status 0x%x", st));
            break;
        }
        kill(pid, SIGKILL); waitpid(pid, &st, 0);
    }
    if (hung) { hangs++; viol("hang", "the phases did not end (twice)"); }
    static shared_t last; stat("phases", sh->phases - last.phases); stat("worker_runs", sh->runs - last.runs); stat("tasks_recorded", sh->tasks - last.tasks); stat("delays_injected", sh->delays - last.delays);
    stat("distinct_interleavings", sh->interleavings - last.interleavings);
    last.phases = sh->phases; last.runs = sh->runs; last.tasks = sh->tasks; last.delays = sh->delays; last.interleavings = sh->interleavings;
}
