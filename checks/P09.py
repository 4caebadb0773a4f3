from mpi import *
import gen, draw

ENGS = draw.ALL + ["kmeans", "prune", "mb", "medoid"]

def shape(rng, r, eng):
    """Shapes at the edges: one column, as many clusters as samples, more threads than samples."""
    how = rng.integers(0, 8)
    if how > 3: return r
    n = int(rng.integers(2, 12)); d = 1 if how == 0 else int(rng.integers(1, 5)); lo = 2 if eng in ("prune", "omp", "ompmin", "mb", "kpp") + draw.HIER else 1
    if eng in draw.HIER: n = max(n, 4)
    k = n if how < 2 and eng not in draw.HIER else int(rng.integers(lo, n + 1))
    X = gen.dataset(rng, str(rng.choice(gen.KINDS)), n, d)
    r = dict(r, data=X, n=n, d=d, k=max(k, lo), threads=int(rng.choice([1, 2, 3, n, n + 1, 2*n, 16])))
    if "batch" in r: r["batch"] = int(rng.integers(1, n + 1))
    if r["init"] == "none":
        r["ncent"] = 2 if eng in draw.HIER else r["k"]; r["centers"] = gen.centers(rng, X, r["ncent"], "rows" if eng in draw.HIER else None)
    return r

def memory_failure(j):
    """Did the job end because of its use of memory or other undefined behaviour?  (Failed assertions and hangs are judged by P01.)"""
    if j.how == "exit" and j.code == 86: return True
    if j.how == "signal": return j.code != 6 or ("Assertion" not in j.err and "terminate called" not in j.err)
    return False

def go():
    ck = Check("P09", "random runs of all algorithms, sources and thread counts, also of edge shapes, under AddressSanitizer and UndefinedBehaviorSanitizer with the caller's data, the centroids and all node "
               "memory in separate heap blocks of exactly their size; a second set under memcheck, which tracks the definedness of every bit; distinct = distinct (algorithm, parameters) observed")
    rng = ck.rng
    ldf = ["-Wl,--wrap=" + f for f in ("numa_alloc_onnode", "numa_alloc_local", "numa_alloc", "numa_alloc_interleaved", "numa_free")]
    hs = ("engines.cpp", "perturb.cpp", "memory.cpp")
    binary = build("memengines", "asan", harness=hs, ldflags=ldf)
    jobs = []
    for c in range(ck.scale(2400, 24000)):
        eng = ENGS[c % len(ENGS)]
        r, X, kind = draw.run(rng, c // len(ENGS), eng, heavy=c % 3 == 0)
        r = shape(rng, r, eng)
        runs = [r]
        if c % 4 == 0:           # another run in the same process
            q, X2, _ = draw.run(rng, 0, eng, heavy=False); runs.append(q)
        o = dict(perturb="%d:1" % rng.integers(1, 10**6)) if c % 3 == 1 else {}
        jobs.append(Job(runs, tag="%s %s %s %s %s" % (eng, r["init"], r["dist"], kind, r.get("src", "mem")), meta=dict(eng=eng), timeout=120, **o))
    run_jobs(binary, jobs)
    per = {}
    for j in jobs:
        q = j.runs[0]
        ck.case((j.tag, q["n"], q["d"], q["k"], q["threads"]), True, dict(case=j.tag, n=q["n"], d=q["d"], k=q["k"], threads=q["threads"]))
        per[j.meta["eng"]] = per.get(j.meta["eng"], 0) + 1
        if j.ok(): continue
        if memory_failure(j): ck.check_job(j, "%s %s" % (j.meta["eng"], q.get("src", "mem")))
        else: ck.skip("the run failed otherwise: judged by P01")
    # the distributed engines
    db = build_dist("asan", more=("memory.cpp",), ldflags=ldf)
    drs = []
    for c in range(ck.scale(70, 900)):
        q, kind, lay = dist_case(rng, c, gen.KINDS, edge=True)
        for l in lay:
            drs.append(layout(rng, q, *l)); drs[-1].tag += " %s %s %s" % (q["init"], q["dist"], kind)
    drs = run_dist(db, drs, batch=20, timeout=120)
    for x in drs:
        q = x.run
        ck.case((x.tag, q["n"], q["d"], q["k"]), True, dict(case=x.tag, n=q["n"], d=q["d"], k=q["k"]))
        if not x.fail: continue
        if re.search("Sanitizer|runtime error|SIGSEGV|signal 11|signal 7", x.fail): ck.violation("dist " + q["engine"], x.tag + ": " + x.fail, data=x.spec())
        else: ck.skip("the run failed otherwise: judged by P08")
    # definedness
    pb = build("memengines", "plain", harness=hs, ldflags=ldf)
    jobs = []
    for c in range(ck.scale(16*5, 16*70)):
        eng = ENGS[c % len(ENGS)]
        r, X, kind = draw.run(rng, c // len(ENGS), eng, heavy=False, small=True)
        r = shape(rng, r, eng)
        r["threads"] = min(r["threads"], 5); r["iters"] = min(r["iters"], 5)
        jobs.append(Job([r], tag="memcheck %s %s %s %s %s" % (eng, r["init"], r["dist"], kind, r.get("src", "mem")), meta=dict(eng=eng), timeout=240))
    logs = os.path.join(tmpdir(), "vg"); os.makedirs(logs)
    run_jobs(pb, jobs, env=dict(KNORV_PID="1", OMP_NUM_THREADS="2"),
             prefix=("valgrind", "--quiet", "--leak-check=no", "--error-exitcode=88", "--fair-sched=yes", "--num-callers=20", "--suppressions=" + os.path.join(VERIF, "lib", "memcheck.supp"), "--log-file=%s/%%p" % logs))
    for j in jobs:
        q = j.runs[0]
        ck.case((j.tag, q["n"], q["d"], q["k"], q["threads"]), True)
        m = re.search(r"^PID (\d+)$", j.err, re.M); log = ""
        if m and os.path.exists(os.path.join(logs, m.group(1))): log = open(os.path.join(logs, m.group(1)), errors="replace").read()
        if j.how == "exit" and j.code == 88:
            ck.violation("%s memcheck" % j.meta["eng"], j.tag + ": " + re.sub(r"==\d+== ?", "", log)[:1800], job=j)
        elif memory_failure(j): ck.check_job(j, j.meta["eng"] + " memcheck")
        elif not j.ok(): ck.skip("the run failed otherwise: judged by P01")
    ck.cov.update(sanitizer_runs_per_algorithm=per, memcheck_runs=len(jobs), distributed_runs=len(drs))
    ck.finish()

if __name__ == "__main__": main(go)
