from units import *
from mpi import *
import gen, draw

ENGS = draw.ALL + ["kmeans", "prune", "omp", "ompmin"]

def race(err):
    """The reports of a process: the functions of the two accesses."""
    out = []
    for w in re.split(r"(?=WARNING: ThreadSanitizer)", err)[1:]:
        out.append(w[:1800])
    return out

def go():
    ck = Check("P10", "random runs of all algorithms under ThreadSanitizer (OpenMP regions run on plain threads, so that the detector sees their synchronisation) with injected delays, and the workers' and "
               "task queues' phase protocol with probe workers; distinct = distinct (algorithm, parameters, delays) observed")
    rng = ck.rng
    binary = build("engines", "tsan", harness=("engines.cpp", "perturb.cpp", "alloc.cpp", "gomp.cpp"))
    jobs = []
    for c in range(ck.scale(16*130, 16*1200)):
        eng = ENGS[c % len(ENGS)]
        kind = str(rng.choice(["dups", "runs", "cascade", "binary"])) if eng in draw.HIER and rng.random() < .4 else None     # many clusters at once, some of which no split separates
        r, X, kind = draw.run(rng, c // len(ENGS), eng, kind=kind, heavy=c % 7 == 0, small=c % 3 == 0)
        if eng in draw.HIER and kind in ("dups", "runs", "cascade", "binary"): r["k"] = max(r["k"], int(rng.choice([8, 16, 64]))); r["minsz"] = 2
        if r["threads"] == 1: r["threads"] = int(rng.integers(2, 6))
        r["threads"] = min(r["threads"], 9)
        r["iters"] = min(r["iters"], 6)
        o = dict(perturb="%d:%d" % (rng.integers(1, 10**6), rng.integers(1, 3))) if c % 2 else {}
        if r["n"] > 30000: o = {}
        jobs.append(Job([r], tag="%s %s %s %s %s" % (eng, r["init"], r["dist"], kind, r.get("src", "mem")), meta=dict(eng=eng), timeout=200, exit=1, **o))
    run_jobs(binary, jobs)
    threads = delays = 0; per = {}
    for j in jobs:
        q, eng = j.runs[0], j.meta["eng"]
        ck.case((j.tag, q["n"], q["d"], q["k"], q["threads"], j.opts.get("perturb")), True, dict(case=j.tag, n=q["n"], d=q["d"], k=q["k"], threads=q["threads"], delays=j.opts.get("perturb", "none")))
        per[eng] = per.get(eng, 0) + 1
        threads += sum(r.created for r in j.res); delays += sum(r.delays for r in j.res)
        rs = race(j.err)
        if rs: ck.violation("%s race" % eng, "%s threads=%d: %d reports; %s" % (j.tag, q["threads"], len(rs), rs[0]), job=j)
        elif not j.ok(): ck.skip("the run failed otherwise: judged by P01 and P09")
    db = build_dist("tsan", more=("gomp.cpp",))
    drs = []
    for c in range(ck.scale(80, 700)):
        q, kind, lay = dist_case(rng, c, gen.KINDS)
        for l in lay:
            drs.append(layout(rng, q, *l)); drs[-1].tag += " %s %s %s" % (q["init"], q["dist"], kind)
    drs = run_dist(db, drs, batch=20, timeout=120)
    for x in drs:
        ck.case((x.tag, x.run["n"], x.run["d"], x.run["k"]), True)
        if x.fail and race(x.fail): ck.violation("dist race", "%s: %s" % (x.tag, race(x.fail)[0]), data=x.spec())
        elif x.fail: ck.skip("the run failed otherwise: judged by P08")
    ck.cov.update(distributed_runs=len(drs))
    ck.cov.update(runs_per_algorithm=per, threads_observed=threads, delays_injected=delays)
    for mode in ("phases", "tasks"):
        run_units(ck, "u_phases", ck.scale(300, 3000), variant="tsan", env=dict(U_MODE=mode), wrap=True, more=("perturb.cpp", "gomp.cpp"))
    run_units(ck, "u_containers", ck.scale(1200, 20000), variant="tsan", wrap=True, more=("perturb.cpp", "gomp.cpp"))
    ck.finish()

if __name__ == "__main__": main(go)
