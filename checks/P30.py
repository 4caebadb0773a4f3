from knorv import *
import gen, draw
from P10 import race

ENGS = [e for e in draw.ALL if e not in ("omp", "ompmin")]

def group(rng, c, small=False):
    """Runs to be made at the same time: often of one algorithm, sometimes of one data set."""
    m = int(rng.integers(2, 5)); e0 = ENGS[c % len(ENGS)]; same = rng.random() < .55; out = []
    for i in range(m):
        eng = e0 if same or i == 0 else str(rng.choice(ENGS))
        r, X, kind = draw.run(rng, 99 if small else c // len(ENGS), eng, heavy=False, small=small or rng.random() < .5)
        if rng.random() < .5 and r["iters"]: r["iters"] = int(rng.choice([5, 10, 20])) if eng not in ("medoid", "fcm") else r["iters"]
        r["threads"] = min(r["threads"], 8)
        out.append((r, kind))
    if rng.random() < .25: out[-1] = (dict(out[0][0], threads=int(rng.integers(1, 7))), out[0][1])
    if rng.random() < .15: r, _, kind = draw.run(rng, 99, str(rng.choice(["omp", "ompmin"])), small=True); out.append((r, kind))
    return out

def go():
    ck = Check("P30", "groups of two to five runs of equal or different algorithms, each first made alone in a process of its own and then all at the same time in one process, with injected delays; every result has to be "
               "bit-identical to the one of the run alone; the same groups under ThreadSanitizer, where a report is an alarm; distinct = distinct (group, results) compared")
    rng = ck.rng
    binary = build("engines")
    jobs, groups = [], []
    for c in range(ck.scale(1400, 6000)):
        g = group(rng, c)
        tag = " + ".join("%s %s %s" % (r["engine"], r["init"], kind) for r, kind in g)
        solo = [Job([r], tag=r["engine"]) for r, _ in g]
        both = []
        for p in range(2):
            o = dict(perturb="%d:%d:%d" % (rng.integers(1, 10**6), rng.integers(1, 3), rng.integers(0, 5))) if p else {}
            both.append(Job([r for r, _ in g], tag=tag, conc=1, timeout=120, **o))
        groups.append((tag, solo, both)); jobs += both
    run_jobs(binary, [s for _, ss, _ in groups for s in ss])
    run_jobs(binary, jobs, par=max(2, NCPU//2))
    comp = 0
    for tag, solo, both in groups:
        if not all([ck.check_job(s, s.tag) for s in solo]): continue
        for b in both:
            if not ck.check_job(b, "concurrent " + solo[0].tag): break
            ck.case((tag,) + tuple(s.res[0].digest() for s in solo), True, dict(case=tag, sizes=[s.runs[0]["n"] for s in solo], threads=[s.runs[0]["threads"] for s in solo]))
            bad = [i for i, s in enumerate(solo) if not b.res[i].same(s.res[0])]
            comp += len(solo)
            if bad:
                i = bad[0]; x, y = b.res[i], solo[i].res[0]
                ck.violation("%s differs beside other runs" % solo[i].tag, "%s: run %d (%s, threads=%d) gives another result beside the others than alone: %d assignments differ, %d and %d iterations, k %d and %d %s" % (
                    tag, i, solo[i].tag, solo[i].runs[0]["threads"], (x.a != y.a).sum() if len(x.a) == len(y.a) else -1, x.iters, y.iters, x.k, y.k, x.error), job=b); break
    # races between runs
    tb = build("engines", "tsan", harness=("engines.cpp", "perturb.cpp", "alloc.cpp", "gomp.cpp"))
    jobs = []
    for c in range(ck.scale(240, 1500)):
        g = group(rng, c, small=True)[:3]
        g = [(dict(r, threads=min(r["threads"], 4), iters=min(r["iters"], 5)), k) for r, k in g if r["engine"] not in ("omp", "ompmin")]
        o = dict(perturb="%d:%d" % (rng.integers(1, 10**6), rng.integers(1, 3))) if c % 2 else {}
        jobs.append(Job([r for r, _ in g], tag=" + ".join(r["engine"] for r, _ in g), conc=1, timeout=200, exit=1, **o))
    run_jobs(tb, jobs)
    for j in jobs:
        ck.case(("tsan", j.tag, j.opts.get("perturb"), j.runs[0]["n"]), True)
        rs = race(j.err)
        if rs: ck.violation("race between runs", "%s: %d reports; %s" % (j.tag, len(rs), rs[0]), job=j)
        elif not j.ok(): ck.skip("the run failed otherwise: judged by P01 and P09")
    ck.cov.update(results_compared=comp, race_detector_groups=len(jobs))
    ck.finish()

if __name__ == "__main__": main(go)
