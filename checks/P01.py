from knorv import *
import gen, oracle, draw

def go():
    ck = Check("P01", "random runs of all twelve algorithms on 18 kinds of data with valid parameters; every result is judged for form; "
               "distinct = distinct results with more than one cluster in use")
    rng = ck.rng
    binary = build("engines")
    jobs = []
    for c in range(ck.scale(9600, 40000)):
        eng = draw.ALL[c % len(draw.ALL)]
        r, X, kind = draw.run(rng, c // len(draw.ALL), eng)
        jobs.append(Job([r], tag="%s %s %s %s" % (eng, r["init"], r["dist"], kind), meta=dict(X=X, eng=eng)))
    run_jobs(binary, jobs)
    if os.environ.get("KNORV_SLOW"):
        for j in sorted(jobs, key=lambda j: -j.wall)[:12]: print(round(j.wall, 2), j.tag, {k: v for k, v in j.runs[0].items() if not isinstance(v, np.ndarray)})
    per = {}
    for j in jobs:
        eng = j.meta["eng"]; key = eng
        if not ck.check_job(j, key): continue
        q, r = j.runs[0], j.res[0]
        hier = eng in draw.HIER
        why = oracle.wellformed(r, q["n"], q["d"], 1 if hier else q["k"], q["k"], q["iters"], hier)
        if why is None and r.counts.sum() != q["n"]: why = "the sizes add up to %d, not %d" % (r.counts.sum(), q["n"])
        ck.case((j.tag, r.digest()), len(set(r.a)) > 1, dict(case=j.tag, n=q["n"], d=q["d"], k=q["k"], threads=q["threads"], iters=int(r.iters), clusters=int(r.k)))
        per[eng] = per.get(eng, 0) + 1
        if why: ck.violation("%s form" % key, "%s: %s" % (j.tag, why), job=j)
    ck.cov.update(runs_per_algorithm=per)
    ck.finish()

if __name__ == "__main__": main(go)
