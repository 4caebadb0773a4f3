from knorv import *
import gen, oracle, draw

def go():
    ck = Check("P19", "random data; k-means++ is run with 1..S starts, and every single start is observed through the coordinator; the result of each number of starts has to be "
               "the best start observed, with its own energy (recomputed), centroids, sizes and assignments; distinct = distinct (data, number of starts) results")
    rng = ck.rng
    binary = build("engines")
    jobs = []
    for c in range(ck.scale(700, 7000)):
        r, X, kind = draw.run(rng, c, "kpp", heavy=c % 4 == 0)
        if r["dist"] == "cos": X[~X.any(1)] = 1    # a zero vector has no angle, not even with itself
        r.pop("tol", 0); S = int(rng.integers(2, 9)) if r["n"] < 5000 else 3
        runs = [dict(r, nstart=s) for s in range(1, S + 1)] + [dict(r, engine="kppone", start=s) for s in range(1, S + 1)]
        jobs.append(Job(runs, tag="kpp %s %s" % (r["dist"], kind), meta=dict(X=X, S=S)))
    run_jobs(binary, jobs)
    improved = 0
    for j in jobs:
        X, S, q = j.meta["X"], j.meta["S"], j.runs[0]
        if not ck.check_job(j, "kpp"): continue
        bad = [r.error for r in j.res if r.error]
        if bad: ck.violation("kpp error", "%s: %s" % (j.tag, bad[0]), job=j); continue
        best, one = j.res[:S], j.res[S:]
        rows = {x.tobytes() for x in np.ascontiguousarray(X + 0.0)}
        tol = len(X)*oracle.abs_tol(X, q["dist"])
        why = None
        for s, r in enumerate(best, 1):
            ck.case((j.tag, s, r.digest()), q["k"] > 1, dict(case=j.tag, n=q["n"], k=q["k"], starts=s, energies=[x.energy for x in one[:s]], best=int(r.best_start)))
            why = oracle.wellformed(r, q["n"], q["d"], q["k"], q["k"], 0)
            if why: break
            E = [x.energy for x in one[:s]]
            b = int(np.argmin(E)) + 1
            D = oracle.dist(X, r.C(), q["dist"]); e = D.min(1).sum()
            if any(x.tobytes() not in rows for x in r.C() + 0.0): why = "a centroid is not a sample"
            elif len(oracle.nearest_violations(X, r.C(), r.a, q["dist"])[0]): why = "a sample is not assigned to its nearest centre"
            elif not abs(r.energy - e) <= tol + 1e-9*e: why = "energy %.17g returned, the distances add up to %.17g" % (r.energy, e)
            elif s > 1 and r.energy > best[s - 2].energy: why = "energy %.17g with %d starts, %.17g with one less" % (r.energy, s, best[s - 2].energy)
            elif r.energy != min(E) and not abs(r.energy - min(E)) <= tol: why = "energy %.17g returned, the starts have %s" % (r.energy, E)
            elif not (1 <= r.best_start <= s): why = "start %d of %d is called the best" % (r.best_start, s)
            elif not abs(E[r.best_start - 1] - min(E)) <= tol: why = "start %d is called the best, the energies of the starts are %s" % (r.best_start, E)
            else:
                o = one[r.best_start - 1]
                if not (np.array_equal(o.cents, r.cents) and np.array_equal(o.a, r.a) and np.array_equal(o.counts, r.counts)):
                    why = "the returned clustering is not that of start %d" % r.best_start
            if why: why = "with %d starts: %s" % (s, why); break
            improved += r.best_start > 1
        if why: ck.violation("kpp starts", "%s n=%d k=%d threads=%d: %s" % (j.tag, q["n"], q["k"], q["threads"], why), job=j)
    ck.cov.update(later_start_was_best=improved)
    ck.finish()

if __name__ == "__main__": main(go)
