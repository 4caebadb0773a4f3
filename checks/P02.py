from knorv import *
import gen, oracle

def go():
    ck = Check("P02", "random data sets (18 kinds), centroids, k, threads and metrics; the engine is run with iteration limits "
               "1..T and each result is judged as one Lloyd step from the previous one by an independent computation; "
               "distinct = distinct (data, parameters, iteration) states with at least two non-empty clusters")
    rng = ck.rng
    binary = build("engines")
    jobs = []
    N = ck.scale(2400, 24000)
    for c in range(N):
        kind = gen.KINDS[c % len(gen.KINDS)] if c < 2*len(gen.KINDS) else str(rng.choice(gen.KINDS))
        n, d, k, th = gen.config(rng, c, 1)
        X = gen.dataset(rng, kind, n, d)
        C0 = gen.centers(rng, X, k)
        eng = "omp" if rng.random() < .35 else "kmeans"
        metric = str(rng.choice(["eucl", "cos"] if eng == "omp" else ["eucl", "sqeucl", "cos", "taxi"], p=[.6, .4] if eng == "omp" else [.4, .2, .2, .2]))
        if eng == "omp" and not 2 <= k <= n:
            if n < 2: eng = "kmeans"
            else: k = 2; C0 = gen.centers(rng, X, k)
        src = "file" if eng == "kmeans" and rng.random() < .4 else "mem"
        T = int(rng.integers(2, 7)) if n < 8000 and k < 100 else 3
        base = dict(engine=eng, data=X, n=n, d=d, k=k, threads=th, init="none", centers=C0, dist=metric, src=src)
        jobs.append(Job([dict(base, iters=t) for t in range(1, T + 1)], tag="%s %s %s" % (eng, metric, kind),
                        meta=dict(X=X, C0=C0, metric=metric, T=T, eng=eng, kind=kind)))
    run_jobs(binary, jobs)
    moved = empties = 0
    for j in jobs:
        m = j.meta
        key = "%s %s" % (m["eng"], m["metric"])
        if not ck.check_job(j, key): continue
        X, C, prev = m["X"], m["C0"], None
        for t, r in enumerate(j.res, 1):
            why = oracle.wellformed(r, X.shape[0], X.shape[1], len(C), len(C), t)
            if why is None:
                if prev is not None and r.iters < t:   # it stopped before: the last state is final
                    if not (np.array_equal(r.a, prev.a) and r.cents.tobytes() == prev.cents.tobytes()):
                        why = "the result changed after convergence at iteration %d" % r.iters
                else: why = oracle.lloyd_step(X, C, r, m["metric"])
            ck.case((j.tag, t, r.digest()), len(set(r.a)) > 1,
                    dict(case=j.tag, n=len(X), d=X.shape[1], k=len(C), threads=j.runs[0]["threads"], iteration=t, digest=r.digest()))
            if why:
                ck.violation("%s lloyd step" % key, "iteration %d of %s: %s" % (t, j.tag, why), job=j); break
            if prev is not None: moved += int((r.a != prev.a).sum())
            empties += int((r.counts == 0).sum())
            prev, C = r, r.C()
            if not np.isfinite(C[r.counts > 0]).all(): break
            C = C.copy()
    ck.cov.update(runs=sum(len(j.res) for j in jobs), assignment_changes_observed=moved, empty_clusters_observed=empties)
    ck.finish()

if __name__ == "__main__": main(go)
