from knorv import *
import gen, oracle

def go():
    ck = Check("P03", "random data (18 kinds), centroids, k, threads, metrics and initialisations; the pruning engine runs with "
               "iteration limits 0..T and each state is judged as one Lloyd step from the previous one by an independent computation, and "
               "compared with the engine that does not prune; distinct = distinct states after the first iteration (where pruning acts)")
    rng = ck.rng
    binary = build("engines")
    jobs = []
    for c in range(ck.scale(1500, 16000)):
        kind = str(rng.choice(gen.KINDS, p=None))
        n, d, k, th = gen.config(rng, c, 2)
        X = gen.dataset(rng, kind, n, d)
        eng, ref = ("ompmin", "omp") if rng.random() < .4 else ("prune", "kmeans")
        metric = str(rng.choice(["eucl", "cos"], p=[.85, .15])) if eng == "ompmin" else str(rng.choice(["eucl", "sqeucl", "cos", "taxi"], p=[.7, .1, .1, .1]))
        init = str(rng.choice(["none", "forgy", "kmeanspp", "random"], p=[.7, .1, .1, .1]))
        T = int(rng.choice([3, 5, 9, 14, 25])) if n < 8000 and k < 100 else 4
        base = dict(engine=eng, data=X, n=n, d=d, k=k, threads=th, init=init, dist=metric, tol=-1.0)
        if init == "none": base["centers"] = gen.centers(rng, X, k)
        if eng == "prune" and rng.random() < .3: base["src"] = "file"
        if eng == "prune" and n >= 8 and rng.random() < .1 and base.get("src") != "file": base["src"] = "numa"
        runs = [dict(base, iters=t) for t in range(0, T + 1)]
        refrun = dict(base, engine=ref, iters=T)
        if init == "none": jobs.append(Job(runs + [refrun], meta=dict(ref=True)))
        else: jobs.append(Job(runs, meta=dict(ref=False)))
        jobs[-1].tag = "%s %s %s %s" % (eng, metric, init, kind)
        jobs[-1].meta.update(X=X, metric=metric, eng=eng, T=T, init=init)
    run_jobs(binary, jobs)
    compared = later = tight = 0
    for j in jobs:
        m = j.meta; key = "%s %s" % (m["eng"], m["metric"])
        if not ck.check_job(j, key): continue
        X = m["X"]; n, d = X.shape; k = j.runs[0]["k"]
        res = j.res[:m["T"] + 1]
        r0 = res[0]
        if r0.error or len(r0.cents) != k*d:
            ck.violation(key + " init", "no initial centroids: " + str(r0.error), job=j); continue
        C, prev, near = r0.C(), None, False
        for t in range(1, m["T"] + 1):
            r = res[t]
            why = oracle.wellformed(r, n, d, k, k, t)
            stopped = prev is not None and r.iters < t
            if why is None:
                if stopped:
                    if not (np.array_equal(r.a, prev.a) and r.cents.tobytes() == prev.cents.tobytes()):
                        why = "the result changed after convergence at iteration %d" % r.iters
                else: why = oracle.lloyd_step(X, C, r, m["metric"], cscale=1 + t, extra=oracle.abs_tol(X, m["metric"])*t)
            ck.case((j.tag, t, r.digest()), t > 1 and not stopped, dict(case=j.tag, n=n, d=d, k=k, threads=j.runs[0]["threads"], iteration=t, digest=r.digest()) if t == 3 else None)
            if why:
                ck.violation(key + " pruned step", "iteration %d of %s: %s" % (t, j.tag, why), job=j); near = True; break
            if not stopped and not near:
                g = oracle.margin(oracle.dist(X, C, m["metric"]))
                near = bool((g <= 1e-6*(np.abs(X).max() + 1e-300)).any()) or (r.counts == 0).any()
            if t > 1 and not stopped: later += 1
            prev, C = r, r.C().copy()
        if m["ref"] and not near and prev is not None:
            r = j.res[-1]; compared += 1
            if r.error or not np.array_equal(r.a, prev.a):
                ck.violation(key + " differs", "%s: after %d iterations the clustering without pruning differs (%s)" % (j.tag, m["T"], r.error or "%d samples" % (r.a != prev.a).sum()), job=j)
            elif (np.abs(r.C() - prev.C()) > oracle.mean_tol(X, 10.*m["T"])).any():
                ck.violation(key + " differs", "%s: the centroids without pruning differ" % j.tag, job=j)
    ck.cov.update(runs=sum(len(j.res) for j in jobs), steps_with_pruning=later, compared_with_unpruned=compared)
    ck.finish()

if __name__ == "__main__": main(go)
