from knorv import *
import gen, oracle

def scaled(X):
    lo, hi = X.min(0), X.max(0); rg = hi - lo
    with np.errstate(all="ignore"): return np.where(rg == 0, 0.0, (X - lo)/rg)

def go():
    ck = Check("P13", "random data sets, initialisations, k and threads; spherical k-means is run with iteration limits 0..T, the caller's scaled data is compared with the min-max scaling of the original, "
               "initial centroids with what the initialisation promises on the scaled data and every iteration is judged as one Lloyd step under the cosine distance; "
               "distinct = distinct iteration states with at least two non-empty clusters")
    rng = ck.rng
    binary = build("engines")
    jobs = []
    for c in range(ck.scale(1300, 16000)):
        kind = gen.KINDS[c % len(gen.KINDS)] if c < 2*len(gen.KINDS) else str(rng.choice(gen.KINDS))
        n, d, k, th = gen.config(rng, c, 1)
        X = gen.dataset(rng, kind, n, d)
        if rng.random() < .2: X[:, rng.integers(0, d)] = float(rng.normal())
        k = min(k, n)
        init = str(rng.choice(["none", "forgy", "random", "kmeanspp"], p=[.5, .2, .15, .15]))
        src = "file" if rng.random() < .4 else "mem"
        T = int(rng.integers(2, 7)) if n < 8000 and k < 100 else 2
        base = dict(engine="skmeans", data=X, n=n, d=d, k=k, threads=th, init=init, dist="cos", src=src)
        S = scaled(X)
        if init == "none": base["centers"] = gen.centers(rng, S, k)
        runs = [dict(base, iters=t, dump_data=1) for t in range(0, T + 1)]
        tol = float(rng.choice([0, .02, .1, .4]))
        if c % 2: runs.append(dict(base, iters=T, tol=tol))
        jobs.append(Job(runs, tag="%s %s %s" % (init, src, kind), meta=dict(X=X, S=S, T=T, init=init, src=src, tol=tol if c % 2 else None)))
    run_jobs(binary, jobs)
    moved = scaled_seen = 0
    for j in jobs:
        m = j.meta; X, S, T = m["X"], m["S"], m["T"]; n, d = X.shape; k = j.runs[0]["k"]
        if not ck.check_job(j, "skmeans"): continue
        why = None
        for r in j.res[:T + 1]:
            if m["src"] == "mem":
                A = r.x_after.reshape(n, d); scaled_seen += 1
                if not np.allclose(A, S, rtol=1e-12, atol=1e-15): i = int(np.argmax(~np.isclose(A, S, rtol=1e-12, atol=1e-15).all(1))); why = "sample %d %s was scaled to %s, not %s" % (i, X[i][:5], A[i][:5], S[i][:5]); break
        r0 = j.res[0]; C = r0.C().copy()
        if why is None:
            if r0.error or r0.cents.size != k*d: why = "no initial state: %s" % r0.error
            elif m["init"] == "none" and C.tobytes() != j.runs[0]["centers"].tobytes(): why = "the given centroids were changed"
            elif m["init"] in ("forgy", "kmeanspp"):
                for c in range(k):
                    if not np.isclose(S, C[c], rtol=1e-12, atol=1e-15).all(1).any(): why = "initial centroid %d %s is not a scaled sample" % (c, C[c][:6]); break
            elif m["init"] == "random":
                if (r0.a >= k).any(): why = "a sample has no part in the random partition"
                else:
                    M, cnt = oracle.means(S, r0.a, k); ok = (cnt == 0) | (np.abs(np.nan_to_num(C - M)) <= 1e-10).all(1)
                    if not ok.all(): c = int(np.argmax(~ok)); why = "initial centroid %d is %s, the mean of its part is %s" % (c, C[c][:6], M[c][:6])
        prev, stop = None, None
        for t in range(1, T + 1):
            if why: break
            r = j.res[t]
            why = oracle.wellformed(r, n, d, k, k, t)
            if why is None:
                if stop is not None:
                    if not r.same(prev): why = "the result changed after convergence at iteration %d" % stop
                else:
                    why = oracle.lloyd_step(S, C, r, "cos")
                    ch = n if prev is None else int((r.a != prev.a).sum())
                    if why is None and r.iters != t: why = "it reports %d iterations after %d, with %d changes in the last" % (r.iters, t, ch)
                    if ch == 0: stop = t
            ck.case((j.tag, t, r.digest()), len(set(r.a)) > 1, dict(case=j.tag, n=n, d=d, k=k, threads=j.runs[0]["threads"], iteration=t))
            if prev is not None: moved += int((r.a != prev.a).sum())
            prev, C = r, r.C().copy()
            if why is None and not np.isfinite(C[r.counts > 0]).all(): break
        if why is None and m["tol"] is not None and prev is j.res[T]:
            at = T
            for t in range(1, T + 1):
                ch = n if t == 1 else int((j.res[t].a != j.res[t-1].a).sum())
                if ch == 0 or ch/n <= m["tol"]: at = t; break
            r = j.res[T + 1]; ck.count("stops_judged")
            if not (r.iters == min(at, j.res[at].iters) and r.cents.tobytes() == j.res[at].cents.tobytes() and np.array_equal(r.a, j.res[at].a)): why = "with tolerance %g it ran %d iterations instead of %d" % (m["tol"], r.iters, at)
        if why: ck.violation("skmeans", "%s n=%d d=%d k=%d threads=%d: %s" % (j.tag, n, d, k, j.runs[0]["threads"], why), job=j)
    ck.cov.update(runs=sum(len(j.res) for j in jobs), assignment_changes_observed=moved, scaled_buffers_compared=scaled_seen)
    ck.finish()

if __name__ == "__main__": main(go)
