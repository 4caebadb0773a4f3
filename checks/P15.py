from knorv import *
import gen, oracle

def step(X, C, metric, fz, D=None):
    """Memberships of the samples and the centres of one iteration."""
    D = np.maximum(oracle.dist(X, C, metric) if D is None else D, 2.2e-16)
    U = (1/D)**(1.0/(fz - 1))
    U = (U/U.sum(1, keepdims=True))**fz
    s = U.sum(0)
    with np.errstate(all="ignore"): return U, (U.T @ X)/s[:, None]

def go():
    ck = Check("P15", "random data sets, metrics, k, threads and fuzzy indices; fuzzy c-means is run with iteration limits 0..T and each state's centres and assignments are compared with an independent evaluation of the "
               "update equations from the state before; cases in which rounding of the centres moves the equations' result are set aside; stops by tolerance; distinct = distinct iteration states judged")
    rng = ck.rng
    binary = build("engines")
    jobs = []
    for c in range(ck.scale(1100, 14000)):
        kind = gen.KINDS[c % len(gen.KINDS)] if c < 2*len(gen.KINDS) else str(rng.choice(gen.KINDS))
        n, d, k, th = gen.config(rng, c, 1, heavy=c % 4 == 0)
        if n > 20000: n = 20000
        X = gen.dataset(rng, kind, n, d); k = min(k, n)
        metric = str(rng.choice(["eucl", "sqeucl", "cos", "taxi"]))
        fz = int(rng.choice([2, 3, 4, 5, 9])); T = int(rng.integers(2, 6)) if n < 5000 else 2
        base = dict(engine="fcm", data=X, n=n, d=d, k=k, threads=th, init="forgy" if rng.random() < .4 else "none", dist=metric, src="file" if rng.random() < .4 else "mem", fuzz=fz)
        if base["init"] == "none": base["centers"] = gen.centers(rng, X, k, str(rng.choice(["rows", "near", "box", "far"])))
        runs = [dict(base, iters=t) for t in range(0, T + 1)]
        tol = float(X.std()*rng.choice([.01, .1, .5, 2]))
        if c % 2: runs.append(dict(base, iters=T, tol=tol))
        jobs.append(Job(runs, tag="%s m=%d %s %s" % (metric, fz, base["init"], kind), meta=dict(X=X, T=T, metric=metric, fz=fz, tol=tol if c % 2 else None)))
    run_jobs(binary, jobs)
    for j in jobs:
        m = j.meta; X, T, metric, fz = m["X"], m["T"], m["metric"], m["fz"]; n, d = X.shape; k = j.runs[0]["k"]
        if not ck.check_job(j, "fcm " + metric): continue
        why = None; C = j.res[0].C().copy()
        if C.shape != (k, d): why = "no initial centres"
        elif j.runs[0]["init"] == "none":
            if C.tobytes() != j.runs[0]["centers"].tobytes(): why = "the given centres were changed"
        else:
            for c in range(k):
                if not (X == C[c]).all(1).any(): why = "initial centre %d is not a sample" % c; break
        sc = np.abs(X).max() + 1e-300; judged = True
        for t in range(1, T + 1):
            if why or not judged: break
            r = j.res[t]
            why = oracle.wellformed(r, n, d, k, k, t)
            if why: break
            if r.iters != t: why = "it reports %d iterations after %d" % (r.iters, t); break
            U, M = step(X, C, metric, fz)
            # how far rounding of the distances moves the equations
            D = oracle.dist(X, C, metric); g = np.random.default_rng(t); sens, dU = 0.0, 0.0
            ad = (d + 8)*4e-16 if metric == "cos" else 0
            for _ in range(4):
                D2 = D*(1 + 1e-14*g.choice([-1, 1], D.shape)) + ad*g.choice([-1, 1], D.shape)
                U2, M2 = step(X, C, metric, fz, D2)
                sens = max(sens, np.abs(M - M2).max()); dU = np.maximum(dU, np.abs(U - U2).max(1))
            if not np.isfinite(M).all() or not sens < 1e-4*sc: ck.skip("rounding decides the memberships"); judged = False; break
            tol = 1e-9*sc + 100*sens
            C2 = r.C()
            if not np.abs(C2 - M).max() <= tol:
                c = int(np.abs(C2 - M).max(1).argmax()); why = "iteration %d: centre %d is %s, the weighted mean is %s (tolerance %.3g)" % (t, c, C2[c][:5], M[c][:5], tol); break
            best = U.max(1); got = U[np.arange(n), r.a]
            sl = 1e-9*best + 100*dU
            off = (got < best - sl) & (D[np.arange(n), r.a] > D.min(1)*(1 + 1e-9) + 2*ad)
            if off.any():
                i = int(np.argmax(off)); why = "iteration %d: sample %d is in cluster %d with membership %.17g, cluster %d has %.17g" % (t, i, r.a[i], got[i], U[i].argmax(), best[i]); break
            ck.case((j.tag, t, r.digest()), k > 1, dict(case=j.tag, n=n, d=d, k=k, threads=j.runs[0]["threads"], iteration=t))
            ck.count("memberships_judged", n*k)
            C = C2.copy()
        if why is None and m["tol"] is not None and judged:
            tol = m["tol"]; S = j.res; mv = [np.sqrt(((S[t].cents - S[t-1].cents)**2).sum()) for t in range(1, T + 1)]
            if all(abs(x - tol) > 1e-6*tol for x in mv):
                at = next((t for t, x in enumerate(mv, 1) if x < tol), T); r = j.res[T + 1]; ck.count("stops_judged")
                if not (r.iters == at and r.cents.tobytes() == S[at].cents.tobytes() and np.array_equal(r.a, S[at].a)): why = "with tolerance %g it ran %d iterations instead of %d (moves %s)" % (tol, r.iters, at, mv)
        if why: ck.violation("fcm " + metric, "%s n=%d d=%d k=%d threads=%d: %s" % (j.tag, n, d, k, j.runs[0]["threads"], why), job=j)
    ck.cov.update(runs=sum(len(j.res) for j in jobs))
    ck.finish()

if __name__ == "__main__": main(go)
