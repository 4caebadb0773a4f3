from knorv import *
import gen, oracle, draw

def go():
    ck = Check("P06", "each case records the trajectory of one run (the states after 1..T iterations), predicts from the changes of assignment between them where "
               "runs with other tolerances and limits have to stop, and compares those runs with the trajectory bit by bit; the objective is recomputed for every state; "
               "distinct = distinct trajectories in which samples changed cluster in more than one iteration")
    rng = ck.rng
    binary = build("engines")
    engs = ["kmeans", "prune", "omp", "ompmin", "skmeans", "kmeans", "prune"]
    jobs = []
    for c in range(ck.scale(1300, 14000)):
        eng = engs[c % len(engs)]
        r, X, kind = draw.run(rng, c // len(engs), eng, heavy=c % 3 == 0)
        r.pop("tol", 0)
        n = r["n"]
        T = int(rng.integers(5, 16)) if n < 8000 else 5
        iters = list(range(1, T + 1))
        tols = [0.0] + [float(x) for x in rng.choice([1e-4, .003, .01, .02, .05, .1, .2, .3, .5, .7, .9, .999], 3, replace=False)] + [min(.999, int(rng.integers(1, n + 1))/n)]
        runs = [dict(r, iters=t) for t in iters]
        runs += [dict(r, iters=int(rng.choice([T, T, max(1, T//2)])), tol=t) for t in tols]
        runs += [dict(r, iters=400 if n < 8000 else 60)]
        jobs.append(Job(runs, tag="%s %s %s %s" % (eng, r["init"], r["dist"], kind), meta=dict(X=X, eng=eng, T=T, iters=iters, ntol=len(tols))))
    run_jobs(binary, jobs)
    states = stops = fix = 0
    for j in jobs:
        m = j.meta; eng, T, X = m["eng"], m["T"], m["X"]
        if not ck.check_job(j, eng): continue
        q = j.runs[0]; n = len(X)
        bad = [r.error for r in j.res if r.error]
        if bad: ck.violation(eng + " error", "%s: %s" % (j.tag, bad[0]), job=j); continue
        ni = len(m["iters"])
        S = {t: r for t, r in zip(m["iters"], j.res[:ni])}
        # samples that changed cluster in iteration t
        ch = {}
        for t in range(1, T + 1):
            ch[t] = n if t == 1 else int((S[t].a != S[t - 1].a).sum())
        def stop(tol, limit, first):
            for t in range(first, limit + 1):
                if ch[t] == 0 or ch[t]/n <= tol: return t, True
            return limit, False
        firsts = (1, 2) if eng == "prune" else (1,)
        ck.case((j.tag, S[T].digest(), T), sum(v > 0 for v in ch.values()) > 1, dict(case=j.tag, n=n, k=q["k"], changes=list(ch.values())))
        done = False
        for t in range(1, T + 1):
            states += 1
            t0 = {stop(-1, t, f)[0] for f in firsts}
            if S[t].iters not in t0 or not any(S[x].same(S[t]) for x in t0 if x in S):
                ck.violation(eng + " stop", "%s: asked for at most %d iterations without tolerance it reports %d; samples changing cluster per iteration: %s" % (j.tag, t, S[t].iters, [ch[i] for i in range(1, t + 1)]), job=j); done = True; break
        if done: continue
        for p, r in zip(j.runs[ni:ni + m["ntol"]], j.res[ni:]):
            stops += 1
            want = {stop(p["tol"], p["iters"], f)[0] for f in firsts}
            if r.iters not in want or not any(S[x].same(r) for x in want):
                ck.violation(eng + " stop", "%s: with tolerance %g and at most %d iterations it reports %d, not %s, or not that iteration's state; changes per iteration %s of %d samples" % (
                    j.tag, p["tol"], p["iters"], r.iters, sorted(want), [ch[i] for i in range(1, p["iters"] + 1)], n), job=j); done = True; break
        if done: continue
        if q["dist"] in ("eucl", "sqeucl") and eng != "skmeans":
            mx = np.abs(X).max(0); scale = (np.abs(X - X.mean(0))**2).sum() + 1e-300
            last = None
            for t in sorted(S):
                if t < 1 or (S[t].a >= S[t].k).any(): continue
                M, _ = oracle.means(X, S[t].a, S[t].k)
                e = oracle.sse(X, np.nan_to_num(M), S[t].a); e2 = oracle.sse(X, S[t].C(), S[t].a)
                tol = 1e-9*e + 1e-12*scale + n*((1e-10*mx)**2).sum() + 2*np.sqrt(n*e*((1e-12*mx)**2).sum())
                if last is not None and e2 > last + tol:
                    ck.violation(eng + " objective", "%s: the sum of squared distances is %.17g after iteration %d, %.17g before" % (j.tag, e2, t, last), job=j); done = True; break
                last = e2
        if done: continue
        r = j.res[-1]; lim = j.runs[-1]["iters"]
        t1 = {stop(-1, T, f) for f in firsts}
        if all(x[1] for x in t1) and not any(x[0] == r.iters and S[x[0]].same(r) for x in t1):
            ck.violation(eng + " limit", "%s: converged after %s iterations, but a limit of %d gives %d iterations" % (j.tag, t1, lim, r.iters), job=j); continue
        if r.iters < lim:
            fix += 1
            C = r.C().copy()
            Xs = X
            if eng == "skmeans":
                lo, hi = X.min(0), X.max(0); Xs = np.where(hi > lo, (X - lo)/np.where(hi > lo, hi - lo, 1), 0)
            C[r.counts == 0] = np.nan    # what happens to the centroid of no sample is not specified
            bad, D = oracle.nearest_violations(Xs, C, r.a, q["dist"])
            if len(bad):
                i = int(bad[0]); ck.violation(eng + " fixpoint", "%s: converged, but sample %d is in cluster %d at distance %.17g and %d is at %.17g" % (
                    j.tag, i, r.a[i], D[i, r.a[i]], int(np.nanargmin(D[i])), float(np.nanmin(D[i]))), job=j)
    ck.cov.update(states_judged=states, stops_predicted=stops, converged_runs=fix)
    ck.finish()

if __name__ == "__main__": main(go)
