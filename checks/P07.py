from knorv import *
from scipy import stats
import gen, oracle, draw

def heavy(rng, n, d, how):
    """Data whose distances differ by orders of magnitude, so that weighting errors show."""
    r = np.exp(rng.normal(0, 1.5, n))
    if how == "sorted": r = np.sort(r)
    elif how == "alternating": r = np.where(np.arange(n) % 2, r, r*300)
    V = rng.normal(size=(n, d)); V /= np.linalg.norm(V, axis=1)[:, None]
    if how == "angles": V = np.abs(V)**4 + 1e-3; return V*r[:, None]
    return V*r[:, None]

def scaled(X):
    lo, hi = X.min(0), X.max(0)
    return np.where(hi > lo, (X - lo)/np.where(hi > lo, hi - lo, 1), 0)

def go():
    ck = Check("P07", "random data, engines and parameters with every initialisation: the initial centroids and assignments (iteration limit 0) are judged: equality with the "
               "given ones, membership in the data, means of the random partition, nearest chosen centre; the draws of k-means++, forgy and random partitions with many clusters "
               "are tested against their distributions (probability integral transform in row order and in order of weight, p < 1e-7 alarms); distinct = distinct initial states")
    rng = ck.rng
    binary = build("engines")
    jobs = []
    engs = ["kmeans", "prune", "skmeans", "omp", "ompmin", "fcm", "kpp", "kmeans", "prune"]
    for c in range(ck.scale(2600, 26000)):
        eng = engs[c % len(engs)]
        big = c % 26 == 3
        r, X, kind = draw.run(rng, c // len(engs), eng, heavy=False)
        if big:
            how = str(rng.choice(["sorted", "alternating", "angles"])); n, d = int(rng.integers(1500, 3000)), int(rng.integers(2, 6))
            if eng == "skmeans" or r["dist"] == "cos": how = "angles"
            k = int(rng.integers(150, 300)); kind = how
            if c % 130 == 3 and eng in ("prune", "kpp", "kmeans", "omp", "ompmin") or c % 52 == 29 and eng in ("prune", "kpp"):    # several tasks per thread
                n = int(rng.choice([8193, 12000, 17000, 25000])); r["threads"] = int(rng.choice([1, 1, 2, 3])); d = 2
            X = heavy(rng, n, d, how)
            r.update(data=X, n=n, d=d, k=k)
            if eng in ("kmeans", "prune", "skmeans", "omp", "ompmin") and rng.random() < .6: r["init"] = "kmeanspp"
            r.pop("centers", 0); r.pop("ncent", 0)
            if r["init"] == "random": r["k"] = int(rng.integers(2, 10))
            if r["init"] == "none": r["centers"] = gen.centers(rng, X, k); r["ncent"] = k
        r["iters"] = 0
        if eng == "kpp": r["nstart"] = 1
        jobs.append(Job([r], tag="%s %s %s %s" % (eng, r["init"], r["dist"], kind), meta=dict(X=X, eng=eng)))
    run_jobs(binary, jobs)
    seen, tests, draws = {}, 0, 0
    for j in jobs:
        m = j.meta; eng, X = m["eng"], m["X"]; q = j.runs[0]; init = q["init"]; n, d, k = q["n"], q["d"], q["k"]
        if not ck.check_job(j, eng): continue
        r = j.res[0]
        key = "%s %s" % (eng, init)
        seen[key] = seen.get(key, 0) + 1
        if r.error: ck.violation(key + " error", "%s: %s" % (j.tag, r.error), job=j); continue
        C = r.C() if r.cents.size == k*d else None
        ck.case((j.tag, r.digest()), k > 1, dict(case=j.tag, n=n, d=d, k=k, first=list(C[0][:3]) if C is not None else None))
        def alarm(what, msg): ck.violation("%s %s" % (key, what), "%s: n=%d k=%d threads=%d: %s" % (j.tag, n, k, q["threads"], msg), job=j)
        if C is None: alarm("shape", "%d centroid values" % r.cents.size); continue
        if init == "none":
            if not np.array_equal(C, q["centers"]): alarm("given", "the given centroids became different ones"); continue
            if r.cmod: alarm("given", "the caller's centroids were modified")
            continue
        Xs, metric = X, q["dist"]
        if eng == "skmeans": Xs, metric = scaled(X), "cos"
        if init == "random":
            if (r.a >= k).any(): alarm("partition", "sample %d is in no part" % int(np.argmax(r.a >= k))); continue
            M, cnt = oracle.means(Xs, r.a, k)
            bad = (cnt > 0) & ~(np.abs(C - M) <= oracle.mean_tol(Xs)).all(1)
            if bad.any(): alarm("partition", "centroid %d is not the mean of its part" % int(np.argmax(bad))); continue
            if n >= 60*k and k > 1:
                tests += 1
                p = stats.chisquare(cnt).pvalue
                pairs = np.bincount(r.a[:-1].astype(int)*k + r.a[1:], minlength=k*k)
                p2 = stats.chisquare(pairs).pvalue if n >= 6*k*k else 1
                if min(p, p2) < 1e-7: alarm("distribution", "sizes %s of the random parts have p-value %g, their successions %g" % (cnt[:12], p, p2))
            continue
        # centres that are samples: which ones?
        rows = {}
        for i, x in enumerate(np.ascontiguousarray(Xs + 0.0)): rows.setdefault(x.tobytes(), []).append(i)
        pos = []
        for c in range(k):
            w = rows.get((C[c] + 0.0).tobytes())
            if w is None and eng == "skmeans":    # scaled by the engine's own arithmetic
                e = np.abs(Xs - C[c]).max(1); w = [int(np.argmin(e))] if e.min() <= 1e-12 else None
            if w is None: alarm("sample", "centroid %d is not a sample" % c); break
            pos.append(w)
        if len(pos) < k: continue
        uniq = all(len(w) == 1 for w in rows.values()) and len(rows) == n
        if init == "forgy":
            if uniq and k >= 100:
                tests += 1
                u = (np.array([w[0] for w in pos]) + rng.random(k))/n
                p = stats.kstest(u, "uniform").pvalue
                if p < 1e-7: alarm("distribution", "the %d chosen rows are not spread uniformly over %d rows (p-value %g)" % (k, n, p))
            continue
        # k-means++
        if (r.a >= k).any(): alarm("assignment", "sample %d has no cluster after the initialisation" % int(np.argmax(r.a >= k))); continue
        bad, D = oracle.nearest_violations(Xs, C, r.a, metric)
        if len(bad):
            i = int(bad[0]); alarm("assignment", "sample %d is assigned to centre %d at distance %.17g, centre %d is at %.17g" % (i, r.a[i], D[i, r.a[i]], int(np.nanargmin(D[i])), float(np.nanmin(D[i])))); continue
        if metric == "cos" and not Xs.any(1).all(): ck.skip("draws among vectors that have no angle"); continue
        tol = 10*oracle.abs_tol(Xs, metric)
        near = D[:, 0].copy(); U1, U2 = [], []
        bad = False
        for c in range(1, k):
            w = np.where(near <= tol, 0, near); W = w.sum()
            if W <= n*tol*10: break
            i = max(pos[c], key=lambda i: w[i]); draws += 1
            if w[i] == 0:
                if near.sum() - W > 1e-9*W: break      # the rounding of distances weighs something here
                alarm("zero weight", "centre %d is sample %d, which is equal to a chosen centre while others remain" % (c, i)); bad = True; break
            grp = np.zeros(n, bool); grp[pos[c]] = True
            U1.append((w[:pos[c][0]].sum() + rng.random()*w[i])/W if len(pos[c]) == 1 else np.nan)
            wi = w[i]; lo = w[w < wi].sum(); eq = w[w == wi].sum()
            U2.append((lo + rng.random()*eq)/W)
            np.minimum(near, D[:, c], out=near)
        if bad: continue
        if len(U2) >= 100:
            tests += 1
            U1 = np.array(U1)
            p1 = stats.kstest(U1, "uniform").pvalue if np.isfinite(U1).all() else 1
            p2 = stats.kstest(U2, "uniform").pvalue
            if min(p1, p2) < 1e-7:
                alarm("distribution", "the %d drawn centres do not follow their distances: p-value %g in row order, %g in order of weight (means %.3f and %.3f instead of 0.5)" % (len(U2), p1, p2, np.mean(U1), np.mean(U2)))
    ck.cov.update(initialisations=seen, distribution_tests=tests, kmeanspp_draws=draws)
    ck.finish()

if __name__ == "__main__": main(go)
