from knorv import *
import gen, oracle, draw

CONT = ["blobs", "prefix", "runs", "uniform", "offset", "tiny", "huge", "outlier", "sorted", "aniso", "negative", "unbal", "dups", "constcol"] + ["cascade"]*2
EXACT = ["int", "binary", "lattice", "allsame"]    # sums of these are exact in any order

def tie(binary, j, q0, q, X):
    """Did two runs part at samples that are equally far from two centroids up to rounding?"""
    if q0["engine"] == "fcm":
        T = j.res[0].iters
        jj = Job([dict(q0, iters=t) for t in (T - 1, T)] + [dict(q, iters=T)]); run_jobs(binary, [jj])
        if not jj.ok() or T < 2: return False
        C, a, b = jj.res[0].C(), jj.res[1], jj.res[2]
        if (np.abs(a.C() - b.C()) > oracle.mean_tol(X, 1e5)).any(): return False
        rows = np.nonzero(a.a != b.a)[0]; D = oracle.dist(X[rows], C, q0["dist"]); i = np.arange(len(rows))
        return bool((np.abs(D[i, a.a[rows]] - D[i, b.a[rows]]) <= 1e5*oracle.abs_tol(X, q0["dist"])).all())
    if q0["engine"] == "medoid":
        T = max(j.res[0].iters, 1)
        jj = [Job([dict(p, iters=t) for t in range(0, T + 1)]) for p in (q0, q)]; run_jobs(binary, jj)
        if not all(x.ok() for x in jj): return False
        prev = None
        for a, b in zip(jj[0].res, jj[1].res):
            cl = np.nonzero((a.C() != b.C()).any(1))[0]
            if len(cl):
                if prev is None: return False
                e = [oracle.dist(X[prev == c], np.stack([a.C()[c], b.C()[c]]), q0["dist"]).sum(0) for c in cl]
                return all(abs(x[0] - x[1]) <= 10*len(X)*oracle.abs_tol(X, q0["dist"]) for x in e)
            i = np.nonzero(a.a != b.a)[0]; k = np.arange(len(i))
            if len(i):
                D = oracle.dist(X[i], a.C(), q0["dist"])
                return bool((np.abs(D[k, a.a[i]] - D[k, b.a[i]]) <= 100*oracle.abs_tol(X, q0["dist"])).all())
            prev = a.a
        return False
    if q0["engine"] not in ("kmeans", "prune", "omp", "ompmin", "skmeans"): return False
    T = q0["iters"]
    jj = [Job([dict(p, iters=t) for t in range(0, T + 1)]) for p in (q0, q)]
    run_jobs(binary, jj)
    if not all(x.ok() for x in jj): return False
    if q0["engine"] == "skmeans":
        lo, hi = X.min(0), X.max(0); X = np.where(hi > lo, (X - lo)/np.where(hi > lo, hi - lo, 1), 0)
    for t in range(0, T + 1):
        a, b = jj[0].res[t], jj[1].res[t]
        if np.array_equal(a.a, b.a): continue
        if t == 0: return False
        p, pb = jj[0].res[t - 1], jj[1].res[t - 1]
        if t == 1 and q0["init"] == "none": C = q0["centers"]
        else: C = p.C()
        rows = np.nonzero(a.a != b.a)[0]
        D = oracle.dist(X[rows], C, q0["dist"])
        i = np.arange(len(rows))
        gap = np.abs(D[i, a.a[rows]] - D[i, b.a[rows]])
        ok = gap <= 100*oracle.abs_tol(X, q0["dist"])
        if q0["dist"] == "cos" and t > 1:    # the centroid of an emptied cluster has no direction but that of its rounding
            ok |= (p.counts[a.a[rows]] == 0) | (p.counts[b.a[rows]] == 0)
        return bool(ok.all())
    return False

def chaotic(binary, j, q0, r, X):
    """Would the last digit of the data make as large a difference?"""
    g = np.random.default_rng(5)
    jj = Job([q0] + [dict(q0, data=X*(1 + 2e-16*g.choice([-1, 0, 1], X.shape))) for _ in range(8)])
    run_jobs(binary, [jj])
    if not jj.ok(): return False
    b = jj.res[0]
    if any(x.k != b.k or x.iters != b.iters or not np.array_equal(x.a, b.a) for x in jj.res[1:]): return True
    if q0["engine"] == "fcm" and any((np.abs(x.C() - b.C()) > oracle.mean_tol(X, 1e3)).any() for x in jj.res[1:]): return True
    if r.k != b.k or r.iters != b.iters or not np.array_equal(r.a, b.a): return False
    return np.abs(r.C() - b.C()).max() <= 1000*max(np.abs(x.C() - b.C()).max() for x in jj.res[1:])

def go():
    ck = Check("P04", "each case runs one algorithm with the same data, parameters and (seeded) initialisation under several thread counts, data sources "
               "(memory, file, redistributed) and engines, and compares all results with the first: bit by bit for data whose sums are exact, "
               "else assignments exactly and centroids up to rounding; distinct = distinct clusterings that more than one configuration was compared on")
    rng = ck.rng
    binary = build("engines")
    jobs = []
    engs = ["kmeans", "prune", "kmeans", "prune", "skmeans", "medoid", "fcm", "hclust", "xmeans", "gmeans", "kpp", "mb", "ompmin"]
    for c in range(ck.scale(2000, 16000)):
        eng = engs[c % len(engs)]
        exact = eng in ("kmeans", "hclust", "xmeans", "gmeans", "kpp", "mb") and rng.random() < .4
        kind = str(rng.choice(EXACT if exact else CONT))
        if not exact and (eng, kind) in (("fcm", "offset"), ("fcm", "dups"), ("medoid", "dups"), ("xmeans", "dups"), ("gmeans", "dups"), ("fcm", "runs"), ("medoid", "runs"), ("xmeans", "runs"), ("gmeans", "runs")) or kind == "cascade" and eng not in draw.HIER: kind = "blobs"   # exact ties between centers, scores of equal samples
        while True:
            r, X, kind = draw.run(rng, c // len(engs), eng, kind=kind, src="mem")
            # the median of samples on a line is not unique, cosine distances in one dimension are all equal
            if exact or r["d"] > 1 or not (eng == "medoid" or r["dist"] == "cos"): break
        n = r["n"]; r["src"] = "mem"
        if exact:
            X = np.round(X); r["data"] = X
            if "centers" in r: r["centers"] = np.round(r["centers"])
        if eng == "kmeans" and r["dist"] in ("eucl", "cos"): pass
        r["k"] = min(r["k"], n)
        if eng == "medoid": r["rate"] = 1.0
        if eng in ("kmeans", "prune", "skmeans"): r["iters"] = int(rng.choice([0, 1, 2, 4, 6]))
        if eng == "kpp": r["iters"] = 0
        if eng == "fcm" and r["dist"] == "cos": r["iters"] = 1   # 1 - cos of a sample near a center is rounding, which memberships divide by
        variants = []
        ths = [1, 2, 3, 4, 5, 6, 7, 8, 9, 13, 16, 31, n - 1, n, n + 1] if n < 40 else [1, 2, 3, 4, 5, 6, 7, 8, 9, 13, 16, 31]
        ths = [int(t) for t in rng.choice([t for t in ths if t > 0], 3, replace=False)] if eng != "mb" else []
        for t in ths: variants.append(dict(r, threads=t, src="file" if rng.random() < .5 and eng != "ompmin" else "mem"))
        if eng != "ompmin": variants.append(dict(r, src="file"))
        if eng not in ("ompmin", "kpp") and rng.random() < .3: variants.append(dict(r, src="both"))
        if eng in ("kmeans", "prune"): variants.append(dict(r, src="numa", threads=int(rng.choice([1, 2, 3, r["threads"]]))))
        if eng in ("kmeans", "prune") and r["dist"] in ("eucl", "cos") and r["init"] == "none" and 2 <= r["k"] <= n and r["iters"] > 0:
            variants.append(dict(r, engine={"kmeans": "omp", "prune": "ompmin"}[eng], threads=int(rng.choice([1, 2, 3, 5, 8]))))
        jobs.append(Job([r] + variants, tag="%s %s %s %s" % (eng, r["init"], r["dist"], kind), meta=dict(X=X, eng=eng, exact=exact)))
    run_jobs(binary, jobs)
    pairs = ident = 0
    for j in jobs:
        m = j.meta; eng = m["eng"]
        if not ck.check_job(j, eng): continue
        r0, X, q0 = j.res[0], m["X"], j.runs[0]
        if r0.error: ck.violation(eng + " error", j.tag + ": " + r0.error, job=j); continue
        for q, r in zip(j.runs[1:], j.res[1:]):
            cross = q["engine"] != eng
            what = "%s threads=%d src=%s against threads=%d src=%s" % (q["engine"], q["threads"], q["src"], q0["threads"], q0["src"])
            pairs += 1
            ck.case((j.tag, r0.digest()), len(set(r0.a)) > 1, dict(case=j.tag, n=q["n"], d=q["d"], k=q["k"], compared=what))
            if r.error: ck.violation(eng + " error", j.tag + ": " + r.error, job=j); break
            if m["exact"] and not cross:
                if not r.same(r0):
                    ck.violation(eng + " layout", "%s: %s: %d assignments and %d centroid values differ, %d and %d iterations" % (j.tag, what, (r.a != r0.a).sum() if len(r.a) == len(r0.a) else -1,
                        (r.cents != r0.cents).sum() if len(r.cents) == len(r0.cents) else -1, r.iters, r0.iters), job=j); break
                ident += 1; continue
            why = None
            if r.k != r0.k: why = "%d clusters and %d" % (r.k, r0.k)
            elif not np.array_equal(r.a, r0.a): why = "%d samples are assigned differently" % (r.a != r0.a).sum()
            elif (q0["iters"] or eng == "kpp") and not np.array_equal(r.counts, r0.counts): why = "the sizes differ"
            elif r.iters != r0.iters: why = "%d iterations and %d" % (r.iters, r0.iters)
            else:
                used = np.bincount(r0.a[r0.a < r0.k], minlength=r0.k) > 0 if q0["iters"] else np.ones(r0.k, bool)
                Xs = X if eng != "skmeans" else np.ones((1, X.shape[1]))
                off = np.abs(r.C() - r0.C())[used] > oracle.mean_tol(Xs, 1e4 if eng == "fcm" else 50)
                if off.any(): why = "the centroids differ by up to %g" % np.abs(r.C() - r0.C())[used].max()
            if why and tie(binary, j, q0, q, X): ck.skip("a sample is equally far from two centroids, up to rounding"); continue
            if why and chaotic(binary, j, q0, r, X): ck.skip("the last digit of the data decides"); continue
            if why: ck.violation(eng + " layout", "%s: %s: %s" % (j.tag, what, why), job=j); break
    ck.cov.update(pairs_compared=pairs, bit_identical_pairs=ident)
    ck.finish()

if __name__ == "__main__": main(go)
