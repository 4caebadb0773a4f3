from knorv import *
import gen, oracle, draw

EXACT = ["int", "binary", "lattice", "int", "runs"]     # after rounding: sums are exact in any order
PLAIN = ("kmeans", "prune", "omp", "ompmin")
ENGS = ["kmeans", "prune", "omp", "ompmin", "hclust", "fcm", "xmeans", "gmeans", "skmeans", "medoid", "kpp", "mb", "kmeans", "prune"]

def variant(rng, how, r, X):
    """The transformed run, and what its result must be in terms of that of the run: (run, sample map, centroid map)."""
    n, d, k = r["n"], r["d"], r["k"]; q = dict(r)
    def both(f):
        q["data"] = np.ascontiguousarray(f(X))
        if "centers" in r: q["centers"] = np.ascontiguousarray(f(r["centers"]))
    ident = dict(rows=None, cols=None, scale=1, labels=None, rep=1, pad=0)
    if how == "scale":
        s = 2.0**int(rng.choice([-30, -12, -3, -1, 1, 2, 5, 13, 30]))
        if r["engine"] == "skmeans": q["data"] = X*s      # scales its data itself
        else: both(lambda A: A*s); ident["scale"] = s
    elif how == "samples":
        p = rng.permutation(n); q["data"] = np.ascontiguousarray(X[p]); ident["rows"] = p
    elif how == "features":
        p = rng.permutation(d); both(lambda A: A[:, p]); ident["cols"] = p
    elif how == "labels":
        p = rng.permutation(k); q["centers"] = np.ascontiguousarray(r["centers"][p]); ident["labels"] = p
    elif how == "zeros":
        m = int(rng.integers(1, 5)); both(lambda A: np.hstack([A, np.zeros((len(A), m))])); q["d"] = d + m; ident["pad"] = m
    elif how == "repeat":
        m = int(rng.integers(2, 5)); q["data"] = np.repeat(X, m, axis=0); q["n"] = n*m; ident["rep"] = m
        if "minsz" in r: q["minsz"] = r["minsz"]*m
    elif how == "mirror":
        both(lambda A: -A); ident["scale"] = -1
    return q, ident

def expected(r0, t):
    """What the transformed run must return."""
    a, C, cnt = r0.a.astype(np.int64), r0.C(), r0.counts
    if t["rows"] is not None: a = a[t["rows"]]
    if t["cols"] is not None: C = C[:, t["cols"]]
    if t["labels"] is not None:
        inv = np.argsort(t["labels"]); a = np.where(a < len(inv), inv[np.minimum(a, len(inv) - 1)], a); C = C[t["labels"]]; cnt = cnt[t["labels"]]
    if t["rep"] > 1: a = np.repeat(a, t["rep"]); cnt = cnt*t["rep"]
    if t["pad"]: C = np.hstack([C, np.zeros((len(C), t["pad"]))])
    return a, C*t["scale"], cnt

def parted(binary, r, q, t, X):
    """Did the two part at samples that are equally far from two centroids, up to rounding?"""
    if r["engine"] not in PLAIN + ("skmeans", "fcm"): return False
    jj = [Job([dict(p, iters=i) for i in range(0, r["iters"] + 1)]) for p in (r, q)]
    run_jobs(binary, jj)
    if not all(j.ok() for j in jj): return False
    if r["engine"] == "skmeans":
        lo, hi = X.min(0), X.max(0); X = np.where(hi > lo, (X - lo)/np.where(hi > lo, hi - lo, 1), 0)
    for i in range(r["iters"]):
        a, b = jj[0].res[i+1], jj[1].res[i+1]
        ea, eC, _ = expected(a, t)
        if np.array_equal(ea, b.a): continue
        C = r["centers"] if i == 0 and r["init"] == "none" else jj[0].res[i].C()
        ba = b.a.astype(np.int64)
        if t["labels"] is not None: ba = t["labels"][ba]
        if t["rep"] > 1: ba = ba[::t["rep"]]; 
        if t["rows"] is not None: z = np.empty_like(ba); z[t["rows"]] = ba; ba = z
        w = np.nonzero(a.a != ba)[0]
        if not len(w): return True     # copies of one sample parted: rounding within a tie
        D = oracle.dist(X[w], C, r["dist"]); j = np.arange(len(w))
        ok = np.abs(D[j, a.a[w]] - D[j, ba[w]]) <= (1e5 if r["engine"] == "fcm" else 100)*oracle.abs_tol(X, r["dist"])
        if r["dist"] == "cos" and i > 0:
            p = jj[0].res[i].counts; ok |= (p[a.a[w]] == 0) | (p[ba[w]] == 0)
        return bool(ok.all())
    return False

def chaotic(binary, r, X):
    """Would the last digit of the data make a difference?"""
    g = np.random.default_rng(5)
    j = Job([r] + [dict(r, data=X*(1 + 4e-16*g.choice([-1, 0, 1], X.shape))) for _ in range(12)])
    run_jobs(binary, [j])
    if not j.ok(): return False
    b = j.res[0]
    if any(x.k != b.k or x.iters != b.iters or not np.array_equal(x.a, b.a) for x in j.res[1:]): return True
    return bool(any((np.abs(x.C() - b.C()) > 50*oracle.mean_tol(X)).any() for x in j.res[1:]))

def go():
    ck = Check("P29", "each case runs one algorithm on a data set and on transformed copies of it (scaled by a power of two, mirrored, samples, features or initial centroids reordered, features that are zero added, every "
               "sample repeated) and compares the result with the transformed result: bit by bit where all arithmetic is exact under the transformation, else up to rounding and ties; distinct = distinct (transformation, clustering) compared")
    rng = ck.rng
    binary = build("engines")
    jobs = []
    for c in range(ck.scale(2400, 24000)):
        eng = ENGS[c % len(ENGS)]
        exact = eng in PLAIN and rng.random() < .5
        kind = str(rng.choice(EXACT)) if exact else None
        r, X, kind = draw.run(rng, c // len(ENGS), eng, kind=kind, heavy=c % 4 == 0, src="mem" if rng.random() < .7 else "file")
        if exact:
            X = np.round(X); r["data"] = X
            if "centers" in r: r["centers"] = np.round(r["centers"])
        if eng == "fcm" and np.ptp(X) < 1e-4: continue         # below the least distance of fuzzy c-means
        r["k"] = min(r["k"], r["n"])
        if r["init"] == "none" and eng not in draw.HIER and r["ncent"] != r["k"]: r["centers"] = r["centers"][:r["k"]]; r["ncent"] = r["k"]
        r["iters"] = int(rng.choice([1, 2, 3, 5, 8])) if eng not in ("medoid", "kpp") else r["iters"]
        if eng == "fcm": r["tol"] = 0.0; r["dist"] = str(rng.choice(["eucl", "sqeucl", "taxi"]))    # 1 - cos of a sample near a center is rounding, which memberships divide by
        if eng == "mb": r["tol"] = -1.0        # the distance moved: has a unit
        given = r["init"] == "none"
        # scaling is exact in every algorithm: initial choices included (but not in the powers of fuzzy c-means nor the logarithms of x-means)
        hows = ["scale"] if eng != "fcm" else []       # (the least distance of fuzzy c-means has a unit)
        if eng != "skmeans": hows.append("mirror")
        if eng in PLAIN + ("skmeans", "medoid", "kpp", "mb", "fcm"): hows += ["zeros"]
        if given and eng in PLAIN + ("fcm", "skmeans"): hows += ["labels"]
        if given and eng in PLAIN + ("fcm", "skmeans"): hows += ["samples"]       # (the hierarchical ones draw samples at each split)
        if eng in PLAIN + draw.HIER + ("fcm", "skmeans") and not (r["init"] == "kmeanspp" and not exact): hows += ["features"]
        if given and eng in PLAIN: hows += ["repeat"]
        vs = [variant(rng, h, r, X) + (h,) for h in rng.permutation(hows)[:3]]
        jobs.append(Job([r] + [v[0] for v in vs], tag="%s %s %s %s" % (eng, r["init"], r["dist"], kind), meta=dict(X=X, eng=eng, exact=exact, vs=vs)))
    run_jobs(binary, jobs)
    per = {}; ident = 0
    for j in jobs:
        m = j.meta; eng, X = m["eng"], m["X"]
        if not ck.check_job(j, eng): continue
        r0, r = j.res[0], j.runs[0]
        if r0.error: ck.skip("the run failed: judged by P01"); continue
        for (q, t, how), x in zip(m["vs"], j.res[1:]):
            per[how] = per.get(how, 0) + 1
            ck.case((how, j.tag, r0.digest()), len(set(r0.a)) > 1, dict(case=j.tag, n=r["n"], d=r["d"], k=r["k"], transformation=how))
            a, C, cnt = expected(r0, t)
            why = None
            if x.error: why = x.error
            elif x.k != r0.k: why = "%d clusters instead of %d" % (x.k, r0.k)
            elif not np.array_equal(x.a, a): why = "%d samples are assigned differently" % (x.a != a).sum()
            elif not np.array_equal(x.counts, cnt): why = "the sizes differ"
            elif x.iters != r0.iters: why = "%d iterations instead of %d" % (x.iters, r0.iters)
            else:
                bit = how in ("scale", "mirror") and eng not in ("fcm", "xmeans", "gmeans", "skmeans") or m["exact"] and how in ("samples", "labels", "zeros") and r["dist"] != "cos" and eng in ("kmeans", "omp")
                D = x.C(); 
                used = cnt > 0
                if bit and how != "mirror":
                    if not np.array_equal(D[used], C[used]): why = "the centroids differ by up to %g" % np.abs(D - C)[used].max()
                    else: ident += 1
                else:
                    Xs = np.ones((1, D.shape[1])) if eng == "skmeans" else (q["data"])
                    off = ~(np.abs(D - C)[used] <= oracle.mean_tol(Xs, 1e4 if eng == "fcm" else 50))
                    if off.any(): why = "the centroids differ by up to %g" % np.abs(D - C)[used].max()
            if not why: continue
            if not (how == "scale" and eng not in ("fcm", "xmeans", "gmeans")):
                if parted(binary, r, q, t, X): ck.skip("a sample is equally far from two centroids, up to rounding"); continue
                if eng in draw.HIER + ("fcm", "skmeans") and chaotic(binary, r, X): ck.skip("the last digit of the data decides"); continue
            ck.violation("%s %s" % (eng, how), "%s: n=%d d=%d k=%d threads=%d iters=%d: under the transformation %s %s: %s" % (
                j.tag, r["n"], r["d"], r["k"], r["threads"], r["iters"], how, t["scale"] if how == "scale" else "", why), job=j); break
    ck.cov.update(compared=per, bit_identical=ident)
    ck.finish()

if __name__ == "__main__": main(go)
