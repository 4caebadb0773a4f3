"""Reference tree of the hierarchical algorithms: what a split of a set of samples is, whether it is kept, and whether a
reported clustering is a set of leaves of that tree.  A split depends only on the samples of the split cluster."""
import numpy as np
import oracle

CRIT = [0.576, 0.656, 0.787, 0.918, 1.092]

class Aside(Exception):
    """Rounding or a tie decides."""

class Wrong(Exception):
    """The clustering is not one the algorithm can return."""

def two_means(X, M, seeds, metric, iters, tol):
    """Two-means of the samples M.  Returns (side, means, distances at the last assignment)."""
    Y = X[M]; n = len(M)
    C = np.array(seeds, float)
    exact = np.all(Y == np.round(Y)) and np.abs(Y).max(initial=0) < 1e6
    side = None; D = None; cnt = (1, 1)
    for t in range(iters):
        D = oracle.dist(Y, C, metric)
        gap = D[:, 1] - D[:, 0]
        eps = oracle.abs_tol(Y, metric) + 1e-9*np.abs(D).max(1)
        close = np.abs(gap) <= eps
        if close.any():
            if C[0].tobytes() == C[1].tobytes(): gap = np.zeros(n)                         # nothing to decide: the first
            elif exact and metric != "cos" and np.all(C == np.round(C)) and all(m & (m - 1) == 0 for m in cnt): pass     # exact arithmetic (a mean may be computed with the reciprocal of the size)
            else: raise Aside("tie")
        new = (gap < 0).astype(int)      # the second one only if it is strictly nearer
        changed = n if side is None else int((new != side).sum())
        side = new
        C = np.zeros_like(C); cnt = [int((side == s).sum()) for s in (0, 1)]
        for s in (0, 1):
            if (side == s).any(): C[s] = Y[side == s].mean(0)
        if changed == 0 or changed/n <= tol: break
    return side, C, D[np.arange(n), side]

def bic_keeps(X, M, side, C, dlast):
    """X-means: True (split), False (kept whole) or None (undecided)."""
    out = []
    Y = X[M]; N = len(M); d = X.shape[1]; nl, nr = int((side == 0).sum()), int((side == 1).sum())
    for dist in (dlast, np.sqrt(((Y - C[side])**2).sum(1))):
        p = c = np.finfo(float).min
        with np.errstate(all="ignore"):
            if N > 1:
                s = np.sqrt(((Y - Y.mean(0))**2).sum(1)).sum()/(N - 1)
                p = -N*np.log(2*np.pi)*.5 - N*d*np.log(s)*.5 - (N - 1)*.5 - (d + 1)*.5*np.log(N)
            if N > 2:
                s = dist.sum()/(N - 2); c = 0
                for m in (nl, nr):
                    c += (m*np.log(m) if m else 0) - m*np.log(N) - m*np.log(2*np.pi)*.5 - m*d*np.log(s)*.5 - (m - 2)*.5 - (2*d + 2)*.5*np.log(N)
        if np.isnan(p) or np.isnan(c) or np.isinf(p) and np.isinf(c): return None
        if np.isfinite(p) and np.isfinite(c) and abs(p - c) <= 1e-6*(1 + abs(p) + abs(c)) and N > 2: return None
        out.append(bool(p <= c))
    return out[0] if out[0] == out[1] else None

def ad_statistic(v):
    from scipy.special import erfc
    v = np.sort(v); n = len(v)
    with np.errstate(all="ignore"):
        y = (v - v.mean())/v.std(ddof=1)
        phi = .5*erfc(-y/np.sqrt(2))
        return -n - ((2*np.arange(1, n + 1) - 1)/n*(np.log(phi) + np.log(1 - phi[::-1]))).sum()

def ad_keeps(X, M, side, C, strict):
    """G-means: True (split), False (kept whole) or None (undecided)."""
    N = len(M); v = C[0] - C[1]
    with np.errstate(all="ignore"):
        p = X[M] @ v/(v @ v)
        if not np.isfinite(p).all(): return None
        if p.std() <= 1e-9*np.abs(p).max(): return None
        a = ad_statistic(p); crit = CRIT[strict]/(1 + 4/N - 25/N**2)
    if np.isnan(a): return None
    if np.isfinite(a) and abs(a - crit) <= 1e-6*(1 + abs(crit)): return None
    return bool(a > crit)

def judge(q, X, r, algo):
    """Judges the result r of the run q with given initial centroids.  Returns (why or None, statistics)."""
    n, d = X.shape
    cap = 1
    while cap*2 <= q["k"]: cap *= 2
    tol = q.get("tol", -1); minsz = max(2, q.get("minsz", 2)); metric = q["dist"]; iters = q["iters"]
    st = dict(splits=0, leaves=0, rejected=0, accepted=0, at_cap=0, below_min=0, undecided=0)
    leaves = []; empties = 0; free = False
    def split(M, root):
        seeds = q["centers"] if root else X[M[:2]]
        side, C, dl = two_means(X, M, seeds, metric, iters, tol)
        keep = True if algo == "hclust" else bic_keeps(X, M, side, C, dl) if algo == "xmeans" else ad_keeps(X, M, side, C, q.get("strict", 4))
        return side, C, keep
    try:
        todo = [(np.arange(n), True)]
        while todo:
            M, root = todo.pop()
            lab = np.unique(r.a[M])
            if len(lab) == 1 and not (root and n >= 2 and algo == "hclust"):
                if r.counts[lab[0]] != len(M): raise Wrong("cluster %d has %d samples, %d of which form a cluster on their own" % (lab[0], r.counts[lab[0]], len(M)))
                leaves.append((M, root)); continue
            if not root and len(M) < minsz: raise Wrong("a cluster of %d samples was split, the minimum is %d" % (len(M), minsz))
            side, C, keep = split(M, root)
            L, R = M[side == 0], M[side == 1]
            if not len(L) or not len(R):
                empties += 1
                if not root:
                    if len(lab) > 1: raise Wrong("%d samples that no split separates are in clusters %s" % (len(M), lab[:5]))
                    free = True
                if keep is False and len(lab) > 1: raise Wrong("a split of %d samples was kept that does not pass the test" % len(M))
                if root: todo.append((M, False))
                continue
            if len(lab) == 1: raise Wrong("the first split, %d + %d samples, was not made" % (len(L), len(R)))
            if keep is False: raise Wrong("a split of %d samples in %d + %d was kept that does not pass the test" % (len(M), len(L), len(R)))
            if keep is None: st["undecided"] += 1
            both = np.intersect1d(r.a[L], r.a[R])
            if len(both):
                i, k = L[r.a[L] == both[0]][0], R[r.a[R] == both[0]][0]
                raise Wrong("samples %d and %d are in cluster %d, but the split of their cluster of %d samples puts them in different ones (%d + %d)" % (i, k, both[0], len(M), len(L), len(R)))
            st["splits"] += 1; st["accepted"] += keep is True and algo != "hclust"
            todo += [(L, False), (R, False)]
        # could a leaf have been split?
        could = []; rejected = 0
        for M, root in leaves:
            st["leaves"] += 1
            if len(M) < minsz and not root: st["below_min"] += 1; continue
            try: side, C, keep = split(M, root)
            except Aside: st["undecided"] += 1; free = True; continue   # may be a chain of splits that leave one side empty
            if side.all() or not side.any(): free = True; continue
            if keep is True: could.append((M, side))
            elif keep is False: st["rejected"] += 1; rejected += 1
            else: st["undecided"] += 1; rejected += 1   # (attempted at most once)
        if could:
            if r.k + empties + rejected < cap and not free:
                M, side = could[0]
                raise Wrong("the cluster of %d samples (with sample %d) can be split in %d + %d%s, the minimum is %d and there are %d clusters of at most %d" % (
                    len(M), M[0], (side == 0).sum(), (side == 1).sum(), "" if algo == "hclust" else " by the test", minsz, r.k, cap))
            st["at_cap"] += len(could)
        if r.k > cap: raise Wrong("%d clusters, at most %d were asked" % (r.k, cap))
    except Wrong as e: return str(e), st
    except Aside: return "aside", st
    return None, st

def means_wrong(X, r):
    M, cnt = oracle.means(X, r.a, r.k); C = r.C()
    bad = ~(np.abs(C - M) <= oracle.mean_tol(X)).all(1)
    if bad.any():
        c = int(np.argmax(bad)); return "centroid %d is %s, the mean of its %d samples is %s" % (c, C[c][:6], cnt[c], M[c][:6])

def _one(a):
    q, X, r, algo = a
    why = oracle.wellformed(r, q["n"], q["d"], 1, q["k"], q["iters"], True) or means_wrong(X, r)
    if why: return why, {}
    if q["init"] != "none": return None, {}
    return judge(q, X, r, algo)

def check(pid, algo, rule, N):
    from knorv import Check, build, run_jobs, Job, NCPU
    import gen, draw, multiprocessing as mp
    ck = Check(pid, rule); rng = ck.rng
    binary = build("engines")
    jobs = []
    N = ck.scale(*N)
    for c in range(N):
        kind = ("cascade" if c % 5 < 2 else str(rng.choice(["blobs", "uniform", "unbal", "aniso", "negative", "offset", "outlier", "line", "tiny", "blobs"])) if c % 5 < 4 else None)
        q, X, kind = draw.run(rng, c, algo, kind=kind, heavy=c % 3 == 0)
        if q["init"] != "none" and rng.random() < .8:
            q["init"] = "none"; q["ncent"] = 2; q["centers"] = gen.centers(rng, X, 2, str(rng.choice(["rows", "near", "box"], p=[.7, .2, .1])))
        if rng.random() < .5: q["iters"] = int(rng.integers(3, 25))
        if q.get("tol", 0) >= 1: q.pop("tol")
        if rng.random() < .5: q["k"] = int(rng.choice([64, 100, 128]))
        if algo == "hclust" and rng.random() < .3: q["minsz"] = int(rng.choice([n for n in (10, 20, 50, 100, 400)]))
        jobs.append(Job([q], tag="%s %s %s" % (q["init"], q["dist"], kind), meta=dict(X=X), timeout=120))
    run_jobs(binary, jobs)
    args, js = [], []
    for j in jobs:
        if not ck.check_job(j, algo): continue
        args.append((j.runs[0], j.meta["X"], j.res[0], algo)); js.append(j)
    with mp.Pool(NCPU) as pool: verdicts = pool.map(_one, args, chunksize=8)
    tot = {}; aside = 0
    for j, (why, st) in zip(js, verdicts):
        r, q = j.res[0], j.runs[0]
        for k, v in st.items(): tot[k] = tot.get(k, 0) + int(v)
        if why == "aside": ck.skip("a tie decides"); why = None
        elif why is None: ck.case((j.tag, r.digest()), r.k > 1, dict(case=j.tag, n=q["n"], d=q["d"], kmax=q["k"], minimum=q["minsz"], threads=q["threads"], clusters=int(r.k)))
        if why: ck.violation("%s %s" % (algo, q["dist"]), "%s n=%d d=%d kmax=%d minimum=%d iters=%d threads=%d: %s" % (j.tag, q["n"], q["d"], q["k"], q["minsz"], q["iters"], q["threads"], why), job=j)
    if algo == "gmeans":     # the test itself, on samples of its own
        from units import run_units
        run_units(ck, "u_linalg", ck.scale(8000, 200000), env={"U_MODE": "ad"})
    ck.cov.update({"observed_" + k: v for k, v in tot.items()})
    ck.finish()
