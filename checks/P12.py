from knorv import *
import itertools
import gen, oracle

EPS = 1e-9

def updates(W, W2, n, vmax):
    """The (rows given to a cluster, in order, size) that turn the weights W of a centroid into W2: one entry per possibility."""
    if np.abs(W2 - W).max() < 1e-13:
        return [((), None)] + ([((int(np.argmax(W[:n])),), 1)] if W[:n].max() > 1 - 1e-12 else [])
    out = []
    fresh = int(((W[:n] == 0) & (W2[:n] > 1e-13)).sum())
    for v in range(max(1, fresh), vmax + 1):
        eta = 1.0/v
        for m in range(max(1, fresh), v + 1):
            dec = (1 - eta)**m
            if abs(W2[n] - dec*W[n]) > EPS*max(W[n], 1e-3): continue
            res = W2[:n] - dec*W[:n]
            sup = np.nonzero(res > 1e-8)[0]
            if len(sup) != m or (m > 1 and v == 1): continue
            rest = np.ones(n, bool); rest[sup] = False
            if rest.any() and np.abs(res[rest]).max() > EPS: continue
            want = eta*(1 - eta)**np.arange(m - 1, -1, -1.0)
            if np.abs(res[sup] - want).max() > EPS: continue
            out.append((tuple(int(x) for x in sup), v))
    return out

def decode(ck, j):
    """Follows the mini-batch iterations of a run whose rows and initial centroids are linearly independent, so that every
    centroid tells which rows it was given in which order.  Returns what is wrong, or None."""
    m = j.meta; n, k, X, C0, metric, b = m["n"], m["k"], m["X"], m["C0"], m["metric"], m["b"]
    W = np.zeros((k, n + 1)); W[:, n] = 1
    A = np.full(n, -1); C = C0
    for t, r in enumerate(j.res, 1):
        if r.error: return "error: " + r.error
        C2 = r.C()
        W2 = np.concatenate([C2[:, b:b + n], C2[:, b + n:b + n + 1]], axis=1)
        # every centroid is what its weights say
        back = W2[:, :n] @ X[:, :b] + W2[:, n:]*C0[:, :b]
        if np.abs(back - C2[:, :b]).max() > 1e-8*(1 + np.abs(X).max()): return "iteration %d: a centroid is not the combination of samples its coefficients tell" % t
        if np.abs(W2.sum(1) - 1).max() > 1e-9: return "iteration %d: the weights of the samples in a centroid add up to %.17g" % (t, W2.sum(1)[np.argmax(np.abs(W2.sum(1) - 1))])
        D = oracle.dist(X, C, metric); tol = oracle.abs_tol(X, metric) + 1e-9*D.min(1)
        close = D <= (D.min(1) + tol)[:, None]
        sols = []
        for c in range(k):
            s = updates(W[c], W2[c], n, n)
            s = [x for x in s if all(close[i, c] for i in x[0])]
            if not s:
                raw = updates(W[c], W2[c], n, n)
                if raw: i = [i for i in raw[0][0] if not close[i, c]][0]; return "iteration %d: sample %d was given to centroid %d at distance %.17g, centroid %d is at %.17g" % (t, i, c, D[i, c], int(D[i].argmin()), D[i].min())
                return "iteration %d: centroid %d did not move by one over the number of its rows for each row given to it (coefficients %s became %s)" % (t, c, np.round(W[c], 5)[:14], np.round(W2[c], 5)[:14])
            sols.append(s)
        good, why = [], None
        for combo in itertools.islice(itertools.product(*sols), 200):
            rows = [i for s, v in combo for i in s]
            if len(set(rows)) != len(rows): why = "a row was given to two centroids"; continue
            B = A.copy()
            for c, (s, v) in enumerate(combo): B[list(s)] = c
            bad = [(c, v) for c, (s, v) in enumerate(combo) if v is not None and (B == c).sum() != v]
            if bad: why = "centroid %d moved by 1/%d per row with %d rows in its cluster" % (bad[0][0], bad[0][1], (B == bad[0][0]).sum()); continue
            good.append((B, len(rows), combo))
        if not good: return "iteration %d: %s" % (t, why)
        if len(set(tuple(g[0]) for g in good)) > 1: ck.count("ambiguous_iterations"); return None
        A, drawn, combo = good[0]
        ck.count("iterations_decoded"); ck.count("row_updates_decoded", drawn)
        ck.case(("decode", j.tag, t, r.digest()), drawn > 0, dict(case=j.tag, n=n, k=k, iteration=t, rows=[list(s) for s, v in combo]))
        W, C = W2, C2
    return None

def go():
    ck = Check("P12", "mini-batch runs on samples and initial centroids that are linearly independent, so that the weights in every centroid of every iteration (runs with limits 1..T) reveal which rows were "
               "sampled, in which order, for which centroid and with which step: each iteration is decoded and judged; sampled fractions of large runs; final assignments of general runs; the stop rule; "
               "distinct = distinct iteration states with updates")
    rng = ck.rng
    binary = build("engines")
    jobs = []
    for c in range(ck.scale(500, 9000)):
        n = int(rng.integers(4, 44)); k = int(rng.integers(2, min(n, 6) + 1)); b = int(rng.integers(1, 4)); th = int(rng.choice([1, 2, 3, 4, 5, 8]))
        B = gen.dataset(rng, str(rng.choice(["blobs", "uniform", "int", "line", "unbal", "offset" if c % 5 == 0 else "blobs"])), n, b)
        if np.abs(B).max() > 1e3: B = B - B.mean(0)
        X = np.zeros((n, b + n + 1)); X[:, :b] = B; X[:, b:b + n] = np.eye(n)
        C0 = np.zeros((k, b + n + 1)); C0[:, :b] = gen.centers(rng, B, k, "near"); C0[:, b + n] = 1
        metric = str(rng.choice(["eucl", "sqeucl", "cos", "taxi"]))
        T = int(rng.integers(1, 7)); batch = int(rng.integers(1, n + 1))
        src = "file" if rng.random() < .4 else "mem"
        base = dict(engine="mb", data=X, n=n, d=X.shape[1], k=k, threads=th, init="none", centers=C0, dist=metric, src=src, batch=batch)
        jobs.append(Job([dict(base, iters=t) for t in range(1, T + 1)], tag="decode %s batch %d" % (metric, batch), meta=dict(n=n, k=k, X=X, C0=C0, metric=metric, b=b)))
    nd = len(jobs)
    # how many rows are sampled: two clusters, one of them out of reach; the first iteration leaves (1-1/m)^m of the initial centroid
    for c in range(ck.scale(24, 160)):
        n = int(rng.choice([4000, 9001, 20000])); th = int(rng.choice([1, 2, 3, 4])); batch = int(n*rng.choice([.02, .1, .3, .7, 1.0]))
        X = np.zeros((n, 3)); X[:, 0] = rng.normal(0, 1, n); X[:, 2] = rng.integers(1, 5, n)
        C0 = np.array([[0, 1., 0], [1e6, 1e6, 0]])
        jobs.append(Job([dict(engine="mb", data=X, n=n, d=3, k=2, threads=th, init="none", centers=C0, dist="eucl", batch=batch, iters=1)], tag="fraction", meta=dict(n=n, th=th, batch=batch)))
    ns = len(jobs)
    # final states and the stop rule
    for c in range(ck.scale(700, 9000)):
        import draw
        r, X, kind = draw.run(rng, c, "mb", heavy=c % 4 == 0)
        r["iters"] = int(rng.choice([1, 2, 3, 6])); r.pop("tol", None)
        runs = [dict(r, iters=t) for t in range(1, r["iters"] + 1)]
        if c % 3 == 0: runs.append(dict(r, tol=float(rng.choice([.05, .5, 2, 20])*X.std()), iters=len(runs)))
        jobs.append(Job(runs, tag="final %s %s %s" % (r["init"], r["dist"], kind), meta=dict(X=X, stop=c % 3 == 0), timeout=120))
    run_jobs(binary, jobs)
    for j in jobs[:nd]:
        if not ck.check_job(j, "decode"): continue
        why = decode(ck, j)
        if why: ck.violation("mini-batch update", "%s n=%d k=%d threads=%d: %s" % (j.tag, j.meta["n"], j.meta["k"], j.runs[0]["threads"], why), job=j)
    for j in jobs[nd:ns]:
        if not ck.check_job(j, "fraction"): continue
        m, r = j.meta, j.res[0]
        p = min(1.0, m["batch"]/m["n"]); left = r.C()[0, 1]
        # (1-1/q)^q is increasing in q: find the number of rows
        lo, hi = 1, m["n"] + 1
        while lo < hi:
            q = (lo + hi)//2
            if (1 - 1/q)**q < left*(1 - 1e-12): lo = q + 1
            else: hi = q
        q = lo; exact = q <= m["n"] and abs((1 - 1/q)**q - left) < 1e-11
        ck.case(("fraction", m["n"], m["th"], m["batch"], q), True, dict(n=m["n"], threads=m["th"], batch=m["batch"], sampled=q))
        ck.count("rows_sampled_in_large_runs", q)
        if not exact: ck.violation("mini-batch update", "n=%d batch=%d: the initial centroid has weight %.17g after one iteration, which no number of rows gives" % (m["n"], m["batch"], left), job=j)
        elif abs(q - m["n"]*p) > 7*np.sqrt(m["th"]*m["n"]*p*(1 - p)) + 2: ck.violation("mini-batch fraction", "n=%d batch=%d threads=%d: %d rows were sampled" % (m["n"], m["batch"], m["th"], q), job=j)
    for j in jobs[ns:]:
        if not ck.check_job(j, "final"): continue
        q, X = j.runs[0], j.meta["X"]; why = None; states = j.res[:-1] if j.meta["stop"] else j.res
        for t, r in enumerate(j.res, 1):
            why = oracle.wellformed(r, q["n"], q["d"], q["k"], q["k"], j.runs[t-1]["iters"])
            if why is None and np.isfinite(r.cents).all():
                bad, D = oracle.nearest_violations(X, r.C(), r.a, q["dist"])
                if len(bad): why = "sample %d is reported in cluster %d at distance %.17g, the nearest is at %.17g (%d such samples)" % (bad[0], r.a[bad[0]], D[bad[0], r.a[bad[0]]], D[bad[0]].min(), len(bad))
            ck.case(("final", j.tag, t, r.digest()), len(set(r.a)) > 1)
            if why: break
        if why is None and j.meta["stop"]:
            # states[t] is the state after t+1 iterations: the limited run is the first whose centroids moved by less than the tolerance
            r, tol = j.res[-1], j.runs[-1]["tol"]; mv = [np.sqrt(((states[t].cents - states[t-1].cents)**2).sum()) for t in range(1, len(states))]
            if len(mv) and all(abs(x - tol) > 1e-6*tol for x in mv) and np.isfinite(mv).all():
                first = next((t for t, x in enumerate(mv, 1) if x < tol), len(states) - 1)
                start = [s for s in states[:1]]
                if q["init"] == "none": m0 = np.sqrt(((states[0].C() - q["centers"])**2).sum()); early = m0 < tol; amb = abs(m0 - tol) < 1e-6*tol
                else: early = amb = None
                ok = r.cents.tobytes() == states[first].cents.tobytes() or (early is None or early or amb) and r.cents.tobytes() == states[0].cents.tobytes()
                if early and not amb: ok = r.cents.tobytes() == states[0].cents.tobytes()
                ck.count("stops_judged")
                if not ok: why = "with tolerance %g the run did not stop at the first iteration that moved the centroids by less (moves %s)" % (tol, mv[:6])
        if why: ck.violation("mini-batch result", "%s n=%d k=%d threads=%d: %s" % (j.tag, q["n"], q["k"], q["threads"], why), job=j)
    ck.finish()

if __name__ == "__main__": main(go)
