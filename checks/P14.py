from knorv import *
import gen, oracle

def go():
    ck = Check("P14", "random data sets, metrics, k, threads and sampling rates; k-medoids is run with iteration limits 0..T and every state is judged: centres are samples, each sample is with a nearest centre, a replaced "
               "centre's successor is a member with a smaller summed distance (with rate 1 the smallest of all members), the total never increases and the run stops by the rule; "
               "the share of clusters whose best member was found is compared with the sampling rate; distinct = distinct iteration states with at least two non-empty clusters")
    rng = ck.rng
    binary = build("engines")
    jobs = []
    for c in range(ck.scale(1100, 14000)):
        kind = gen.KINDS[c % len(gen.KINDS)] if c < 2*len(gen.KINDS) else str(rng.choice(gen.KINDS))
        n, d, k, th = gen.config(rng, c, 1, heavy=False)
        if n > 600: n = int(rng.integers(300, 900))
        if c % 5 == 0: d = 1
        X = gen.dataset(rng, kind, n, d)
        if c % 4 == 1: X = np.round(X)
        k = min(k, n)
        rate = float(rng.choice([.05, .2, .35, .6, 1.0], p=[.05, .15, .15, .15, .5]))
        metric = str(rng.choice(["eucl", "sqeucl", "cos", "taxi"]))
        T = int(rng.integers(2, 6))
        base = dict(engine="medoid", data=X, n=n, d=d, k=k, threads=th, init="forgy", dist=metric, src="file" if rng.random() < .4 else "mem", rate=rate)
        runs = [dict(base, iters=t) for t in range(0, T + 1)]
        tol = float(rng.choice([0, .02, .1, .4]))
        if c % 2: runs.append(dict(base, iters=T, tol=tol))
        jobs.append(Job(runs, tag="%s rate %g %s" % (metric, rate, kind), meta=dict(exact=metric in ("taxi", "sqeucl") and np.abs(X).max() < 1e5 and np.array_equal(X, np.round(X)), X=X, T=T, metric=metric, rate=rate, tol=tol if c % 2 else None)))
    run_jobs(binary, jobs)
    replaced = kept = 0; found = {}
    for j in jobs:
        m = j.meta; X, T, metric, rate = m["X"], m["T"], m["metric"], m["rate"]; n, d = X.shape; k = j.runs[0]["k"]
        if not ck.check_job(j, "medoid " + metric): continue
        why, prev, stop = None, None, None
        P = oracle.dist(X, X, metric); np.fill_diagonal(P, 0 if metric != "cos" else np.diag(P))
        eps = oracle.abs_tol(X, metric)
        if metric == "cos": nz = (X != 0).any(1)
        total = None
        for t in range(0, T + 1):
            r = j.res[t]; C = r.C()
            why = oracle.wellformed(r, n, d, k, k, t)
            if why: break
            same = (X[None, :, :] == C[:, None, :]).all(2) if n*d*k < 3e7 else np.array([(X == c).all(1) for c in C])
            for c in range(k):
                if not same[c].any(): why = "centre %d %s is not a sample" % (c, C[c][:6]); break
                if r.counts[c] and not same[c][r.a == c].any():
                    own = np.nonzero(same[c])[0]     # samples equal to the centre: they may only be elsewhere in a tie
                    D = oracle.dist(X[own[:1]], C, metric)[0]
                    if D[r.a[own[0]]] > D[c] + eps: why = "centre %d is sample %d, which is in cluster %d" % (c, own[0], r.a[own[0]]); break
            if why: break
            bad, D = oracle.nearest_violations(X, C, r.a, metric)
            if len(bad): i = bad[0]; why = "iteration %d: sample %d is with centre %d at distance %.17g, centre %d is at %.17g" % (t, i, r.a[i], D[i, r.a[i]], int(D[i].argmin()), D[i].min()); break
            new = float(D[np.arange(n), r.a].sum())
            if stop is not None:
                if not r.same(prev): why = "the result changed after convergence at iteration %d" % stop; break
            elif prev is not None:
                if r.iters != t: why = "it reports %d iterations after %d" % (r.iters, t); break
                if new > total + n*eps + 1e-9*abs(total) + ((~nz).sum() if metric == "cos" else 0): why = "iteration %d raised the total distance from %.17g to %.17g" % (t, total, new); break
                C0 = prev.C()
                for c in range(k):
                    mem = np.nonzero(prev.a == c)[0]
                    if C0[c].tobytes() == C[c].tobytes() and not len(mem): continue
                    cur = float(oracle.dist(X[mem], C0[c][None], metric).sum()) if len(mem) else 0
                    E = P[np.ix_(mem, mem)]
                    E = E.sum(1) - np.diag(E) if len(mem) else np.zeros(0)
                    slack = 1e-9*abs(cur) + (len(mem) + 1)*eps
                    if metric == "cos" and len(mem) and not nz[mem].all(): slack += 1.0 + 1e-9   # a zero vector is at distance 1 from itself
                    if m["exact"]: slack = 0.0       # sums of whole numbers: a medoid that is only as good must not replace
                    changed = C0[c].tobytes() != C[c].tobytes()
                    if changed:
                        replaced += 1
                        cand = mem[same[c][mem]]
                        if not len(cand): why = "iteration %d: the new centre %d is not a member of its cluster" % (t, c); break
                        e = float(E[same[c][mem]].min())
                        if not e < cur + slack: why = "iteration %d: centre %d with summed distance %.17g replaced one with %.17g" % (t, c, e, cur); break
                        if rate == 1.0 and e > E.min() + slack: why = "iteration %d: the new centre %d has summed distance %.17g, member %d has %.17g" % (t, c, e, mem[E.argmin()], E.min()); break
                    else:
                        kept += 1
                        if rate == 1.0 and E.min() < cur - slack: why = "iteration %d: centre %d with summed distance %.17g was kept, member %d has %.17g" % (t, c, cur, mem[E.argmin()], E.min()); break
                    if rate < 1 and len(mem) > 3:
                        o = np.sort(E)
                        if o[0] < cur - slack and o[1] > o[0] + slack:
                            q = max(.2, rate); f = found.setdefault(q, [0, 0]); f[1] += 1
                            if changed and same[c][mem[E.argmin()]]: f[0] += 1
                if why: break
                if int((r.a != prev.a).sum()) == 0: stop = t
            ck.case((j.tag, t, r.digest()), len(set(r.a)) > 1, dict(case=j.tag, n=n, d=d, k=k, threads=j.runs[0]["threads"], iteration=t))
            prev, total = r, new
        if why is None and m["tol"] is not None:
            at = T
            for t in range(1, T + 1):
                ch = int((j.res[t].a != j.res[t-1].a).sum())
                if ch == 0 or ch/n <= m["tol"]: at = t; break
            r = j.res[T + 1]; ck.count("stops_judged")
            if not (r.iters == min(at, j.res[at].iters) and r.cents.tobytes() == j.res[at].cents.tobytes() and np.array_equal(r.a, j.res[at].a)): why = "with tolerance %g it ran %d iterations instead of %d" % (m["tol"], r.iters, at)
        if why: ck.violation("medoid " + metric, "%s n=%d d=%d k=%d threads=%d: %s" % (j.tag, n, d, k, j.runs[0]["threads"], why), job=j)
    for q, (h, N) in sorted(found.items()):
        # the draws of one thread are the same in every run, so the share is not that of independent draws: wide limits
        if N > 300 and abs(h/N - q) > .12: ck.violation("medoid sampling rate", "with rate %g the best member was a candidate in %d of %d clusters" % (q, h, N))
    ck.cov.update(runs=sum(len(j.res) for j in jobs), replaced_centres=replaced, kept_centres=kept, best_member_found={str(q): "%d/%d" % tuple(v) for q, v in found.items()})
    ck.finish()

if __name__ == "__main__": main(go)
