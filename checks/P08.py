from mpi import *
import gen, oracle

KINDS = ["blobs", "uniform", "blobs", "aniso", "negative", "unbal", "outlier", "sorted", "tiny", "huge", "int", "lattice", "dups", "constcol"]
EXACT = ["int", "binary", "lattice"]

def ambiguous(traj, X, metric):
    """Does the single-process run meet a sample that is equally far from two centroids, up to rounding?"""
    for t in range(len(traj) - 1):
        p = traj[t]; C = p.C()
        if len(C) < 2: return False
        D = oracle.dist(X, C, metric)
        if t and (p.counts == 0).any() and metric == "cos": return True    # the direction of an emptied cluster's centroid is rounding
        if (oracle.margin(D) <= 100*oracle.abs_tol(X, metric)).any(): return True
    return False

def traces(r):
    """What the processes' records disagree on, or None."""
    ps = sorted(r.procs, key=lambda p: p.rank); q = r.run; n, d, k = q["n"], q["d"], q["k"]
    if [p.rank for p in ps] != list(range(r.np)): return "the processes report ranks %s" % [p.rank for p in ps]
    errs = [p.error for p in ps if p.error]
    if errs: return "error: " + errs[0]
    root = ps[0]
    data = np.concatenate([p.data for p in ps])
    if sum(p.ln for p in ps) != n: return "the processes hold %d samples of %d" % (sum(p.ln for p in ps), n)
    if data.shape != q["data"].shape or data.tobytes() != np.ascontiguousarray(q["data"]).tobytes():
        return "the processes together do not hold every sample once, in order"
    if (root.nrow, root.ncol, root.k) != (n, d, k): return "shape %dx%d, %d clusters returned" % (root.nrow, root.ncol, root.k)
    if len(root.ra) != n or len(root.rc) != k or len(root.rm) != k*d: return "the result has the wrong size"
    loc = np.concatenate([p.a for p in ps])
    if not np.array_equal(loc, root.ra): return "%d returned assignments are not those of the process that handled the sample" % (loc != root.ra).sum()
    for p in ps:
        if p.means.tobytes() != root.means.tobytes(): return "process %d ends with other centroids than process 0" % p.rank
        if q["iters"] and not np.array_equal(p.memb, root.memb): return "process %d ends with other cluster sizes than process 0" % p.rank
        if len(p.ev) != len(root.ev): return "process %d took part in %d collective operations, process 0 in %d" % (p.rank, len(p.ev), len(root.ev))
        for i in range(len(p.ev)):
            if not np.array_equal(p.ev[i][:2], root.ev[i][:2]): return "process %d: collective operation %d is of another kind or size than on process 0" % (p.rank, i)
            if p.ev[i][3] != root.ev[i][3]: return "process %d: collective operation %d has another result than on process 0" % (p.rank, i)
    if root.rm.tobytes() != root.means.tobytes(): return "the returned centroids are not the final ones"
    if q["iters"]:
        if (root.ra >= k).any(): return "sample %d is in no cluster" % int(np.argmax(root.ra >= k))
        cnt = np.bincount(root.ra, minlength=k)
        if not np.array_equal(cnt, root.rc): return "the sizes %s are not those of the assignments, %s" % (root.rc[:6], cnt[:6])
        if root.iters > q["iters"]: return "%d iterations, at most %d asked" % (root.iters, q["iters"])
    return None

def go():
    ck = Check("P08", "each case runs one configuration single-process and distributed over several layouts (processes x threads, pruned and not, with delays injected "
               "around collective operations and worker synchronisation), compares all results, and checks what every process recorded: the samples it held, its assignments "
               "and centroids, and the kind, size and result of every collective operation; distinct = distinct clusterings found by at least two layouts")
    rng = ck.rng
    with cf.ThreadPoolExecutor(2) as ex:
        fa, fb = ex.submit(build, "engines"), ex.submit(build_dist)
        eng, binary = fa.result(), fb.result()
    cases, drs = [], []
    for c in range(ck.scale(300, 4000)):
        exact = rng.random() < .3
        q, kind, lay = dist_case(rng, c, EXACT if exact else KINDS)
        n, X, init = q["n"], q["data"], q["init"]
        if exact:
            X = q["data"] = np.round(X)
            if "centers" in q: q["centers"] = np.round(q["centers"])
        if init == "random": lay.insert(0, ("dkm", 1, 1))
        mine = [layout(rng, q, *l) for l in lay]
        cases.append(dict(q=q, X=X, exact=exact, kind=kind, lay=mine)); drs += mine
    run_dist(binary, drs, batch=40)
    # random partitions are drawn from another sequence than a single process draws from: continue from its centroids
    fails = 0
    part = [DRun(dict(c["q"], engine="dkm", threads=1, iters=0), 1) for c in cases if c["q"]["init"] == "random"]
    run_dist(binary, part, batch=40)
    it = iter(part); jobs = []
    for c in cases:
        q = dict(c["q"], engine="kmeans", threads=1)
        if q["init"] == "random":
            p = next(it); c["part"] = p
            if p.fail or p.unknown: ck.violation("start", "a run over one process failed: %s" % p.fail, data=p.spec()); jobs.append(None); continue
            q.update(init="none", centers=p.procs[0].rm.reshape(q["k"], q["d"]), ncent=q["k"])
        jobs.append(Job([dict(q, iters=t) for t in range(0, q["iters"] + 1)]))
    run_jobs(eng, [j for j in jobs if j])
    comp = bit = colls = 0
    for c, j in zip(cases, jobs):
        q, X = c["q"], c["X"]; n, k = q["n"], q["k"]
        tag = "%s %s %s n=%d d=%d k=%d iters=%d" % (q["init"], q["dist"], c["kind"], n, q["d"], k, q["iters"])
        if j is None: continue
        if not j.ok() or any(r.error for r in j.res): ck.skip("the single-process run failed (P01 judges it)"); continue
        ref = j.res[-1]; amb = None
        if q["init"] == "random":
            p = c["part"].procs[0]; M, cnt = oracle.means(X, p.ra, k)
            if (p.ra >= k).any(): ck.violation("partition", tag + ": a sample is in no part", data=c["part"].spec()); continue
            u = cnt > 0
            if (np.abs(M - p.rm.reshape(k, -1))[u] > oracle.mean_tol(X, 10)).any(): ck.violation("partition", tag + ": the initial centroids are not the means of the partition", data=c["part"].spec()); continue
        for r in c["lay"]:
            what = "%s: %s" % (tag, r.tag)
            if r.unknown: ck.skip("not run: too many runs failed"); continue
            if r.fail: ck.violation("run", what + ": " + r.fail, job=None, data=r.spec()); break
            bad = traces(r)
            if bad: ck.violation("trace", what + ": " + bad, data=r.spec()); break
            root = min(r.procs, key=lambda p: p.rank); colls += sum(len(p.ev) for p in r.procs)
            comp += 1
            ck.count("processes_%d" % r.np)
            ck.case((tag, ref.digest()), len(set(ref.a)) > 1, dict(case=tag, layout=r.tag, iterations=int(root.iters), collectives=len(root.ev)))
            why = None
            a0 = ref.a if q["init"] != "random" or q["iters"] else c["part"].procs[0].ra
            used = np.bincount(ref.a[ref.a < k], minlength=k) > 0 if q["iters"] else np.ones(k, bool)
            off = np.abs(root.rm.reshape(k, -1) - ref.C())[used]
            if not np.array_equal(root.ra, a0): why = "%d samples are assigned differently" % (root.ra != a0).sum()
            elif root.iters != ref.iters: why = "%d iterations, %d in a single process" % (root.iters, ref.iters)
            elif q["iters"] and not np.array_equal(root.rc, ref.counts): why = "the sizes differ"
            elif (off > oracle.mean_tol(X, 50)).any(): why = "the centroids differ by up to %g" % off.max()
            if not why and c["exact"] and r.run["engine"] == "dkm":
                if root.rm.tobytes() == ref.cents.tobytes(): bit += 1
                elif q["init"] != "random": why = "the centroids differ in rounding although every sum is exact"
            if why and amb is None: amb = ambiguous(j.res, X, q["dist"])
            if why and amb: ck.skip("a sample is equally far from two centroids, up to rounding"); continue
            if why: ck.violation("result", what + ": " + why, data=dict(r.spec(), single=dict(iters=int(ref.iters), sizes=ref.counts, assigned=ref.a[:50]), distributed=dict(iters=int(root.iters), sizes=root.rc, assigned=root.ra[:50]))); break
    ck.cov.update(layouts_compared=comp, bit_identical=bit, collective_operations_checked=colls)
    ck.finish()

if __name__ == "__main__": main(go)
