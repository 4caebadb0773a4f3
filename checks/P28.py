from knorv import *
import gen, draw

INITS = ["none", "forgy", "random", "kmeanspp"]
OKINIT = {"medoid": ["forgy"], "fcm": ["forgy", "none"], "hclust": ["forgy", "none"], "xmeans": ["forgy", "none"], "gmeans": ["forgy", "none"]}
DISTS = ["eucl", "sqeucl", "cos", "taxi"]
OKDIST = {"omp": ["eucl", "cos"], "ompmin": ["eucl", "cos"]}
BOGUS = ["bogus", "", "Forgy", "forgy2", "kmeans++", "FORGY", "euc", "euclidean", "Eucl", "eucl0", "cosine", "0", "1", "manhattan", "rand", "kmeans", "nonee", "l2", "tax", "sqeuc"]

def garble(rng, words):
    """Words close to the valid ones."""
    w = list(str(rng.choice(words))); m = rng.integers(0, 5)
    if m == 0: w[rng.integers(len(w))] = chr(rng.integers(97, 123))
    elif m == 1: del w[rng.integers(len(w))]
    elif m == 2: w.insert(rng.integers(len(w) + 1), chr(rng.integers(97, 123)))
    elif m == 3: w = [c.upper() for c in w]
    else: return str(rng.choice(BOGUS))
    return "".join(w)

def go():
    ck = Check("P28", "random runs of every engine with one parameter made invalid (initialisation, metric, number of clusters, input file) and with the valid values next to it; an invalid "
               "value has to end the call by an exception, abort or error exit without a clustering, a valid one has to give a well-formed one; distinct = distinct (engine, parameter, value, outcome)")
    rng = ck.rng
    binary = build("engines")
    jobs = []
    d0 = tmpdir()
    def add(r, X, valid, what, val): jobs.append(Job([r], timeout=25, tag="%s %s=%s" % (r["engine"], what, val), meta=dict(valid=valid, what=what, val=str(val), X=X)))
    for rep in range(ck.scale(9, 90)):
        for i, eng in enumerate(draw.ALL):
            def base(src="mem"):
                r, X, kind = draw.run(rng, rep*12 + i, eng, small=True, src=src, iters=int(rng.integers(1, 4)))
                if eng == "kpp": r["iters"] = 0
                r.pop("src", 0)
                if src == "file": r["src"] = "file"
                return r, X
            # initialisation
            if eng != "kpp":
                for v in INITS:
                    r, X = base(); nc = 2 if eng in draw.HIER else r["k"]
                    r["init"] = v; r["centers"] = X[rng.integers(0, len(X), nc)].copy(); r["ncent"] = nc
                    if v == "kmeanspp" and eng != "skmeans" and len(np.unique(X, axis=0)) < 2: continue
                    add(r, X, v in OKINIT.get(eng, INITS), "init", v)
                for _ in range(2):
                    v = garble(rng, INITS)
                    if v in INITS: continue
                    r, X = base(); r["init"] = v; add(r, X, False, "init", v)
            if eng not in ("skmeans",):
                for v in DISTS:
                    if eng in draw.HIER and v != "eucl" and eng != "hclust": continue
                    r, X = base(); r["dist"] = v; add(r, X, v in OKDIST.get(eng, DISTS), "dist", v)
                for _ in range(2):
                    v = garble(rng, DISTS)
                    if v in DISTS: continue
                    r, X = base(); r["dist"] = v; add(r, X, False, "dist", v)
            # number of clusters
            for v in (0, 1, 2, "n-1", "n", "n+1", "2n"):
                r, X = base(); n = r["n"]
                k = {"n-1": n - 1, "n": n, "n+1": n + 1, "2n": 2*n}.get(v, v)
                if eng in ("omp", "ompmin"): valid = 2 <= k <= n
                elif k == 0: valid = False
                elif isinstance(v, str) or k == 1 and eng not in ("kmeans", "skmeans", "medoid", "fcm"): continue
                elif k > n: continue
                else: valid = True
                if k < 0: continue
                r["k"] = k
                if eng not in draw.HIER and "centers" in r: r["centers"] = gen.centers(rng, X, max(1, k)); r["ncent"] = max(1, k)
                add(r, X, valid, "k", v if not isinstance(v, str) else v)
            # input files
            if eng in ("omp", "ompmin"): continue
            r, X = base("file"); add(r, X, True, "file", "right")
            r, X = base("file"); r["data"] = os.path.join(d0, "no", "such") if rng.random() < .5 else os.path.join(d0, "nosuch.bin"); add(r, X, False, "file", "missing")
            for v in ("one value short", "one row short", "half", "empty"):
                r, X = base("file"); x = X.reshape(-1)
                cut = {"one value short": x[:-1], "one row short": x[:-X.shape[1]], "half": x[:len(x)//2], "empty": x[:0]}[v]
                r["data"] = np.ascontiguousarray(cut); add(r, X, False, "file", v)
    run_jobs(binary, jobs)
    stat = {}
    for j in jobs:
        m = j.meta; r = j.runs[0]; eng = r["engine"]
        key = "%s %s" % (eng, m["what"])
        head = "%s: n=%d k=%d threads=%d init=%s dist=%s: " % (j.tag, r["n"], r["k"], r["threads"], r["init"], r["dist"])
        res = j.res[0] if j.res else None
        how = "exception" if res is not None and res.error.startswith("EXCEPTION") else "clustering" if res is not None else "%s %s" % (j.how, j.code)
        if j.how == "unknown": ck.skip("not run again after a time-out"); continue
        st = stat.setdefault("valid" if m["valid"] else "invalid", {}); st[how] = st.get(how, 0) + 1
        ck.case((eng, m["what"], m["val"], how), True, dict(case=j.tag, outcome=how))
        if m["valid"]:
            if how == "clustering" and not res.error:
                hier = eng in draw.HIER
                bad = oracle_wf(res, r, hier)
                if bad: ck.violation(key + " valid form", head + bad, job=j)
            elif res is not None: ck.violation(key + " valid refused", head + "the valid value was refused: " + res.error, job=j)
            else: ck.check_job(j, key + " valid refused")
        else:
            if how == "clustering": ck.violation(key + " invalid accepted", head + "the call returned a clustering with %d clusters" % res.k, job=j)
            elif how == "exception" or j.how == "exit" and j.code not in (0, 86) or j.how == "signal" and j.code == 6: pass
            elif j.how == "timeout": ck.violation(key + " invalid hangs", head + "the call did not end", job=j)
            else: ck.violation(key + " invalid crash", head + "the call ended with %s instead of an error" % how, job=j)
    ck.cov["outcomes"] = stat
    ck.finish()

def oracle_wf(res, r, hier):
    import oracle
    return oracle.wellformed(res, r["n"], r["d"], 1 if hier else r["k"], r["k"], max(r["iters"], 1) if r["engine"] != "kpp" else 10**9, hier)

if __name__ == "__main__": main(go)
