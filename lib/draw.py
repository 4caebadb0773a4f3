"""Random runs of every algorithm, with parameters valid for it."""
import numpy as np
import gen

ALL = ["kmeans", "prune", "omp", "ompmin", "skmeans", "medoid", "fcm", "hclust", "xmeans", "gmeans", "mb", "kpp"]
HIER = ("hclust", "xmeans", "gmeans")

def run(rng, i, eng, kind=None, heavy=True, small=False, src=None, iters=None):
    """One run of an engine: (run dict, data)."""
    casc = kind is None and eng in HIER and not small and rng.random() < .4 or kind == "cascade"
    kind = kind or str(rng.choice(gen.KINDS))
    lo = 2 if eng in ("prune", "omp", "ompmin", "mb", "kpp") + HIER else 1
    n, d, k, th = gen.config(rng, i, lo, heavy)
    if small: n, d = int(rng.integers(2, 120)), int(rng.integers(1, 8)); k = gen.pick_k(rng, n, lo); th = gen.pick_threads(rng, n)
    n = max(n, lo)
    if eng == "medoid" and n > 3000: n = 3000
    if eng in HIER:
        n = max(n, 4)
        k = int(rng.choice([2, 3, 4, 5, 7, 8, 9, 16, 20, 32]))
        if n < 8: k = min(k, 4)
    if eng in ("omp", "ompmin"): k = max(2, min(k, n))
    k = min(k, n) if eng != "kmeans" or rng.random() > .05 else k
    k = max(k, lo)
    if casc: X = gen.cascade(rng, min(d, 8)); n, d = X.shape; kind = "cascade"; k = int(rng.choice([4, 7, 16, 32, 64]))
    else: X = gen.dataset(rng, kind, n, d)
    r = dict(engine=eng, data=X, n=n, d=d, k=k, threads=th)
    dists = {"omp": ["eucl", "cos"], "ompmin": ["eucl", "cos"], "skmeans": ["cos"], "hclust": ["eucl", "cos", "taxi", "sqeucl"],
             "xmeans": ["eucl"], "gmeans": ["eucl"]}.get(eng, ["eucl", "sqeucl", "cos", "taxi"])
    r["dist"] = str(rng.choice(dists))
    inits = {"medoid": ["forgy"], "fcm": ["forgy", "none"], "hclust": ["forgy", "none"], "xmeans": ["forgy", "none"],
             "gmeans": ["forgy", "none"], "kpp": ["kmeanspp"]}.get(eng, ["none", "forgy", "kmeanspp", "random"])
    r["init"] = str(rng.choice(inits))
    if r["init"] == "none":
        nc = 2 if eng in HIER else k
        r["centers"] = gen.centers(rng, X, nc, "rows" if eng in HIER else None); r["ncent"] = nc
    r["iters"] = int(rng.choice([1, 2, 3, 5, 10, 40])) if iters is None else iters
    if rng.random() < .3: r["tol"] = float(rng.choice([0, .01, .1, .5]))
    if eng == "medoid": r["rate"] = float(rng.choice([.2, .3, .5, 1.0])); r["iters"] = min(r["iters"], 5)
    if eng == "fcm": r["fuzz"] = int(rng.choice([2, 3, 4])); r["iters"] = min(r["iters"], 10)
    if eng in HIER: r["minsz"] = int(rng.choice([1, 2, 3, 5, 10])); r["iters"] = min(r["iters"], 10)
    if eng == "gmeans": r["strict"] = int(rng.integers(0, 5))
    if eng == "mb": r["batch"] = int(rng.integers(1, n + 1))
    if eng == "kpp": r["nstart"] = int(rng.integers(1, 5)); r["iters"] = 0
    s = src or str(rng.choice(["mem", "file"]))
    if s == "file" and eng not in ("omp", "ompmin"): r["src"] = "file"
    if src is None and eng in ("kmeans", "prune") and rng.random() < .12: r["src"] = "numa"
    if src is None and "src" not in r and eng not in ("omp", "ompmin", "kpp") and rng.random() < .1: r["src"] = "both"
    return r, X, kind
