"""Generators of data sets, centroids and parameters."""
import numpy as np

KINDS = ["blobs", "uniform", "int", "dups", "constcol", "near0", "offset", "tiny", "huge", "outlier", "line",
         "sorted", "binary", "lattice", "aniso", "negative", "allsame", "unbal", "runs", "prefix"]

def dataset(rng, kind, n, d):
    if kind == "blobs":
        g = int(rng.integers(2, 9)); c = rng.normal(0, 10, (g, d))
        X = c[rng.integers(0, g, n)] + rng.normal(0, 1, (n, d))
    elif kind == "uniform": X = rng.uniform(-1, 1, (n, d))
    elif kind == "int": X = rng.integers(-20, 21, (n, d)).astype(float)
    elif kind == "dups":
        u = rng.normal(0, 3, (max(1, n//5), d)); X = u[rng.integers(0, len(u), n)]
    elif kind == "constcol":
        X = rng.normal(0, 2, (n, d)); X[:, rng.integers(0, d)] = float(rng.integers(-3, 4))
    elif kind == "near0": X = rng.normal(0, 1, (n, d))*(rng.random((n, d)) < .5)*1e-3
    elif kind == "offset": X = rng.normal(0, 1, (n, d)) + rng.choice([1e4, -1e5, 1e6])
    elif kind == "tiny": X = rng.normal(0, 1e-7, (n, d))
    elif kind == "huge": X = rng.normal(0, 1e9, (n, d))
    elif kind == "outlier":
        X = rng.normal(0, 1, (n, d)); X[rng.integers(0, n, max(1, n//50))] *= 1e4
    elif kind == "line":
        X = np.outer(rng.uniform(-5, 5, n), rng.normal(0, 1, d)) + rng.normal(0, 1e-3, (n, d))
    elif kind == "sorted":
        X = rng.normal(0, 4, (n, d)); X = X[np.argsort(X[:, 0])]
    elif kind == "binary": X = rng.integers(0, 2, (n, d)).astype(float)
    elif kind == "lattice":
        s = max(2, int(round(n**(1/min(d, 3))))); X = np.zeros((n, d))
        for j in range(min(d, 3)): X[:, j] = (np.arange(n)//s**j) % s
    elif kind == "aniso": X = rng.normal(0, 1, (n, d))*np.logspace(-3, 3, d)[rng.permutation(d)]
    elif kind == "negative": X = -np.abs(rng.normal(3, 2, (n, d)))
    elif kind == "allsame": X = np.tile(rng.normal(0, 2, d), (n, 1))
    elif kind == "unbal":
        X = rng.normal(0, 1, (n, d)); m = max(1, n//20); X[:m] = rng.normal(30, .1, (m, d)); X = X[rng.permutation(n)]
    elif kind == "runs":               # runs of equal rows
        u = rng.normal(0, 3, (max(2, n//4), d)); X = u[np.sort(rng.integers(0, len(u), n))]
    elif kind == "prefix":             # neighbouring rows that differ in few columns
        X = rng.normal(0, 2, (n, d))
        for i in range(1, n):
            if rng.random() < .7: m = int(rng.integers(0, d)); X[i, :m] = X[i-1, :m]
        if rng.random() < .5: X = np.ascontiguousarray(X[:, ::-1])
    else: raise ValueError(kind)
    return np.ascontiguousarray(X, dtype=np.float64)

def centers(rng, X, k, how=None):
    """Initial centroids: rows, perturbed rows, points of the box, far points, equal points."""
    n, d = X.shape
    how = how or rng.choice(["rows", "near", "box", "far", "equal", "close"], p=[.35, .2, .15, .1, .1, .1])
    if how == "rows": return X[rng.choice(n, k, replace=k > n)].copy()
    sd = X.std(0) + 1e-12
    if how == "near": return X[rng.integers(0, n, k)] + rng.normal(0, .3, (k, d))*sd
    lo, hi = X.min(0), X.max(0)
    if how == "box": return rng.uniform(0, 1, (k, d))*(hi - lo) + lo
    if how == "far":
        C = X[rng.integers(0, n, k)].copy(); m = rng.random(k) < .4; m[0] = False
        C[m] += (hi - lo + 1)*rng.uniform(20, 50, (m.sum(), 1)); return C
    if how == "equal":
        C = X[rng.integers(0, n, k)].copy()
        if k > 1: C[rng.integers(1, k)] = C[0]
        return C
    C = np.tile(X[rng.integers(0, n)], (k, 1)) + rng.normal(0, .05, (k, d))*sd
    return C

def shape(rng, big=False):
    r = rng.random()
    if big: return int(rng.integers(8300, 20000)), int(rng.integers(1, 5))
    if r < .35: return int(rng.integers(2, 40)), int(rng.integers(1, 7))
    if r < .8: return int(rng.integers(40, 400)), int(rng.integers(1, 12))
    if r < .94: return int(rng.integers(400, 3000)), int(rng.integers(1, 8))
    if r < .98: return int(rng.integers(50, 300)), int(rng.integers(12, 65))
    return int(rng.integers(20, 120)), int(rng.integers(65, 400))

def pick_k(rng, n, lo=2):
    hi = max(lo, min(n, 24))
    r = rng.random()
    if r < .35: return int(min(n, rng.integers(lo, lo + 3)))
    if r < .93: return int(min(n, rng.integers(lo, hi + 1)))
    return int(max(lo, min(n, rng.choice([33, 48, 64, 65, 100, 130, 257, 300]))))

def pick_threads(rng, n):
    t = [1, 2, 3, 4, 5, 7, 8, 11, 16]
    if n < 24: t += [n, n + 3]
    if rng.random() < .04: t = [24, 33, 64]
    return int(rng.choice(t))

def config(rng, i, lo=2, heavy=True):
    """n, d, k, threads of case i; some cases are large in one respect."""
    if heavy and i % 97 == 13:        # more than one task per thread, more than 2^16 rows
        n, d = int(rng.choice([8193, 16385, 20011, 40000, 65537, 70001])), int(rng.integers(1, 4))
        th = int(rng.choice([1, 2, 3, 4])); return n, d, int(rng.integers(lo, 9)), th
    if heavy and i % 97 == 51:        # many clusters
        n, d = int(rng.integers(600, 2500)), int(rng.integers(2, 6))
        return n, d, int(rng.choice([129, 200, 256, 257, 300])), pick_threads(rng, n)
    if i % 97 == 71:                  # long rows
        n, d = int(rng.integers(lo, 60)), int(rng.choice([511, 512, 513, 1000, 1024, 1025, 2049, 4097]))
        return n, d, pick_k(rng, n, lo), pick_threads(rng, n)
    if heavy and i % 97 == 83:        # more than a thousand clusters
        n = int(rng.integers(1030, 2600)); return n, int(rng.integers(1, 4)), int(rng.choice([1000, 1024, 1025, n])), pick_threads(rng, n)
    if i % 97 == 29:                  # very few samples
        n = int(rng.integers(lo, 7)); return n, int(rng.integers(1, 5)), int(rng.integers(lo, n + 1)), pick_threads(rng, n)
    n, d = shape(rng)
    return n, d, pick_k(rng, n, lo), pick_threads(rng, n)

def cascade(rng, d, depth=None, n=None):
    """Clusters in clusters, each level some times smaller than the last: most engines that split clusters split these several times."""
    depth = depth or int(rng.integers(3, 6)); f = float(rng.choice([3, 4, 6]))
    def rec(level, c):
        if level == depth or (level > 1 and rng.random() < .15):
            return [c + rng.normal(size=(int(rng.integers(6, 30)), d))*f**-level]
        v = rng.normal(size=d); v *= 3*f**-level/np.linalg.norm(v)
        return rec(level + 1, c + v) + rec(level + 1, c - v)
    return rng.permutation(np.concatenate(rec(0, np.zeros(d))))*float(rng.choice([.01, 1, 100]))
