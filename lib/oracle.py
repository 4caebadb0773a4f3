"""Independent computations of what the engines are specified to compute."""
import numpy as np

INVALID = 2**32 - 1

def dist(X, C, metric):
    """n x k distances, straight from the definitions."""
    X = np.asarray(X, float); C = np.asarray(C, float)
    out = np.empty((len(X), len(C)))
    for j in range(len(C)):
        D = X - C[j]
        if metric == "eucl": out[:, j] = np.sqrt((D*D).sum(1))
        elif metric == "sqeucl": out[:, j] = (D*D).sum(1)
        elif metric == "taxi": out[:, j] = np.abs(D).sum(1)
        elif metric == "cos":
            nx = np.sqrt((X*X).sum(1)); nc = np.sqrt((C[j]*C[j]).sum())
            with np.errstate(all="ignore"):
                v = 1 - (X*C[j]).sum(1)/(nx*nc)
            out[:, j] = np.where((nx == 0) | (nc == 0), 1.0, v)
        else: raise ValueError(metric)
    return out

def abs_tol(X, metric):
    """How far rounding in centroids and distances may move a distance."""
    m = np.abs(X).max() if X.size else 0
    if metric == "cos": return 1e-11
    if metric == "sqeucl": return 1e-11*(m + 1e-300)**2*X.shape[1]
    return 1e-11*m*max(1, X.shape[1])**.5 + 1e-300

def nearest_violations(X, C, a, metric, extra=0.0):
    """Rows that are not in the cluster of a nearest centroid (beyond rounding)."""
    D = dist(X, C, metric)
    with np.errstate(all="ignore"):
        best = np.nanmin(D, axis=1)
        got = D[np.arange(len(X)), a]
        tol = abs_tol(X, metric) + extra + 1e-9*np.abs(best)
        if metric == "cos":  # angles of vectors of almost no length are noise
            pass
        bad = ~(got <= best + tol)
    return np.nonzero(bad & np.isfinite(best))[0], D

def margin(D):
    """Relative gap between the nearest and the second nearest centroid, per row."""
    if D.shape[1] < 2: return np.full(len(D), np.inf)
    s = np.partition(D, 1, axis=1)
    return s[:, 1] - s[:, 0]

def means(X, a, k):
    cnt = np.bincount(a, minlength=k).astype(float)
    M = np.zeros((k, X.shape[1]))
    for j in range(X.shape[1]): M[:, j] = np.bincount(a, weights=X[:, j], minlength=k)
    with np.errstate(all="ignore"): M = M/cnt[:, None]
    return M, cnt.astype(np.int64)

def mean_tol(X, scale=1.0):
    m = np.abs(X).max(0) if X.size else 0
    return scale*1e-10*m + 1e-300

def sse(X, C, a):
    D = X - C[a]
    return float((D*D).sum())

def wellformed(r, n, d, kmin, kmax, iters, hier=False):
    """What is wrong with the form of a result, or None."""
    if r.error: return "error: " + r.error
    if r.nrow != n or r.ncol != d: return "shape %dx%d reported for %dx%d data" % (r.nrow, r.ncol, n, d)
    if not (kmin <= r.k <= kmax): return "%d clusters returned, asked %d..%d" % (r.k, kmin, kmax)
    if len(r.a) != n: return "%d assignments for %d samples" % (len(r.a), n)
    if len(r.counts) != r.k: return "%d sizes for %d clusters" % (len(r.counts), r.k)
    if len(r.cents) != r.k*d: return "%d centroid values for %d clusters of dimension %d" % (len(r.cents), r.k, d)
    if (r.a >= r.k).any(): return "sample %d is in cluster %d of %d" % (int(np.argmax(r.a >= r.k)), int(r.a.max()), r.k)
    cnt = np.bincount(r.a, minlength=r.k)
    if (cnt != r.counts).any():
        c = int(np.argmax(cnt != r.counts)); return "cluster %d has %d samples but size %d" % (c, cnt[c], r.counts[c])
    if hier and (cnt == 0).any(): return "cluster %d is empty" % int(np.argmax(cnt == 0))
    C = r.cents.reshape(r.k, d)
    bad = (cnt > 0) & ~np.isfinite(C).all(1)
    if bad.any(): return "centroid %d of a non-empty cluster is not finite" % int(np.argmax(bad))
    if r.iters > iters: return "%d iterations reported, at most %d asked" % (r.iters, iters)
    return None

def lloyd_step(X, C0, r, metric, extra=0.0, centroids=True, cscale=1.0):
    """Is r the result of one Lloyd step from C0?  Returns a description of the error or None."""
    k = len(C0)
    bad, D = nearest_violations(X, C0, r.a, metric, extra)
    if len(bad):
        i = int(bad[0])
        return "sample %d is assigned to centroid %d at distance %.17g, centroid %d is at %.17g (%d such samples)" % (
            i, r.a[i], D[i, r.a[i]], int(np.nanargmin(D[i])), float(np.nanmin(D[i])), len(bad))
    M, cnt = means(X, r.a, k)
    if (cnt != r.counts).any():
        c = int(np.argmax(cnt != r.counts)); return "cluster %d has %d samples but size %d" % (c, cnt[c], r.counts[c])
    if centroids:
        C = r.C(); tol = mean_tol(X, cscale)
        with np.errstate(all="ignore"):
            off = (cnt > 0) & ~(np.abs(C - M) <= tol).all(1)
        if off.any():
            c = int(np.argmax(off)); return "centroid %d is %s, the mean of its %d samples is %s" % (c, C[c][:6], cnt[c], M[c][:6])
    return None
