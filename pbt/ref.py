"""Reference models, written from the definitions; slow and plain."""
import itertools
import math

import numpy as np

INF = float("inf")


def sakoe_mask(n, m, r):
    """|i-j| band of the given radius, widened by the length difference."""
    M = np.zeros((n, m), dtype=bool)
    for i in range(n):
        for j in range(m):
            if n <= m:
                M[i, j] = i - r <= j <= i + (m - n) + r
            else:
                M[i, j] = j - r <= i <= j + (n - m) + r
    return M


def constraint_kind(kw):
    gc = kw.get("global_constraint")
    r, s = kw.get("sakoe_chiba_radius"), kw.get("itakura_max_slope")
    if gc == "sakoe_chiba" or (gc is None and r is not None):
        return "sakoe", 1 if r is None else r
    if gc == "itakura" or (gc is None and s is not None):
        return "itakura", 2.0 if s is None else s
    return None, None


def mask(n, m, kw):
    """Admissible cells, or None when no path is admissible (Itakura)."""
    k, p = constraint_kind(kw)
    if k == "sakoe":
        return sakoe_mask(n, m, p)
    if k == "itakura":
        return itakura(n, m, p)
    return np.ones((n, m), dtype=bool)


def itakura(n, m, s):
    """The library's own Itakura mask (decided by C06); None if it refuses."""
    from tslearn.metrics import itakura_mask
    try:
        return np.asarray(itakura_mask(n, m, max_slope=s))
    except RuntimeWarning:
        return None


def sq(a, b):
    return float(np.sum((np.asarray(a) - np.asarray(b)) ** 2))


def sqcost(x, y):
    return np.array([[sq(a, b) for b in y] for a in x]).reshape(len(x), len(y))


def dp(C, M, combine):
    """Min over admissible paths of the fold of costs; returns table."""
    n, m = C.shape
    A = np.full((n, m), INF)
    for i in range(n):
        for j in range(m):
            if not M[i, j]:
                continue
            if i == 0 and j == 0:
                A[i, j] = C[i, j]
                continue
            prev = INF
            if i:
                prev = min(prev, A[i - 1, j])
            if j:
                prev = min(prev, A[i, j - 1])
            if i and j:
                prev = min(prev, A[i - 1, j - 1])
            A[i, j] = combine(prev, C[i, j]) if prev < INF else INF
    return A


def dtw_table(C, M):
    return dp(C, M, lambda p, c: p + c)


def dtw(x, y, kw=None):
    M = mask(len(x), len(y), kw or {})
    return math.sqrt(dtw_table(sqcost(x, y), M)[-1, -1])


def frechet(C, M):
    return dp(C, M, max)


def all_paths(n, m):
    """Every warping path from (0,0) to (n-1,m-1); for tiny sizes."""
    def rec(i, j):
        if i == n - 1 and j == m - 1:
            yield [(i, j)]
            return
        for a, b in ((1, 0), (0, 1), (1, 1)):
            if i + a < n and j + b < m:
                for p in rec(i + a, j + b):
                    yield [(i, j)] + p
    return rec(0, 0)


def path_error(path, n, m, M=None, start=(0, 0), end=None):
    """Why `path` is not an admissible warping path (None if it is)."""
    p = [(int(a), int(b)) for a, b in path]
    end = (n - 1, m - 1) if end is None else end
    if not p:
        return "empty path"
    if p[0] != start:
        return "path starts at %r" % (p[0],)
    if p[-1] != end:
        return "path ends at %r" % (p[-1],)
    for (a, b), (c, d) in zip(p, p[1:]):
        if (c - a, d - b) not in ((1, 0), (0, 1), (1, 1)):
            return "bad step %r -> %r" % ((a, b), (c, d))
    for a, b in p:
        if not (0 <= a < n and 0 <= b < m):
            return "cell %r outside" % ((a, b),)
        if M is not None and not M[a, b]:
            return "cell %r outside the constraint" % ((a, b),)
    return None


def softmin(vals, gamma):
    vals = [v for v in vals if v < INF]
    if not vals:
        return INF
    lo = min(vals)
    return lo - gamma * math.log(sum(math.exp(-(v - lo) / gamma)
                                     for v in vals))


def soft_dtw(C, gamma, M=None):
    n, m = C.shape
    R = np.full((n + 1, m + 1), INF)
    R[0, 0] = 0.0
    for i in range(1, n + 1):
        for j in range(1, m + 1):
            if M is not None and not M[i - 1, j - 1]:
                continue
            R[i, j] = C[i - 1, j - 1] + softmin(
                [R[i - 1, j], R[i, j - 1], R[i - 1, j - 1]], gamma)
    return R[n, m]


def ts_list(X):
    """Series of a NaN padded array, trailing all-NaN timestamps dropped."""
    X = np.asarray(X, dtype=float)
    out = []
    for x in X:
        keep = len(x)
        while keep and np.all(np.isnan(x[keep - 1])):
            keep -= 1
        out.append(x[:keep])
    return out


__all__ = [k for k in dir() if not k.startswith("_")] + ["itertools"]
