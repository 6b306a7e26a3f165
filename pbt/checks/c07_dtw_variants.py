"""C07: limited-length DTW and subsequence DTW are optimal."""
import math

import numpy as np
from hypothesis import strategies as st

from tslearn.metrics import (dtw, dtw_limited_warping_length,
                             dtw_path_limited_warping_length,
                             dtw_subsequence_path, subsequence_cost_matrix,
                             subsequence_path)

from .. import gen, ref
from ..core import sub, _arr

PROPERTY = "C07"
RULE = ("Pairs of series (1-7 timestamps, 1-3 features), a maximum path "
        "length from below feasible to beyond the unconstrained bound, both "
        "backends. Non-trivial: the length bound actually excludes the "
        "unconstrained optimum, or (subsequence) the best window is a proper "
        "part of the long series.")
# the pytorch backend accumulates these costs in single precision
TOL = dict(rtol=2e-5, atol=2e-4)


def limited(C, L):
    """Min cost over warping paths with at most L cells: A[i][j][k]."""
    n, m = C.shape
    best = {(0, 0): {1: C[0, 0]}}
    for i in range(n):
        for j in range(m):
            if (i, j) == (0, 0):
                continue
            cur = {}
            for p in ((i - 1, j), (i, j - 1), (i - 1, j - 1)):
                for k, v in best.get(p, {}).items():
                    if k + 1 <= L:
                        w = v + C[i, j]
                        if w < cur.get(k + 1, math.inf):
                            cur[k + 1] = w
            best[i, j] = cur
    end = best[n - 1, m - 1]
    return min(end.values()) if end else math.inf


@sub(st.fixed_dictionaries({"p": gen.pair(max_sz=7, large=14), "be": gen.BACKENDS,
                            "extra": st.integers(-2, 8)}),
     quick=500, shards=2)
def limited_length(c, t):
    x, y = c["p"]
    be = c["be"]
    n, m = len(x), len(y)
    L = max(n, m) + c["extra"]
    if L < max(n, m):
        t.raises(ValueError, lambda: dtw_limited_warping_length(x, y, L, be=be),
                 "impossible length")
        t.raises(ValueError,
                 lambda: dtw_path_limited_warping_length(x, y, L, be=be),
                 "impossible length")
        return
    C = ref.sqcost(x, y)
    want = math.sqrt(limited(C, L))
    t.close(dtw_limited_warping_length(x, y, L, be=be), want, "cost", **TOL)
    p, d = dtw_path_limited_warping_length(x, y, L, be=be)
    t.close(d, want, "cost with path", **TOL)
    err = ref.path_error(p, n, m)
    t.ok(err is None, "invalid path: %s" % err, path=p)
    t.ok(len(p) <= L, "path longer than allowed", path=p, L=L)
    t.close(math.sqrt(sum(C[int(i), int(j)] for i, j in p)), want,
            "cost of the path", **TOL)
    free = ref.dtw(x, y)
    t.ok(want >= free - 1e-6, "oracle")
    if L >= n + m - 1:
        t.close(dtw_limited_warping_length(x, y, L, be=be), dtw(x, y),
                "no effective limit", **TOL)
    t.nt(want > free + 1e-6)


def slow(d, kind):
    """Series of up to 30 timestamps that stay at each value for a while."""
    return gen.series(1, 6, d, kind).flatmap(lambda x: st.lists(
        st.integers(1, 5), min_size=len(x), max_size=len(x)).map(
            lambda k: np.repeat(x, k, axis=0)))


@sub(st.fixed_dictionaries({
    "d": st.sampled_from([1, 1, 2, 3]), "be": gen.BACKENDS,
    "kind": gen.KIND}).flatmap(lambda b: st.fixed_dictionaries({
        "be": st.just(b["be"]),
        "short": gen.series(1, 6, b["d"], b["kind"]),
        "long": st.one_of(gen.series(1, 12, b["d"], b["kind"]),
                          slow(b["d"], b["kind"])),
        "end": st.integers(0, 29), "nan": st.integers(0, 2)})),
    quick=700, shards=2)
def subsequence(c, t):
    x, y, be = c["short"], c["long"], c["be"]
    n, m = len(x), len(y)
    C = ref.sqcost(x, y)
    # best[j]: min over start columns of DTW(x, y[a..j])
    best = np.full(m, math.inf)
    for a in range(m):
        A = ref.dtw_table(C[:, a:], np.ones((n, m - a), dtype=bool))
        best[a:] = np.minimum(best[a:], A[-1])
    y_ = np.vstack([y, np.full((c["nan"], y.shape[1]), np.nan)])
    M = _arr(subsequence_cost_matrix(x, y_, be=be))
    t.ok(M.shape == (n, m), "cost matrix shape", shape=M.shape)
    t.close(M[-1], best, "last row is the cost of the best window ending "
            "there", **TOL)
    p, d = dtw_subsequence_path(x, y_, be=be)
    want = math.sqrt(best.min())
    t.close(d, want, "distance", **TOL)
    p = [(int(i), int(j)) for i, j in p]
    s, e = p[0][1], p[-1][1]
    err = ref.path_error([(i, j - s) for i, j in p], n, m - s,
                         end=(n - 1, e - s))
    t.ok(err is None, "invalid path: %s" % err, path=p)
    t.close(math.sqrt(sum(C[i, j] for i, j in p)), want, "cost of the path",
            **TOL)
    end = c["end"] % m
    q = [(int(i), int(j)) for i, j in subsequence_path(
        subsequence_cost_matrix(x, y, be=be), end, be=be)]
    s = q[0][1]
    err = ref.path_error([(i, j - s) for i, j in q], n, m - s,
                         end=(n - 1, end - s))
    t.ok(err is None, "invalid path to a chosen end: %s" % err, path=q)
    t.close(sum(C[i, j] for i, j in q), best[end],
            "cost of the path to a chosen end", **TOL)
    t.nt(n > 1 and (s > 0 or e < m - 1) and best.min() > 0)


@sub(st.fixed_dictionaries({"p": gen.pair(max_sz=7), "be": gen.BACKENDS,
                            "extra": st.integers(0, 4), "k": gen.UNITS}),
     quick=250)
def units(c, t):
    """The distances are in the unit of the series."""
    x, y = c["p"]
    be, s = c["be"], 2.0 ** c["k"]
    L = max(len(x), len(y)) + c["extra"]
    want = s * float(dtw_limited_warping_length(x, y, L, be=be))
    t.close(dtw_limited_warping_length(s * x, s * y, L, be=be), want,
            "limited length in another unit", **gen.unit_tol(want))
    t.close(dtw_path_limited_warping_length(s * x, s * y, L, be=be)[1], want,
            "limited length with its path in another unit",
            **gen.unit_tol(want))
    if len(x) > len(y):
        x, y = y, x
    want = s * float(dtw_subsequence_path(x, y, be=be)[1])
    t.close(dtw_subsequence_path(s * x, s * y, be=be)[1], want,
            "subsequence in another unit", **gen.unit_tol(want))
    t.nt(len(x) > 1 and want > 0)
