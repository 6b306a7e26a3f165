"""C09: LCSS counts the most matches an admissible alignment allows."""
import math

import numpy as np
from hypothesis import strategies as st

from tslearn.metrics import lcss, lcss_path, lcss_path_from_metric

from .. import gen, ref
from ..core import sub

PROPERTY = "C09"
RULE = ("Pairs of series with a threshold between 0 and 6, every constraint "
        "form, both backends. Non-trivial: at least one match and at least "
        "one non-matching admissible cell.")
CASE = st.fixed_dictionaries({
    "p": gen.pair(max_sz=7, large=30), "kw": gen.constraint(),
    "be": gen.BACKENDS,
    "eps": st.sampled_from([0.0, 0.5, 1.0, 1.0, 1.5, 2.5, 6.0])})


def best(match):
    """Longest strictly increasing chain of matching cells."""
    n, m = match.shape
    A = np.zeros((n + 1, m + 1), dtype=int)
    for i in range(n):
        for j in range(m):
            A[i + 1, j + 1] = max(A[i, j + 1], A[i + 1, j],
                                  A[i, j] + int(match[i, j]))
    return A[n, m]


def chain_error(path, match):
    p = [(int(a), int(b)) for a, b in path]
    for a, b in p:
        if not (0 <= a < match.shape[0] and 0 <= b < match.shape[1]
                and match[a, b]):
            return "pair %r is not an admissible match" % ((a, b),)
    for (a, b), (u, v) in zip(p, p[1:]):
        if not (u > a and v > b):
            return "pairs %r %r are not increasing" % ((a, b), (u, v))
    return None


def prepare(c, C):
    M = ref.mask(C.shape[0], C.shape[1], c["kw"])
    if M is None:
        return None, None
    near = np.abs(C - c["eps"]) < 1e-9
    return M, near


@sub(CASE, quick=900, shards=2)
def value_and_path(c, t):
    x, y = c["p"]
    kw, be, eps = c["kw"], c["be"], c["eps"]
    C = np.sqrt(ref.sqcost(x, y))
    M = ref.mask(len(x), len(y), kw)
    if M is None:
        t.raises(RuntimeWarning, lambda: lcss(x, y, eps, be=be, **kw), "refused")
        return
    if np.any((np.abs(C - eps) < 1e-9) & (C != eps)):
        return  # a rounding error decides
    match = (C <= eps) & M
    want = best(match) / min(len(x), len(y))
    t.close(lcss(x, y, eps=eps, be=be, **kw), want, "lcss")
    p, s = lcss_path(x, y, eps=eps, be=be, **kw)
    t.close(s, want, "lcss_path score")
    err = chain_error(p, match)
    t.ok(err is None, "invalid path: %s" % err, path=p)
    t.ok(len(p) == best(match), "path length is not the score", path=p)
    t.nt(match.any() and not match[M].all())
    t.label(ref.constraint_kind(kw)[0] or "unconstrained")


@sub(st.fixed_dictionaries({
    "p": gen.pair(max_sz=7), "kw": gen.constraint(), "be": gen.BACKENDS,
    "eps": st.sampled_from([0.0, 0.5, 1.0, 1.5, 2.5, 6.0]),
    "metric": st.sampled_from(["euclidean", "sqeuclidean", "precomputed"])}),
    quick=700)
def from_metric(c, t):
    x, y = c["p"]
    kw, be, eps, metric = c["kw"], c["be"], c["eps"], c["metric"]
    C = ref.sqcost(x, y)
    if metric == "euclidean":
        C = np.sqrt(C)
    if metric == "precomputed":
        C = np.array([[float(np.abs(u - v).max()) for v in y] for u in x])
        args, kws = (C.copy(),), {"metric": "precomputed"}
    else:
        args, kws = (x, y), {"metric": metric}
        scale = max(np.abs(x).max(), np.abs(y).max(), 1.0)
        if np.any(np.abs(C - eps) < 1e-5 * scale * scale):
            return  # a rounding error decides
    M = ref.mask(len(x), len(y), kw)

    def call():
        return lcss_path_from_metric(*args, eps=eps, be=be, **kws, **kw)
    if M is None:
        t.raises(RuntimeWarning, call, "refused")
        return
    match = (C <= eps) & M
    p, s = call()
    t.close(s, best(match) / min(len(x), len(y)), "score")
    err = chain_error(p, match)
    t.ok(err is None, "invalid path: %s" % err, path=p)
    t.ok(len(p) == best(match), "path length is not the score", path=p)
    t.nt(match.any() and not match[M].all())


@sub(st.fixed_dictionaries({
    "p": gen.pair(max_sz=7), "be": gen.BACKENDS,
    "e": st.tuples(st.floats(0, 5), st.floats(0, 5))}), quick=300)
def laws(c, t):
    x, y = c["p"]
    be = c["be"]
    lo, hi = sorted(c["e"])
    a, b = float(lcss(x, y, lo, be=be)), float(lcss(x, y, hi, be=be))
    t.ok(0 <= a <= b <= 1, "not monotone in the threshold or outside [0, 1]",
         a=a, b=b)
    t.close(lcss(x, x, eps=0.0, be=be), 1.0, "self similarity")
    t.close(lcss(y, x, eps=lo, be=be), a, "symmetry")
    prev = -1
    for r in range(0, 4):
        cur = float(lcss(x, y, lo, sakoe_chiba_radius=r, be=be))
        t.ok(prev <= cur <= a, "not monotone in the radius", cur=cur, a=a)
        prev = cur
    t.nt(0 < a < 1)


@sub(st.fixed_dictionaries({
    "p": gen.pair(max_sz=7), "kw": gen.constraint(), "be": gen.BACKENDS,
    "eps": st.sampled_from([0.5, 1.3, 2.7, 5.1]), "k": gen.UNITS}), quick=250)
def units(c, t):
    """The similarity depends on the threshold in the unit of the series."""
    x, y = c["p"]
    s = 2.0 ** c["k"]
    kw = dict(c["kw"], be=c["be"])
    if ref.mask(len(x), len(y), c["kw"]) is None:
        return
    want = float(lcss(x, y, eps=c["eps"], **kw))
    t.close(lcss(s * x, s * y, eps=s * c["eps"], **kw), want, "another unit")
    t.close(lcss_path(s * x, s * y, eps=s * c["eps"], **kw)[1], want,
            "with its path in another unit")
    t.nt(0 < want < 1)
