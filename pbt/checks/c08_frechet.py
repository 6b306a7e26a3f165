"""C08: discrete Frechet distance and its path."""
import math

import numpy as np
from hypothesis import strategies as st

from tslearn.metrics import (cdist_frechet, dtw, frechet,
                             frechet_accumulated_matrix, frechet_path,
                             frechet_path_from_metric)

from .. import gen, ref
from ..core import sub

PROPERTY = "C08"
RULE = ("Pairs of series as for DTW with every constraint form and both "
        "backends; precomputed and named local distances. Non-trivial: both "
        "series have at least 2 timestamps and the distance is positive.")
CASE = st.fixed_dictionaries({"p": gen.pair(large=30), "kw": gen.constraint(),
                              "be": gen.BACKENDS})
TOL = dict(rtol=1e-6, atol=1e-5)


@sub(CASE, quick=900, shards=2)
def value_and_path(c, t):
    x, y = c["p"]
    kw, be = c["kw"], c["be"]
    M = ref.mask(len(x), len(y), kw)
    if M is None:
        t.raises(RuntimeWarning, lambda: frechet(x, y, be=be, **kw), "refused")
        return
    C = ref.sqcost(x, y)
    T = ref.frechet(C, M)
    want = math.sqrt(T[-1, -1])
    t.close(frechet(x, y, be=be, **kw), want, "frechet", **TOL)
    p, d = frechet_path(x, y, be=be, **kw)
    t.close(d, want, "frechet_path distance", **TOL)
    err = ref.path_error(p, len(x), len(y), M)
    t.ok(err is None, "invalid path: %s" % err, path=p)
    t.close(math.sqrt(max(C[int(i), int(j)] for i, j in p)), want,
            "largest local distance on the path", path=p, **TOL)
    t.close(cdist_frechet([x], [y], be=be, **kw), [[want]], "cdist", **TOL)
    t.nt(len(x) > 1 and len(y) > 1 and want > 0)
    t.label(ref.constraint_kind(kw)[0] or "unconstrained")


@sub(CASE, quick=300)
def accumulated(c, t):
    x, y = c["p"]
    M = ref.mask(len(x), len(y), c["kw"])
    if M is None:
        return
    mask = M
    if c["be"] == "pytorch":
        import torch
        mask = torch.tensor(M)
    W = ref.frechet(ref.sqcost(x, y), M)
    t.close(frechet_accumulated_matrix(x, y, mask, be=c["be"]), W,
            "accumulated matrix", rtol=1e-7, atol=1e-6)
    t.nt(len(x) > 1 and len(y) > 1 and W[-1, -1] > 0)


@sub(st.fixed_dictionaries({
    "p": gen.pair(max_sz=6), "kw": gen.constraint(), "be": gen.BACKENDS,
    "metric": st.sampled_from(["euclidean", "sqeuclidean", "precomputed"])}),
    quick=500)
def from_metric(c, t):
    x, y = c["p"]
    kw, be, metric = c["kw"], c["be"], c["metric"]
    C = ref.sqcost(x, y)
    if metric == "euclidean":
        C = np.sqrt(C)
    if metric == "precomputed":
        C = np.array([[float(np.abs(u - v).max()) for v in y] for u in x])
        args, kws = (C.copy(),), {"metric": "precomputed"}
    else:
        args, kws = (x, y), {"metric": metric}
    M = ref.mask(len(x), len(y), kw)

    def call():
        return frechet_path_from_metric(*args, be=be, **kws, **kw)
    if M is None:
        t.raises(RuntimeWarning, call, "refused")
        return
    p, d = call()
    tol = 1e-5 * (1 + np.abs(C).max())
    want = ref.frechet(C, M)[-1, -1]
    t.close(d, want, "cost", rtol=1e-6, atol=tol)
    err = ref.path_error(p, len(x), len(y), M)
    t.ok(err is None, "invalid path: %s" % err, path=p)
    t.close(max(C[int(i), int(j)] for i, j in p), want, "path cost",
            rtol=1e-6, atol=tol)
    t.nt(len(x) > 1 and len(y) > 1 and want > 0)


@sub(st.fixed_dictionaries({"p": gen.pair(), "be": gen.BACKENDS}), quick=300)
def laws(c, t):
    x, y = c["p"]
    be = c["be"]
    d = float(frechet(x, y, be=be))
    t.close(frechet(y, x, be=be), d, "symmetry", **TOL)
    t.close(frechet(x, x, be=be), 0, "identity", **TOL)
    t.ok(d <= float(dtw(x, y, be=be)) + 1e-5 * (1 + d), "Frechet above DTW")
    lo = max(math.sqrt(ref.sq(x[0], y[0])), math.sqrt(ref.sq(x[-1], y[-1])))
    t.ok(d >= lo - 1e-5 * (1 + lo), "below the distance of the endpoints")
    prev = None
    for r in (0, 1, 2, 3):
        cur = float(frechet(x, y, sakoe_chiba_radius=r, be=be))
        t.ok(cur >= d - 1e-5 * (1 + d), "constrained below unconstrained")
        t.ok(prev is None or cur <= prev + 1e-5 * (1 + cur), "monotone radius")
        prev = cur
    t.nt(len(x) > 1 and len(y) > 1 and d > 0)


@sub(st.fixed_dictionaries({"p": gen.pair(), "kw": gen.constraint(),
                            "be": gen.BACKENDS, "k": gen.UNITS}), quick=300)
def units(c, t):
    """The distance is in the unit of the series."""
    x, y = c["p"]
    s = 2.0 ** c["k"]
    kw = dict(c["kw"], be=c["be"])
    if ref.mask(len(x), len(y), c["kw"]) is None:
        return
    want = s * float(frechet(x, y, **kw))
    tol = gen.unit_tol(want)
    t.close(frechet(s * x, s * y, **kw), want, "another unit", **tol)
    t.close(frechet_path(s * x, s * y, **kw)[1], want,
            "with its path in another unit", **tol)
    t.nt(len(x) > 1 and len(y) > 1 and want > 0)
