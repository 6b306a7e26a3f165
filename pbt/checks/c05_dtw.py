"""C05: DTW is the optimum over admissible warping paths, and so is its path."""
import math

import numpy as np
from hypothesis import strategies as st

from tslearn.metrics import (dtw, dtw_accumulated_matrix, dtw_path,
                             dtw_path_from_metric)

from .. import gen, ref
from ..core import sub

WARM = ["path", "from_metric"]
PROPERTY = "C05"
RULE = ("Pairs of series (1-8 timestamps, 1-3 features, integer-valued with "
        "ties, real or large values, equal or unequal lengths, optional "
        "trailing NaN padding), a global constraint (none, Sakoe-Chiba, "
        "Itakura, explicit/implicit/default parameters, both parameters) and a "
        "backend. Non-trivial: both series have at least 2 timestamps and the "
        "optimum is not zero.")
ASSUMPTIONS = ["the Itakura region itself is taken from the library here; "
               "C06 decides it"]

CASE = st.fixed_dictionaries({
    "p": gen.pair(large=40), "kw": gen.constraint(), "be": gen.BACKENDS,
    "form": st.sampled_from(["array", "list", "flat", "nanpad"]),
})


def present(x, form, other=None):
    if form == "list":
        return x.tolist()
    if form == "flat" and x.shape[1] == 1:
        return x[:, 0]
    if form == "nanpad":
        return np.vstack([x, np.full((2, x.shape[1]), np.nan)])
    return x


def feasible(t, x, y, kw, call):
    M = ref.mask(len(x), len(y), kw)
    if M is None:
        t.raises(RuntimeWarning, call, "unfeasible Itakura constraint")
        t.label("unfeasible")
    return M


@sub(CASE, quick=900, shards=2)
def value(c, t):
    x, y = c["p"]
    kw, be = c["kw"], c["be"]
    a, b = present(x, c["form"]), present(y, c["form"])
    M = feasible(t, x, y, kw, lambda: dtw(a, b, be=be, **kw))
    if M is None:
        return
    want = math.sqrt(ref.dtw_table(ref.sqcost(x, y), M)[-1, -1])
    t.close(dtw(a, b, be=be, **kw), want, "dtw", rtol=1e-7, atol=1e-6)
    t.nt(len(x) > 1 and len(y) > 1 and want > 0)
    t.label("be=%s" % be)
    t.label(ref.constraint_kind(kw)[0] or "unconstrained")


@sub(CASE, quick=900, shards=2)
def path(c, t):
    x, y = c["p"]
    kw, be = c["kw"], c["be"]
    a, b = present(x, c["form"]), present(y, c["form"])
    M = feasible(t, x, y, kw, lambda: dtw_path(a, b, be=be, **kw))
    if M is None:
        return
    p, d = dtw_path(a, b, be=be, **kw)
    C = ref.sqcost(x, y)
    want = math.sqrt(ref.dtw_table(C, M)[-1, -1])
    t.close(d, want, "dtw_path distance", rtol=1e-7, atol=1e-6)
    err = ref.path_error(p, len(x), len(y), M)
    t.ok(err is None, "invalid path: %s" % err, path=p)
    cost = math.sqrt(sum(C[int(i), int(j)] for i, j in p))
    t.close(cost, want, "cost of the returned path", rtol=1e-6, atol=1e-6,
            path=p)
    t.nt(len(x) > 1 and len(y) > 1 and want > 0)
    t.label("ties", np.any(C == 0) or len(np.unique(C)) < C.size)


@sub(st.fixed_dictionaries({
    "p": gen.pair(max_sz=6, large=25), "kw": gen.constraint(),
    "be": gen.BACKENDS,
    "metric": st.sampled_from(["euclidean", "sqeuclidean", "cityblock",
                               "callable", "precomputed", "precomputed"])}),
    quick=700, shards=2)
def from_metric(c, t):
    x, y = c["p"]
    kw, be, metric = c["kw"], c["be"], c["metric"]
    if metric == "cityblock" and be == "pytorch":  # documented as unsupported
        metric = "sqeuclidean"
    D = {"euclidean": lambda u, v: math.sqrt(ref.sq(u, v)),
         "sqeuclidean": ref.sq,
         "cityblock": lambda u, v: float(np.abs(u - v).sum()),
         "callable": lambda u, v: abs(float(u[0]) - float(v[0])),
         "precomputed": lambda u, v: float(np.abs(u - v).max())}[metric]
    C = np.array([[D(u, v) for v in y] for u in x]).reshape(len(x), len(y))
    if metric == "precomputed":
        C0 = C.copy()

        def call():
            return dtw_path_from_metric(C, metric="precomputed", be=be, **kw)
    elif metric == "callable":
        def call():
            return dtw_path_from_metric(
                x, y, be=be, metric=lambda u, v: abs(float(u[0]) - float(v[0])),
                **kw)
    else:
        def call():
            return dtw_path_from_metric(x, y, metric=metric, be=be, **kw)
    M = feasible(t, x, y, kw, call)
    if M is None:
        return
    if metric == "precomputed":
        C = C0.copy()
    p, d = call()
    if metric == "precomputed":
        t.equal(C, C0, "precomputed cost matrix modified by the call")
        C = C0
    # sklearn's euclidean distances lose precision through a dot product
    tol = 1e-5 * (1 + np.abs(C).max()) * (len(x) + len(y))
    want = ref.dtw_table(C, M)[-1, -1]
    t.close(d, want, "cost", rtol=1e-6, atol=tol)
    err = ref.path_error(p, len(x), len(y), M)
    t.ok(err is None, "invalid path: %s" % err, path=p)
    t.close(sum(C[int(i), int(j)] for i, j in p), want, "cost of path",
            rtol=1e-6, atol=tol)
    t.nt(len(x) > 1 and len(y) > 1 and want > 0)
    t.label(metric)


@sub(st.fixed_dictionaries({"p": gen.pair(), "kw": gen.constraint(),
                            "be": gen.BACKENDS}), quick=400)
def accumulated(c, t):
    x, y = c["p"]
    M = ref.mask(len(x), len(y), c["kw"])
    if M is None:
        return
    mask = M
    if c["be"] == "pytorch":
        import torch
        mask = torch.tensor(M)
    A = dtw_accumulated_matrix(x, y, mask, be=c["be"])
    W = ref.dtw_table(ref.sqcost(x, y), M)
    t.close(A, W, "accumulated matrix", rtol=1e-7, atol=1e-6)
    t.nt(len(x) > 1 and len(y) > 1 and W[-1, -1] > 0)


@sub(st.fixed_dictionaries({
    "p": gen.pair(max_sz=7), "be": gen.BACKENDS, "r": st.integers(0, 6),
    "reps": st.lists(st.integers(1, 3), min_size=7, max_size=7)}), quick=400)
def laws(c, t):
    x, y = c["p"]
    be = c["be"]
    d = float(dtw(x, y, be=be))
    tol = dict(rtol=1e-6, atol=1e-5)
    t.close(dtw(y, x, be=be), d, "symmetry", **tol)
    t.close(dtw(x, x, be=be), 0.0, "identity", **tol)
    w = np.repeat(x, c["reps"][:len(x)], axis=0)
    t.close(dtw(x, w, be=be), 0.0, "invariance to time stretching", **tol)
    prev = None
    for r in range(0, c["r"] + 2):
        cur = float(dtw(x, y, sakoe_chiba_radius=r, be=be))
        t.ok(cur >= d - 1e-5 * (1 + abs(d)), "constrained below optimum",
             cur=cur, d=d)
        t.ok(prev is None or cur <= prev + 1e-5 * (1 + abs(cur)),
             "larger radius gives a larger distance", cur=cur, prev=prev)
        t.close(dtw(y, x, sakoe_chiba_radius=r, be=be), cur,
                "symmetry under Sakoe-Chiba", **tol)
        prev = cur
    if len(x) == len(y):
        t.close(dtw(x, y, sakoe_chiba_radius=0, be=be),
                math.sqrt(ref.sq(x, y)), "radius 0 is the Euclidean distance",
                **tol)
    t.close(dtw(x, y, sakoe_chiba_radius=len(x) + len(y), be=be), d,
            "wide band is no constraint", **tol)
    t.close(dtw(x[::-1].copy(), y[::-1].copy(), be=be), d, "time reversal",
            **tol)
    t.close(dtw(x + 1.5, y + 1.5, be=be), d, "translation", **tol)
    t.nt(len(x) > 1 and len(y) > 1 and d > 0)


@sub(st.fixed_dictionaries({"p": gen.pair(), "kw": gen.constraint(),
                            "be": gen.BACKENDS, "k": gen.UNITS}), quick=300)
def units(c, t):
    """The distance is in the unit of the series; the path has none."""
    x, y = c["p"]
    s = 2.0 ** c["k"]
    kw = dict(c["kw"], be=c["be"])
    if ref.mask(len(x), len(y), c["kw"]) is None:
        return
    path, d = dtw_path(x, y, **kw)
    want = s * float(d)
    path2, d2 = dtw_path(s * x, s * y, **kw)
    t.close(d2, want, "distance with a path in another unit",
            **gen.unit_tol(want))
    t.close(dtw(s * x, s * y, **kw), want, "distance in another unit",
            **gen.unit_tol(want))
    t.ok([tuple(map(int, p)) for p in path2]
         == [tuple(map(int, p)) for p in path],
         "the path depends on the unit", path=path, path2=path2)
    t.nt(len(x) > 1 and len(y) > 1 and want > 0)
