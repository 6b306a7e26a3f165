"""C16: LB_Keogh and its envelope."""
import math

import numpy as np
from hypothesis import strategies as st

from tslearn.metrics import dtw, lb_envelope, lb_keogh

from .. import gen, ref
from ..core import sub, _arr

PROPERTY = "C16"
RULE = ("Univariate pairs of equal length (1-40) for the bound, series with "
        "1-3 features for the envelope, every radius from 0 to beyond the "
        "length, both backends. Non-trivial: the bound is positive, or the "
        "envelope is not constant.")


@sub(st.fixed_dictionaries({
    "p": gen.pair(max_sz=9, d=1, equal=True, large=40),
    "r": st.integers(0, 12)}), quick=1000, shards=2)
def bound(c, t):
    x, y = c["p"]
    r = c["r"]
    n = len(x)
    lb = float(lb_keogh(x, y, radius=r))
    want = 0.0
    for i in range(n):
        w = y[max(0, i - r):i + r + 1, 0]
        v = x[i, 0]
        want += max(0.0, v - w.max()) ** 2 + max(0.0, w.min() - v) ** 2
    tol = dict(rtol=1e-7, atol=1e-7)
    t.close(lb, math.sqrt(want), "LB_Keogh", **tol)
    D = float(dtw(x, y, sakoe_chiba_radius=r))
    t.ok(lb <= D + 1e-7 * (1 + D), "exceeds DTW with the same radius", lb=lb,
         dtw=D)
    env = lb_envelope(y, radius=r)
    t.close(lb_keogh(x, envelope_candidate=env), lb, "given envelope", **tol)
    t.close(lb_keogh(x.ravel().tolist(), y.ravel(), radius=r), lb, "flat input",
            **tol)
    wider = float(lb_keogh(x, y, radius=r + 1))
    t.ok(wider <= lb + 1e-9 * (1 + lb), "a wider radius raises the bound")
    t.close(lb_keogh(y, y, radius=r), 0.0, "self", **tol)
    t.close(lb_keogh(x, y, radius=0), math.sqrt(ref.sq(x, y)),
            "radius 0 is the Euclidean distance", **tol)
    t.nt(lb > 0)


@sub(st.fixed_dictionaries({
    "x": gen.series(1, 14), "r": st.integers(0, 16), "be": gen.BACKENDS}),
    quick=700)
def envelope(c, t):
    x, r, be = c["x"], c["r"], c["be"]
    lo, up = lb_envelope(x, radius=r, be=be)
    n, d = x.shape
    wl = np.array([[x[max(0, i - r):i + r + 1, k].min() for k in range(d)]
                   for i in range(n)]).reshape(n, d)
    wu = np.array([[x[max(0, i - r):i + r + 1, k].max() for k in range(d)]
                   for i in range(n)]).reshape(n, d)
    tol = dict(rtol=1e-6, atol=1e-6)
    t.close(lo, wl, "lower envelope", **tol)
    t.close(up, wu, "upper envelope", **tol)
    if d == 1:
        lo, up = lb_envelope(x.ravel().tolist(), radius=r, be=be)
        t.close(_arr(up), wu, "flat input", **tol)
    t.nt(np.ptp(wu) > 0)


@sub(st.fixed_dictionaries({
    "p": gen.pair(2, 5, d=2, equal=True)}), quick=40)
def univariate_only(c, t):
    x, y = c["p"]
    t.raises(AssertionError, lambda: lb_keogh(x, y), "multivariate candidate")
    t.raises(AssertionError,
             lambda: lb_keogh(x, envelope_candidate=lb_envelope(y[:, :1])),
             "multivariate query")
    t.nt()


@sub(st.fixed_dictionaries({
    "p": gen.pair(d=1, max_sz=10, equal=True), "r": st.integers(0, 6),
    "k": gen.UNITS}), quick=200)
def units(c, t):
    """The bound is in the unit of the series."""
    x, y = c["p"]
    s = 2.0 ** c["k"]
    want = s * float(lb_keogh(x, y, radius=c["r"]))
    t.close(lb_keogh(s * x, s * y, radius=c["r"]), want, "another unit",
            **gen.unit_tol(want))
    t.nt(want > 0)
