"""C19: imputation fills the gaps by the chosen rule and nothing else."""
import numpy as np
from hypothesis import strategies as st

from tslearn.preprocessing import TimeSeriesImputer

from .. import gen
from ..core import sub

PROPERTY = "C19"
RULE = ("Ragged datasets of 1-4 series (1-8 timestamps, 1-3 features) with NaN "
        "cells and all-NaN timestamps inside, each method, with or without "
        "keeping trailing NaN. Non-trivial: at least one gap in a feature "
        "with an observed value.")
METHODS = ["mean", "median", "linear", "ffill", "bfill", "constant",
           "callable"]


@st.composite
def cases(draw):
    A = draw(gen.dataset(1, 4, 1, 8, None, draw(gen.KIND_S), large=40))
    p = draw(st.sampled_from([1, 2, 3]))
    for a in A:
        m = draw(st.lists(st.integers(0, 4), min_size=a.size,
                          max_size=a.size))
        a[np.array(m).reshape(a.shape) < p - 1] = np.nan
        if np.isnan(a[-1]).all():
            a[-1, draw(st.integers(0, a.shape[1] - 1))] = 1.25
        if draw(st.integers(0, 3)) == 0 and len(a) > 2:
            a[draw(st.integers(0, len(a) - 2))] = np.nan
    return {"A": A, "method": draw(st.sampled_from(METHODS)),
            "value": draw(gen.FLOATS), "keep": draw(st.booleans()),
            "form": draw(st.sampled_from(["list", "pad"]))}


def fill(col, method, value):
    out = col.copy()
    obs = np.nonzero(~np.isnan(col))[0]
    for i in np.nonzero(np.isnan(col))[0]:
        if method == "constant":
            out[i] = value
            continue
        if len(obs) == 0:
            continue
        before, after = obs[obs < i], obs[obs > i]
        if method == "mean":
            out[i] = col[obs].mean()
        elif method == "median":
            out[i] = np.median(col[obs])
        elif method == "ffill" and len(before):
            out[i] = col[before[-1]]
        elif method == "bfill" and len(after):
            out[i] = col[after[0]]
        elif method == "linear":
            if not len(before):
                out[i] = col[after[0]]
            elif not len(after):
                out[i] = col[before[-1]]
            else:
                a, b = before[-1], after[0]
                out[i] = col[a] + (col[b] - col[a]) * (i - a) / (b - a)
    return out


@sub(cases(), quick=1500, shards=2)
def impute(c, t):
    A, method = c["A"], c["method"]
    P = gen.pad(A)
    X = P.copy() if c["form"] == "pad" else [a.copy() for a in A]
    if method == "callable":
        est = TimeSeriesImputer(lambda ts: np.nan_to_num(ts, nan=7.0),
                                keep_trailing_nans=c["keep"])
        rule, value = "constant", 7.0
    else:
        rule, value = method, c["value"]
        est = TimeSeriesImputer(method, value=value,
                                keep_trailing_nans=c["keep"])
    got = est.fit_transform(X)
    want = np.full(P.shape, np.nan)
    gap = False
    for i, a in enumerate(A):
        n = len(a) if c["keep"] else P.shape[1]
        for k in range(P.shape[2]):
            col = P[i, :n, k]
            gap |= bool(np.isnan(col).any() and not np.isnan(col).all())
            want[i, :n, k] = fill(col, rule, value)
    t.close(got, want, method, rtol=1e-9, atol=1e-9)
    keep = ~np.isnan(P)
    t.equal(got[keep], P[keep], "observed values changed")
    t.close(est.transform(got), np.where(np.isnan(got) & False, 0, got)
            if c["keep"] or rule not in ("mean", "median", "constant")
            else got, "idempotent", rtol=1e-9, atol=1e-9)
    t.nt(gap)
    t.label(method)


@sub(cases(), quick=60)
def unknown_method(c, t):
    P = gen.pad(c["A"])
    t.raises(ValueError, lambda: TimeSeriesImputer("nope").fit_transform(P),
             "unknown method")
    t.nt()
