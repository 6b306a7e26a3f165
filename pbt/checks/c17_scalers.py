"""C17: scalers map to the requested range or moments."""
import numpy as np
from hypothesis import strategies as st

from tslearn.preprocessing import (TimeSeriesScalerMeanVariance,
                                   TimeSeriesScalerMinMax)

from .. import gen, ref
from ..core import sub

PROPERTY = "C17"
RULE = ("Datasets of 1-5 series (1-7 timestamps, 1-3 features), padded with "
        "NaN, with NaN cells, constant series or features, fitted on one set "
        "and applied to another, values from 1e-30 to 1e30; every range or moment target and both "
        "grouping switches. Non-trivial: more than one distinct value in every "
        "group to be scaled.")


@st.composite
def sets(draw, d):
    A = draw(gen.dataset(1, 5, 1, 7, d, draw(gen.KIND_S), large=50))
    mode = draw(st.sampled_from(["plain", "plain", "const", "constf", "nan",
                                 "gone"]))
    v = draw(gen.FLOATS)
    for a in A:
        if mode == "const":
            a[:] = v
        elif mode == "constf":
            a[:, 0] = v
        elif mode == "gone" and d > 1:  # a feature without any observation
            a[:, -1] = np.nan
        elif mode == "nan" and len(a) > 2:
            a[1, draw(st.integers(0, d - 1))] = np.nan
    return gen.pad(A, max(map(len, A)) + draw(st.sampled_from([0, 0, 1])))


SCALES = st.sampled_from([0, 0, 0, -4, -7, -9, -12, -30, 5, 9, 30])


@st.composite
def cases(draw):
    d = draw(st.integers(1, 3))
    lo = draw(st.floats(-10, 10))
    e = 10.0 ** draw(SCALES)
    return {"X": draw(sets(d)) * e, "Z": draw(sets(d)) * e,
            "per_ts": draw(st.booleans()), "per_f": draw(st.booleans()),
            "lo": lo, "hi": lo + draw(st.floats(0.5, 10)),
            "mu": draw(st.floats(-5, 5)), "std": draw(st.floats(0.1, 5))}


def groups(X, per_ts, per_f):
    """Cells that are scaled together, as boolean masks."""
    n, sz, d = X.shape
    for i in (range(n) if per_ts else [slice(None)]):
        for k in (range(d) if per_f else [slice(None)]):
            m = np.zeros(X.shape, dtype=bool)
            m[i, :, k] = True
            yield m & ~np.isnan(X)


def noise(*values):
    return 1e-13 * max(np.abs(v).max() for v in values)


def check(c, t, make, stats, apply, target):
    X, Z = c["X"], c["Z"]
    pt, pf = c["per_ts"], c["per_f"]
    est = make(pt, pf).fit(X.copy())
    varied = True
    for Y in (X, Z):
        got = est.transform(Y.copy())
        trimmed = gen.pad([s if len(s) else Y[0, :1] for s in ref.ts_list(Y)])
        t.ok(got.shape == trimmed.shape, "shape", got=got.shape)
        want = np.full(trimmed.shape, np.nan)
        fitted = gen.pad(ref.ts_list(X))
        tol = np.full(trimmed.shape, 1e-6)
        for m in groups(trimmed, pt, pf):
            if pt:
                src = trimmed[m]
            else:
                k = np.unique(np.argwhere(m)[:, 2]) if pf else slice(None)
                fm = np.zeros(fitted.shape, dtype=bool)
                fm[:, :, k] = True
                src = fitted[fm & ~np.isnan(fitted)]
            if not m.any() or not len(src):
                continue
            varied &= len(np.unique(src)) > 1
            want[m] = apply(trimmed[m], stats(src))
            if len(np.unique(src)) == 1:  # divided by 1: rounding of the mean
                tol[m] += c["std"] * noise(trimmed[m], src)
        t.close(got, want, "scaled values", rtol=1e-6, atol=tol)
        if Y is X or pt:
            for m in groups(trimmed, pt, pf):
                if m.any():
                    target(got[m], len(np.unique(trimmed[m])),
                           noise(trimmed[m]))
    t.close(make(pt, pf).fit_transform(X.copy()), est.transform(X.copy()),
            "fit_transform", rtol=1e-12, atol=1e-12)
    t.nt(varied)


@sub(cases(), quick=900, shards=2)
def min_max(c, t):
    lo, hi = c["lo"], c["hi"]

    def apply(v, s):
        a, b = s
        return lo + (v - a) * (hi - lo) / ((b - a) if b > a else 1.0)

    def target(v, distinct, eps):
        if distinct > 1:
            t.close([v.min(), v.max()], [lo, hi], "range", rtol=1e-9,
                    atol=1e-8)
        else:
            t.close(v, np.full(v.shape, lo), "constant group", atol=1e-8)
    check(c, t, lambda p, f: TimeSeriesScalerMinMax(
        value_range=(lo, hi), per_timeseries=p, per_feature=f),
        lambda v: (v.min(), v.max()), apply, target)
    t.raises(ValueError, lambda: TimeSeriesScalerMinMax(
        value_range=(hi, lo)).fit(c["X"]).transform(c["X"]), "reversed range")
    t.raises(ValueError, lambda: TimeSeriesScalerMinMax(
        value_range=(lo, lo)).fit(c["X"]).transform(c["X"]), "empty range")


@sub(cases(), quick=900, shards=2)
def mean_variance(c, t):
    mu, std = c["mu"], c["std"]

    def apply(v, s):
        m, sd = s
        return mu + (v - m) * std / sd

    def stats(v):
        m = v.mean()
        return m, (np.sqrt(((v - m) ** 2).mean()) if len(np.unique(v)) > 1
                   else 1.0)

    def target(v, distinct, eps):
        if distinct > 1:
            t.close(v.mean(), mu, "mean", rtol=1e-6, atol=1e-6)
            t.close(v.std(), std, "standard deviation", rtol=1e-6, atol=1e-6)
        else:
            t.close(v, np.full(v.shape, mu), "constant group",
                    atol=1e-6 + std * eps)
    check(c, t, lambda p, f: TimeSeriesScalerMeanVariance(
        mu=mu, std=std, per_timeseries=p, per_feature=f), stats, apply,
        target)


@sub(cases(), quick=150)
def dimension_mismatch(c, t):
    X, Z = c["X"], c["Z"]
    Z = np.concatenate([Z, Z], axis=2)
    for cls in (TimeSeriesScalerMinMax, TimeSeriesScalerMeanVariance):
        t.raises(ValueError, lambda: cls().fit(X).transform(Z),
                 "other number of features")
    t.nt()


@sub(st.tuples(st.integers(1, 3), st.integers(1, 4), st.integers(1, 2),
               st.booleans(), st.booleans()), quick=40)
def unobserved(c, t):
    """Nothing observed: nothing to scale, and nothing made up."""
    n, sz, d, pt, pf = c
    X = np.full((n, sz, d), np.nan)
    est = TimeSeriesScalerMeanVariance(per_timeseries=pt, per_feature=pf)
    got = est.fit_transform(X.copy())
    t.ok(got.shape[0] == n and got.shape[2] == d and np.isnan(got).all(),
         "scaled NaN", got=got)
    t.nt(True)
