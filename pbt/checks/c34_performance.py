"""C34: forecasting errors are the documented weighted averages."""
import warnings

import numpy as np
from hypothesis import strategies as st

from tslearn.metrics import performance as perf

from .. import gen
from ..core import sub

PROPERTY = "C34"
RULE = ("several series, timestamps or features with unequal weights, and a "
        "prediction that is not exact")


def weights(n):
    one = st.one_of(st.integers(0, 5).map(float), st.floats(0, 3))
    return st.one_of(st.none(), st.lists(one, min_size=n, max_size=n).filter(
        lambda w: sum(w) > 1e-3))


@st.composite
def case(draw):
    n, sz, d = draw(st.integers(1, 4)), draw(st.integers(1, 5)), \
        draw(st.integers(1, 3))
    m = draw(st.integers(1, 3))
    p = {"n": n, "sz": sz, "d": d, "m": m, "seed": draw(
        st.integers(0, 10 ** 6)), "kind": draw(st.sampled_from(
            ["int", "float", "float", "big"]))}
    p["wi"], p["wt"] = draw(weights(n)), draw(weights(sz))
    p["mo"] = draw(st.one_of(st.sampled_from(
        ["uniform_average", "raw_values"]), weights(d).filter(
            lambda w: w is not None)))
    p["form"] = draw(st.sampled_from(["array", "array", "list", "int",
                                      "torch", "one"]))
    p["wform"] = draw(st.sampled_from(["list", "array", "tuple"]))
    p["tn"], p["tsz"] = draw(st.integers(1, 3)), m + draw(st.integers(1, 5))
    p["default"] = draw(st.booleans())
    return p


def given_as(X, form):
    if form == "list":
        return X.tolist()
    if form == "one" and len(X) == 1 and X.shape[2] == 1:
        return X[0, :, 0]
    if form == "torch":
        import torch
        return torch.tensor(X)
    if form == "int":
        return np.round(X).astype(int)
    return X.copy()


def weight_as(w, form):
    if w is None or isinstance(w, str):
        return w
    return {"list": list, "tuple": tuple, "array": np.array}[form](w)


def average(v, w, axis):
    w = np.ones(v.shape[axis]) if w is None else np.asarray(w, float)
    return np.tensordot(v, w / w.sum(), axes=(axis, 0))


@sub(case(), quick=900, thorough=20000, shards=2)
def errors(c, t):
    warnings.filterwarnings("ignore")
    rng = np.random.RandomState(c["seed"])
    scale = {"int": 3, "float": 2, "big": 1e4}[c["kind"]]
    shape = c["n"], c["sz"], c["d"]
    A, B = (scale * rng.standard_normal(shape) for _ in range(2))
    T = scale * rng.standard_normal((c["tn"], c["tsz"], c["d"]))
    T += np.arange(c["d"]) * scale * np.arange(c["tsz"])[:, None]
    if c["kind"] == "int" or c["form"] == "int":
        A, B, T = np.round(A), np.round(B), np.round(T)
    a, b, tr = (given_as(X, c["form"]) for X in (A, B, T))
    kw = {"ts_weights": weight_as(c["wi"], c["wform"]),
          "timestamps_weights": weight_as(c["wt"], c["wform"]),
          "multioutput": weight_as(c["mo"], c["wform"])}
    if c["default"]:
        kw = {k: v for k, v in kw.items() if v is not None
              and not (isinstance(v, str) and v == "uniform_average")}

    def agg(E):
        v = average(average(E, c["wi"], 0), c["wt"], 0)
        if isinstance(c["mo"], str):
            return v if c["mo"] == "raw_values" else v.mean()
        return average(v, c["mo"], 0)
    want_mae, want_mse = agg(np.abs(A - B)), agg((A - B) ** 2)
    t.close(perf.mae(a, b, **kw), want_mae, "mae", rtol=1e-9, atol=1e-12)
    t.close(perf.mse(a, b, **kw), want_mse, "mse", rtol=1e-9, atol=1e-12)
    t.close(perf.mae(b, a, **kw), want_mae, "mae swapped", rtol=1e-9,
            atol=1e-12)
    t.close(perf.mae(a, a, **kw), 0 * want_mae, "mae of itself", atol=1e-12)
    # scaled by the error of the naive seasonal forecast of the training data
    N = np.abs(T[:, c["m"]:] - T[:, :-c["m"]])
    naive = N.mean(axis=(0, 1)) if isinstance(c["mo"], str) \
        and c["mo"] == "raw_values" else N.mean()
    if np.min(naive) > 0:
        if c["m"] != 1 or not c["default"]:
            kw["seasonal_period"] = c["m"]
        t.close(np.asarray(perf.mase(a, b, tr, **kw)), want_mae / naive,
                "mase", rtol=1e-9, atol=1e-12)
        # the naive forecast of its own training data has error 1
        if c["form"] != "one" and isinstance(c["mo"], str):
            m = c["m"]
            t.close(np.asarray(perf.mase(
                tr[:, m:] if c["form"] != "list" else T[:, m:],
                tr[:, :-m] if c["form"] != "list" else T[:, :-m], tr,
                seasonal_period=m, multioutput=c["mo"])),
                np.ones(c["d"]) if c["mo"] == "raw_values" else 1.0,
                "mase of the naive forecast", rtol=1e-9)
    if c["form"] == "array":
        t.equal(a, A, "y_true modified")
        t.equal(b, B, "y_pred modified")
        t.equal(tr, T, "train_data modified")
    t.label("weighted features", not isinstance(c["mo"], str))
    uneven = any(w is not None and not isinstance(w, str)
                 and len(set(w)) > 1 for w in (c["wi"], c["wt"], c["mo"]))
    t.nt(uneven and np.any(A != B))


@sub(case(), quick=60, thorough=400)
def refusals(c, t):
    A = np.random.RandomState(c["seed"]).standard_normal(
        (c["n"], c["sz"], c["d"]))
    for f in (perf.mae, perf.mse):
        t.raises(ValueError, lambda: f(A, A[:, :, :1].repeat(
            c["d"] + 1, axis=2)), "other features")
        t.raises(ValueError, lambda: f(A, np.concatenate([A, A])),
                 "other number of series")
        t.raises(ValueError, lambda: f(A, np.concatenate([A, A], axis=1)),
                 "other length")
        t.raises(ValueError, lambda: f(A, A, ts_weights=np.ones(c["n"] + 1)),
                 "other number of weights")
        t.raises((ValueError, RuntimeError), lambda: f(
            A, A, timestamps_weights=np.ones(c["sz"] + 1)),
            "other number of weights")
    t.nt()
