"""C01: whatever its form, a dataset is formatted to (n, max length, d)."""
import numpy as np
from hypothesis import strategies as st

from tslearn.utils import (check_dataset, check_dims, check_equal_size,
                           check_variable_length_input, to_sklearn_dataset,
                           to_time_series, to_time_series_dataset, ts_size,
                           ts_zeros)

from .. import gen
from ..core import sub, _arr

PROPERTY = "C01"
RULE = ("Ragged datasets of 1-5 series (1-6 timestamps, 1-3 features) with NaN "
        "cells, interior all-NaN timestamps and trailing NaN padding, offered "
        "as lists, nested lists, arrays, tensors, data frames. Non-trivial: at "
        "least two series of different lengths, or a NaN inside a series.")


@st.composite
def datasets(draw, d=None):
    """(values incl. NaN, extra padding per series)"""
    A = draw(gen.dataset(1, 5, 1, 6, d, large=80))
    out, pads = [], []
    nans = draw(st.sampled_from([0, 0, 1, 2]))
    for a in A:
        a = a.copy()
        if nans == 1 and a.size > 1:
            for _ in range(draw(st.integers(0, 2))):
                a.flat[draw(st.integers(0, a.size - 1))] = np.nan
        if nans == 2 and len(a) > 1:
            a[draw(st.integers(0, len(a) - 1))] = np.nan
        out.append(a)
        pads.append(draw(st.sampled_from([0, 0, 0, 1, 2])))
    return {"A": out, "pads": pads}


def size(a):
    n = len(a)
    while n and np.isnan(a[n - 1]).all():
        n -= 1
    return n


def padded(c):
    return [np.vstack([a, np.full((p, a.shape[1]), np.nan)])
            for a, p in zip(c["A"], c["pads"])]


def expected(L):
    sizes = [size(a) for a in L]
    X = np.full((len(L), max(sizes), L[0].shape[1]), np.nan)
    for i, (a, n) in enumerate(zip(L, sizes)):
        X[i, :n] = a[:n]
    return X


FORMS = ["arrays", "lists", "flat_arrays", "flat_lists", "tuple", "padded",
         "tensors", "tensor", "f32", "object"]


def offer(L, form):
    """The same dataset in another form (None if it has no such form)."""
    import torch
    d = L[0].shape[1]
    if form == "arrays":
        return L
    if form == "f32":
        return [a.astype(np.float32) for a in L]
    if form == "lists":
        return [a.tolist() for a in L]
    if form == "tuple":
        return tuple(tuple(map(tuple, a.tolist())) for a in L)
    if form == "padded":
        n = max(map(len, L))
        return gen.pad(L, n)
    if form == "tensors":
        return [torch.tensor(a) for a in L]
    if form == "tensor":
        return torch.tensor(gen.pad(L))
    if form == "object":
        out = np.empty(len(L), dtype=object)
        for i, a in enumerate(L):
            out[i] = a
        return out
    if d != 1:
        return None
    if form == "flat_arrays":
        return [a.ravel() for a in L]
    return [a.ravel().tolist() for a in L]


@sub(st.fixed_dictionaries({"c": datasets(), "form": st.sampled_from(FORMS),
                            "be": gen.BACKENDS}), quick=1200, shards=2)
def formatted(c, t):
    import torch
    L, form, be = padded(c["c"]), c["form"], c["be"]
    want = expected(L)
    data = offer(L, form)
    if data is None or want.shape[1] == 0:
        return
    if form == "object" and be == "pytorch":
        return
    if form in ("tensors", "tensor") and be == "numpy":
        be = "pytorch"
    tol = dict(rtol=1e-6, atol=1e-6) if form == "f32" else dict(rtol=0, atol=0)
    got = to_time_series_dataset(data, be=be)
    torchy = be == "pytorch" or (be is None and form in ("tensor", "tensors"))
    t.ok(torch.is_tensor(got) == torchy, "backend of the result", got=type(got))
    t.close(got, want, "formatted dataset", form=form, **tol)
    t.ok(str(got.dtype).endswith("float64"), "dtype", got=got.dtype)
    t.equal(to_time_series_dataset(got, be=be), _arr(got), "idempotent")
    for a, row in zip(L, got):
        n = size(a)
        t.ok(ts_size(row, be=be) == n, "ts_size of the row", want=n)
        one = to_time_series(row, remove_nans=True, be=be)
        t.close(one, a[:n], "to_time_series(remove_nans)", **tol)
        t.close(to_time_series(row, be=be), _arr(row), "to_time_series")
    t.nt(len(set(map(size, L))) > 1 or any(
        np.isnan(a[:size(a)]).any() for a in L))
    t.label("form:" + form)


@sub(datasets(), quick=500)
def sizes_and_checks(c, t):
    L = padded(c)
    X = expected(L)
    if X.shape[1] == 0:
        return
    sizes = [size(a) for a in L]
    for a, n in zip(L, sizes):
        t.ok(ts_size(a) == n, "ts_size", want=n)
        if a.shape[1] == 1:
            t.ok(ts_size(a.ravel()) == n, "ts_size of a flat series")
            t.ok(ts_size(a.ravel().tolist()) == n, "ts_size of a list")
    eq = len(set(sizes)) == 1
    t.ok(bool(check_equal_size(L)) == eq, "check_equal_size", sizes=sizes)
    t.ok(bool(check_equal_size(gen.pad(L))) == eq, "check_equal_size padded")
    uni, single = X.shape[2] == 1, len(L) == 1
    for fu in (False, True):
        for fe in (False, True):
            for fs in (False, True):
                kw = dict(force_univariate=fu, force_equal_length=fe,
                          force_single_time_series=fs)
                good = ((uni or not fu) and (eq or not fe)
                        and (single or not fs))
                if good:
                    t.equal(check_dataset(L, **kw), X, "check_dataset")
                else:
                    t.raises(ValueError, lambda: check_dataset(L, **kw),
                             "check_dataset %r" % kw)
    S, d = to_sklearn_dataset(L, return_dim=True)
    t.ok(d == X.shape[2], "dimension", got=d)
    t.equal(S, X.reshape(len(L), -1), "to_sklearn_dataset")
    t.equal(to_sklearn_dataset(L), S, "to_sklearn_dataset, no dimension")
    if not np.isnan(np.concatenate([a.ravel() for a in L])).any():
        t.equal(check_variable_length_input(L), X,
                "check_variable_length_input")
    t.equal(check_variable_length_input(X), X, "check_variable_length_input")
    t.nt(not eq)


@sub(st.fixed_dictionaries({
    "a": gen.series(1, 6), "be": gen.BACKENDS,
    "dtype": st.sampled_from(["float64", "float32", "int64", "int32"])}),
    quick=400)
def single_series(c, t):
    """A lone series is a dataset of one; dtypes are honoured; nothing else
    than the type changes."""
    import torch
    a, be, dt = c["a"], c["be"], c["dtype"]
    if "int" in dt:
        a = np.round(a)
    d_ = getattr(torch if be == "pytorch" else np, dt)
    got = to_time_series(a, be=be, dtype=d_)
    t.ok(str(got.dtype).endswith(dt), "dtype", got=got.dtype)
    t.close(got, a.astype(dt), "values", rtol=1e-6)
    src = a.astype(dt)
    back = to_time_series(src, be=be)
    t.ok(str(back.dtype).endswith("float64"), "default dtype", got=back.dtype)
    t.equal(back, src.astype(float), "values from another dtype")
    f = a[:, 0]
    for form in (f, f.tolist(), torch.tensor(f)):
        b = "pytorch" if torch.is_tensor(form) and be == "numpy" else be
        X = to_time_series_dataset(form, be=b)
        t.equal(X, f.reshape(1, -1, 1), "single series wrapped")
        t.equal(to_time_series(form, be=b), f.reshape(-1, 1), "single series")
    X = to_time_series_dataset([a], dtype=d_ if "float" in dt else float,
                               be=be)
    t.close(X, a[None], "list of one", rtol=1e-6, atol=1e-6)
    if "float" in dt:
        t.ok(str(X.dtype).endswith(dt), "dataset dtype", got=X.dtype)
    t.equal(ts_zeros(*a.shape), np.zeros(a.shape), "ts_zeros")
    t.ok(to_time_series_dataset([], be=be).shape == (0, 0, 0), "empty dataset")
    t.nt(len(a) > 1)


@sub(st.fixed_dictionaries({
    "a": gen.dataset(1, 4, 1, 5, 1, variable=False),
    "nan": st.booleans()}), quick=150)
def data_frame(c, t):
    import pandas as pd
    L = c["a"]
    X = gen.pad(L)[:, :, 0]
    if c["nan"] and X.shape[1] > 1:
        X[0, -1] = np.nan
    got = to_time_series_dataset(pd.DataFrame(X))
    want = expected([x[:, None] for x in X])
    t.equal(got, want, "data frame: rows are series")
    t.nt(X.size > 1)


@sub(st.fixed_dictionaries({
    "shape": st.tuples(*[st.integers(1, 4)] * 3),
    "fit": st.one_of(st.none(), st.tuples(*[st.integers(1, 4)] * 3)),
    "flat": st.booleans(), "nf": st.booleans()}), quick=400)
def dims(c, t):
    X = np.arange(np.prod(c["shape"]), dtype=float).reshape(c["shape"])
    if c["flat"]:
        X = X[:, :, 0]
    want = X.reshape(X.shape[0], X.shape[1], -1)
    fit = c["fit"]
    good = fit is None or (want.shape[2] == fit[2] if c["nf"]
                           else want.shape[1:] == fit[1:])
    call = lambda: check_dims(X, X_fit_dims=fit,  # noqa: E731
                              check_n_features_only=c["nf"])
    if good:
        t.equal(call(), want, "check_dims")
    else:
        t.raises(ValueError, call, "check_dims")
    t.equal(check_dims(X, extend=False), X, "check_dims(extend=False)")
    t.raises(ValueError, lambda: check_dims(None), "check_dims(None)")
    t.nt(fit is not None)
