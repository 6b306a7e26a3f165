"""C04: conversions to and from third-party formats are inverse."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from tslearn import utils as U

from .. import gen
from ..core import sub

PROPERTY = "C04"
RULE = ("Datasets of 1-5 series (1-6 timestamps, 1-3 features), ragged where "
        "the target format allows it. Non-trivial: several series and more "
        "than one feature or length.")
D = gen.dataset(1, 5, 1, 6, large=30)


def as_input(A, form):
    if form == "lists":
        return [a.tolist() for a in A]
    if form == "flat" and A[0].shape[1] == 1:
        return [a.ravel().tolist() for a in A]
    return A if form == "arrays" else gen.pad(A)


FORM = st.sampled_from(["arrays", "lists", "padded", "flat"])
GAPS = st.one_of(st.just([]), st.lists(st.integers(0, 89), max_size=12))


def with_gaps(A, gaps):
    """Missing values anywhere but in one cell of the last timestamp."""
    A = [a.copy() for a in A]
    for g in gaps:
        a = A[g % len(A)]
        k = g // len(A) % a.size
        if k != a.size - 1 - g % a.shape[1]:
            keep = a.flat[k]
            a.flat[k] = np.nan
            if np.isnan(a[-1]).all():
                a.flat[k] = keep
    return A


@sub(st.fixed_dictionaries({"A": D, "form": FORM, "gaps": GAPS}), quick=600,
     shards=2)
def ragged_formats(c, t):
    A = with_gaps(c["A"], c["gaps"])
    P = gen.pad(A)
    t.label("gaps" if c["gaps"] else "complete")
    X = as_input(A, c["form"])
    d = A[0].shape[1]
    s = U.to_seglearn_dataset(A if len({len(a) for a in A}) == 1 else X)
    t.ok(len(s) == len(A), "seglearn: number of series")
    for a, b in zip(A, s):
        t.equal(np.asarray(b, dtype=float), a, "seglearn series")
    t.equal(U.from_seglearn_dataset(s), P, "seglearn round trip")
    s = U.to_stumpy_dataset(X)
    for a, b in zip(A, s):
        t.equal(b, a.ravel() if d == 1 else a.T, "stumpy series")
    t.equal(U.from_stumpy_dataset(s), P, "stumpy round trip")
    s = U.to_sktime_dataset(X)
    t.ok(list(s.columns) == ["dim_%d" % i for i in range(d)], "sktime columns")
    for i, a in enumerate(A):
        for k in range(d):
            t.equal(s["dim_%d" % k][i].values, a[:, k], "sktime cell")
    t.equal(U.from_sktime_dataset(s), P, "sktime round trip")
    s = U.to_tsfresh_dataset(X)
    for i, a in enumerate(A):
        rows = s[s["id"] == i]
        t.equal(rows["time"].values.astype(int), np.arange(len(a)), "time")
        for k in range(d):
            t.equal(rows["dim_%d" % k].values.astype(float), a[:, k],
                    "tsfresh rows")
    t.equal(U.from_tsfresh_dataset(s), P, "tsfresh round trip")
    t.nt(len(A) > 1 and (d > 1 or len({len(a) for a in A}) > 1))


@sub(st.fixed_dictionaries({  # cesium itself refuses one-point series
    "A": gen.dataset(1, 5, 2, 6), "form": FORM, "gaps": GAPS}), quick=150)
def cesium(c, t):
    A = with_gaps(c["A"], c["gaps"])
    P = gen.pad(A)
    s = U.to_cesium_dataset(as_input(A, c["form"]))
    d = A[0].shape[1]
    for a, b in zip(A, s):
        m = np.asarray(b.measurement, dtype=float)
        t.equal(m, a.ravel() if d == 1 else a.T, "cesium measurements")
    t.equal(U.from_cesium_dataset(s), P, "cesium round trip")
    t.nt(len(A) > 1)


@sub(st.fixed_dictionaries({
    "A": gen.dataset(1, 5, 1, 6, variable=False), "B": D, "form": FORM,
    "gaps": GAPS}),
    quick=400)
def equal_length_formats(c, t):
    A, P = c["A"], gen.pad(c["A"])
    X = as_input(A, c["form"])
    d = P.shape[2]
    s = U.to_pyts_dataset(X)
    t.equal(s, P[:, :, 0] if d == 1 else P.transpose(0, 2, 1), "pyts layout")
    t.equal(U.from_pyts_dataset(s), P, "pyts round trip")
    if d > 1:
        t.raises(ValueError, lambda: U.from_pyts_dataset(P[0, 0]), "1d pyts")
    B = c["B"]
    if len({len(b) for b in B}) > 1:
        t.raises(ValueError, lambda: U.to_pyts_dataset(B), "ragged to pyts")
    if len(B) > 1:
        t.raises(ValueError, lambda: U.to_pyflux_dataset(B),
                 "several series to pyflux")
    A = with_gaps(A, c["gaps"])  # pyts refuses missing values
    P = gen.pad(A)
    one = A[:1]
    X = as_input(one, c["form"])
    f = U.to_pyflux_dataset(X)
    t.ok(list(f.columns) == ["dim_%d" % i for i in range(d)], "columns")
    t.equal(f.values, A[0], "pyflux frame")
    t.equal(U.from_pyflux_dataset(f), P[:1], "pyflux round trip")
    bare = np.vstack([A[0], np.full((1, d), np.nan)])[None]
    t.equal(U.to_pyflux_dataset(bare).values, A[0], "padded single series")
    if d == 1:
        t.equal(U.to_pyflux_dataset(A[0].ravel()).values, A[0], "bare series")
    t.nt(P.size > 1)


@sub(st.fixed_dictionaries({
    "A": D, "gaps": GAPS, "perm": st.permutations(list(range(20))),
    "ids": st.sampled_from(["range", "strings", "big", "shuffled"])}),
    quick=250)
def foreign_tsfresh(c, t):
    """Frames built by hand: identifiers need not be 0..n-1, and series come
    out in the order in which their identifiers appear."""
    A = with_gaps(c["A"], c["gaps"])
    n, d = len(A), A[0].shape[1]
    ids = {"range": list(range(n)), "strings": ["s%d" % (7 * i % 53)
                                                for i in range(n)],
           "big": [10 ** 6 * (n - i) for i in range(n)],
           "shuffled": list(c["perm"])[:n]}[c["ids"]]
    rows = [dict({"id": ids[i], "time": k},
                 **{"dim_%d" % j: a[k, j] for j in range(d)})
            for i, a in enumerate(A) for k in range(len(a))]
    t.equal(U.from_tsfresh_dataset(pd.DataFrame(rows)), gen.pad(A),
            "order of appearance", ids=ids)
    t.nt(n > 1)


@sub(st.fixed_dictionaries({"A": D}), quick=60)
def wrong_types(c, t):
    A = c["A"]
    for f in (U.from_sktime_dataset, U.from_tsfresh_dataset,
              U.from_pyflux_dataset, U.from_cesium_dataset):
        t.raises(ValueError, lambda: f(gen.pad(A)), f.__name__)
    t.raises(ValueError, lambda: U.from_cesium_dataset(list(A)),
             "arrays for cesium series")
    mixed = U.to_cesium_dataset([[1.0, 2.0, 4.0]]) + [A[0]]
    t.raises(ValueError, lambda: U.from_cesium_dataset(mixed),
             "an array among cesium series")
    s = U.to_sktime_dataset(A)
    s = s.rename(columns={"dim_0": "dim_7"})
    t.raises(ValueError, lambda: U.from_sktime_dataset(s), "gap in columns")
    t.nt(len(A) > 1)
