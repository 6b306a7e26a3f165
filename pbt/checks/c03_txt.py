"""C03: saving series to text and loading them back loses nothing."""
import os
import tempfile

import numpy as np
from hypothesis import strategies as st

from tslearn import utils as U

from .. import gen
from ..core import sub

PROPERTY = "C03"
RULE = ("Datasets of 1-5 series of different lengths (1-6 timestamps, 1-3 "
        "features) with NaN cells and values over the whole float range. "
        "Non-trivial: several lengths or features, or a value that is not a "
        "small integer.")
ANY = st.floats(allow_nan=False, allow_infinity=False)


@st.composite
def datasets(draw):
    d = draw(st.sampled_from([1, 1, 2, 3, 12]))
    vals = draw(st.sampled_from(["any", "float", "int", "nan"]))
    v = {"any": ANY, "float": gen.FLOATS, "int": gen.INTS,
         "nan": st.one_of(ANY, st.just(float("nan")))}[vals]
    A = []
    for _ in range(draw(st.integers(1, 5))):
        n = draw(st.integers(1, 6))
        a = np.array(draw(st.lists(v, min_size=n * d, max_size=n * d)))
        a = a.reshape(n, d)
        if np.isnan(a[-1]).all():
            a[-1, 0] = 1.5
        A.append(a)
    return A


@sub(datasets(), quick=900, shards=2)
def round_trip(A, t):
    with tempfile.TemporaryDirectory(prefix="verif-txt-") as tmp:
        f = os.path.join(tmp, "d.txt")
        for src in (A, gen.pad(A)):
            U.save_time_series_txt(f, src)
            got = U.load_time_series_txt(f)
            t.equal(got, gen.pad(A), "load(save(dataset))")
        U.save_timeseries_txt(f, got)
        t.equal(U.load_timeseries_txt(f), got, "aliases")
        with open(f) as h:
            t.ok(len(h.read().splitlines()) == len(A), "one line per series")
    for a in A:
        s = U.time_series_to_str(a)
        t.equal(U.str_to_time_series(s), a, "str_to(to_str(series))")
        t.ok(s.count("|") == a.shape[1] - 1, "one field per feature")
        t.equal(U.str_to_timeseries(U.timeseries_to_str(a)), a, "aliases")
        if a.shape[1] == 1:
            t.ok(U.time_series_to_str(a.ravel()) == s, "flat series")
    t.nt(len({len(a) for a in A}) > 1 or A[0].shape[1] > 1)


@sub(st.fixed_dictionaries({"a": gen.series(1, 6),
                            "k": st.integers(0, 8)}), quick=200)
def formats(c, t):
    """A chosen print format only rounds the values."""
    a, k = c["a"], c["k"]
    for fmt, err in (("%%.%df" % k, 0.5 * 10.0 ** -k),):
        s = U.time_series_to_str(a, fmt=fmt)
        t.close(U.str_to_time_series(s), a, "rounded", rtol=1e-12,
                atol=err * 1.001)
        fields = [[fmt % v for v in col] for col in a.T]
        t.ok(s == "|".join(" ".join(x) for x in fields), "layout", got=s)
        with tempfile.TemporaryDirectory(prefix="verif-txt-") as tmp:
            f = os.path.join(tmp, "d.txt")
            U.save_time_series_txt(f, [a], fmt=fmt)
            with open(f) as h:
                t.ok(h.read() == s + "\n", "file layout")
    t.nt(len(a) > 1)
