"""Shared Hypothesis strategies (plain data only: arrays, lists, scalars)."""
import numpy as np
from hypothesis import strategies as st

INTS = st.integers(-3, 3).map(float)
FLOATS = st.floats(-8, 8, allow_nan=False, allow_infinity=False,
                   allow_subnormal=False).map(lambda x: x if abs(x) > 1e-6 else 0.0)
BIG = st.floats(-1e3, 1e3, allow_nan=False, allow_infinity=False,
                allow_subnormal=False).map(lambda x: x if abs(x) > 1e-3 else 0.0)


def _vals(kind):
    return {"int": INTS, "float": FLOATS, "big": BIG}[kind]


# Numbers of features
DIMS = st.sampled_from([1, 1, 1, 1, 2, 2, 2, 3, 3, 5])

KIND = st.sampled_from(["int", "float", "float", "int", "big"])
KIND_S = st.sampled_from(["int", "float", "float"])


@st.composite
def series(draw, min_sz=1, max_sz=8, d=None, kind=None):
    """One series, shape (sz, d)."""
    if d is None:
        d = draw(DIMS)
    if kind is None:
        kind = draw(KIND)
    sz = draw(st.integers(min_sz, max_sz))
    v = draw(st.lists(_vals(kind), min_size=sz * d, max_size=sz * d))
    return np.array(v, dtype=float).reshape(sz, d)


def _rand(seed, n, d, kind):
    rng = np.random.RandomState(seed)
    a = rng.standard_normal((n, d)) * {"int": 2, "float": 3, "big": 300}[kind]
    if seed % 2:
        a = np.cumsum(a, axis=0)
    return np.round(a) if kind == "int" else a


@st.composite
def pair(draw, min_sz=1, max_sz=8, d=None, kind=None, equal=None, large=0):
    """Two series with the same number of features."""
    if large and draw(st.integers(0, 7)) == 7:
        d = draw(DIMS) if d is None else d
        kind = draw(KIND) if kind is None else kind
        n = draw(st.integers(max_sz, large))
        m = n if equal or draw(st.integers(0, 2)) == 0 else draw(
            st.integers(min_sz, large))
        if equal is None and draw(st.booleans()):
            n, m = m, n
        s = draw(st.integers(0, 10 ** 6))
        return _rand(s, n, d, kind), _rand(s + 2, m, d, kind)
    if d is None:
        d = draw(DIMS)
    if kind is None:
        kind = draw(KIND)
    a = draw(series(min_sz, max_sz, d, kind))
    if equal is None:
        equal = draw(st.integers(0, 2)) == 0
    lo, hi = (len(a), len(a)) if equal else (min_sz, max_sz)
    b = draw(series(lo, hi, d, kind))
    return a, b


@st.composite
def dataset(draw, min_n=1, max_n=4, min_sz=1, max_sz=6, d=None, kind=None,
            variable=None, large=0):
    """A list of series with the same number of features; with `large`, now
    and then many of them of up to that many timestamps."""
    if d is None:
        d = draw(DIMS)
    if kind is None:
        kind = draw(KIND)
    if large and draw(st.integers(0, 11)) == 11:
        n = draw(st.integers(max_n, 4 * max_n))
        seed = draw(st.integers(0, 10 ** 6))
        rng = np.random.RandomState(seed)
        if variable is None:
            variable = draw(st.booleans())
        top = draw(st.integers(max_sz, large))
        sizes = rng.randint(min_sz, top + 1, n) if variable else [top] * n
        return [_rand(seed + i, sz, d, kind) for i, sz in enumerate(sizes)]
    n = draw(st.integers(min_n, max_n))
    if variable is None:
        variable = draw(st.booleans())
    sz = draw(st.integers(min_sz, max_sz))
    out = []
    for _ in range(n):
        s = draw(st.integers(min_sz, max_sz)) if variable else sz
        out.append(draw(series(s, s, d, kind)))
    return out


# Itakura slopes: see C06 for the exhaustive treatment of the mask itself.
SLOPES = st.sampled_from([1.0, 1.2, 1.5, 2.0, 2.0, 2.5, 3.0, 5.0, 10.0])


@st.composite
def constraint(draw, itakura=True):
    """Keyword arguments selecting a global constraint (or none)."""
    modes = ["none", "sakoe", "sakoe", "sakoe_implicit", "sakoe_default"]
    if itakura:
        modes += ["itakura", "itakura", "itakura_implicit", "itakura_default",
                  "both_sakoe", "both_itakura"]
    m = draw(st.sampled_from(modes))
    r = draw(st.integers(0, 4))
    s = draw(SLOPES)
    return {
        "none": {},
        "sakoe": {"global_constraint": "sakoe_chiba", "sakoe_chiba_radius": r},
        "sakoe_implicit": {"sakoe_chiba_radius": r},
        "sakoe_default": {"global_constraint": "sakoe_chiba"},
        "itakura": {"global_constraint": "itakura", "itakura_max_slope": s},
        "itakura_implicit": {"itakura_max_slope": s},
        "itakura_default": {"global_constraint": "itakura"},
        "both_sakoe": {"global_constraint": "sakoe_chiba",
                       "sakoe_chiba_radius": r, "itakura_max_slope": s},
        "both_itakura": {"global_constraint": "itakura",
                         "sakoe_chiba_radius": r, "itakura_max_slope": s},
    }[m]


BACKENDS = st.sampled_from([None, "numpy", "pytorch"])


@st.composite
def seeded(draw, min_n=3, max_n=12, min_sz=3, max_sz=10, d=None,
           variable=False, large=False):
    """Parameters of a bulk dataset; expand with `bulk` (pure function)."""
    if large and draw(st.integers(0, 15)) == 15:
        min_n, max_n, max_sz = max_n, 3 * max_n, 4 * max_sz
    return {
        "seed": draw(st.integers(0, 2 ** 31 - 1)),
        "n": draw(st.integers(min_n, max_n)),
        "sz": draw(st.integers(min_sz, max_sz)),
        "d": draw(DIMS) if d is None else d,
        "variable": draw(st.booleans()) if variable is None else variable,
        "kind": draw(st.sampled_from(["normal", "walk", "classes", "ints",
                                      "offset"])),
        "min_sz": min_sz,
    }


def bulk(p):
    """Expand `seeded` parameters to (X with NaN padding, y)."""
    rng = np.random.RandomState(p["seed"])
    n, sz, d = p["n"], p["sz"], p["d"]
    X = rng.standard_normal((n, sz, d))
    y = rng.randint(0, 2, n)
    y[0], y[-1] = 0, 1
    k = p["kind"]
    if k == "walk":
        X = np.cumsum(X, axis=1)
    elif k == "classes":
        y = np.arange(n) % 2
        X = 0.4 * X + 2.0 * y[:, None, None] * np.sin(
            np.arange(sz))[None, :, None] + y[:, None, None]
    elif k == "ints":
        X = np.round(2 * X)
        X += 0.01 * rng.standard_normal(X.shape)
    elif k == "offset":
        X = 5 * X + 20
    if p["variable"]:
        lens = rng.randint(min(p["min_sz"], sz), sz + 1, n)
        lens[rng.randint(n)] = sz
        for i, L in enumerate(lens):
            X[i, L:] = np.nan
    return X, y


def lens(X):
    """Lengths of the series of a NaN-padded dataset (trailing all-NaN)."""
    out = []
    for x in np.asarray(X):
        m = ~np.all(np.isnan(x), axis=-1)
        out.append(int(np.max(np.nonzero(m)[0])) + 1 if m.any() else 0)
    return out


def pad(list_of_series, sz=None):
    n = len(list_of_series)
    sz = max(len(s) for s in list_of_series) if sz is None else sz
    d = list_of_series[0].shape[1]
    X = np.full((n, sz, d), np.nan)
    for i, s in enumerate(list_of_series):
        X[i, :len(s)] = s
    return X


# Exponents of a change of unit by a power of two, exact in floating point.
UNITS = st.integers(-80, 80).filter(lambda k: k != 0)


def unit_tol(want):
    """Tolerances for a result in another unit: relative to its magnitude."""
    a = np.abs(np.asarray(want, dtype=float))
    a = a[np.isfinite(a)]
    return {"rtol": 1e-9, "atol": 1e-11 * float(a.max()) if a.size else 0.0}
