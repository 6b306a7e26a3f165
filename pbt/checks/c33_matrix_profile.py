"""C33: matrix profiles against the definition, for both implementations."""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..core import sub

PROPERTY = "C33"
RULE = "some segment has a match outside its exclusion zone"
WARM = ["stump"]


@st.composite
def dataset(draw, max_sz=24):
    n = draw(st.integers(1, 3))
    sz = draw(st.integers(1, max_sz))
    kind = draw(st.sampled_from(["normal", "walk", "ints", "steps", "offset"]))
    p = {"seed": draw(st.integers(0, 10 ** 6)), "n": n, "sz": sz,
         "kind": kind, "cut": [draw(st.integers(0, 6)) if draw(
             st.integers(0, 2)) == 0 else 0 for _ in range(n)]}
    if n == 1 or min(p["cut"]) > 0:
        p["cut"][0] = 0
    p["holes"] = draw(st.lists(st.integers(0, n * sz - 1), max_size=2)) \
        if draw(st.integers(0, 3)) == 0 else []
    return p


def expand(p):
    rng = np.random.RandomState(p["seed"])
    X = rng.standard_normal((p["n"], p["sz"]))
    if p["kind"] == "walk":
        X = np.cumsum(X, axis=1)
    elif p["kind"] == "ints":
        X = np.round(X)
    elif p["kind"] == "steps":  # constant segments
        X = np.repeat(np.round(3 * X[:, ::4]), 4, axis=1)[:, :p["sz"]]
    elif p["kind"] == "offset":
        X = 10 * X + 50
    for k in p["holes"]:
        X[k // p["sz"], k % p["sz"]] = np.nan
    for i, c in enumerate(p["cut"]):
        if c:
            X[i, max(1, p["sz"] - c):] = np.nan
    return X


def ref(x, m, scale):
    """Distance of each segment to its nearest one, at least ceil(m/4)+1 off."""
    n = len(x) - m + 1
    S = [x[i:i + m] for i in range(n)]
    if scale:
        S = [(s - s.mean()) / s.std() if np.ptp(s) > 0 else
             (np.zeros(m) if np.ptp(s) == 0 else s * np.nan) for s in S]
    zone = -(-m // 4)
    out = np.full(n, np.inf)
    for i in range(n):
        for j in range(n):
            if abs(i - j) > zone:
                d = np.sqrt(((S[i] - S[j]) ** 2).sum())
                if d < out[i]:
                    out[i] = d
    return out


@st.composite
def case(draw, low=1):
    p = draw(dataset())
    p["sz"] = max(p["sz"], low)
    return {"p": p, "m": draw(st.integers(low, min(p["sz"], 10))),
            "scale": draw(st.booleans()), "split": draw(st.booleans()),
            "other": draw(st.integers(2, 9))}


def judge(c, t, impl, rtol, atol):
    from tslearn.matrix_profile import MatrixProfile
    X = expand(c["p"])
    m = c["m"]
    want = np.array([ref(x, m, c["scale"]) for x in X])
    mp = MatrixProfile(subsequence_length=m, implementation=impl,
                       scale=c["scale"])
    X3 = X[:, :, None].copy()
    if c["split"]:  # fitted on other series
        mp.fit(np.arange(float(c["other"] * 2)).reshape(2, c["other"], 1))
        got = mp.transform(X3)
    else:
        got = mp.fit_transform(X3)
    t.equal(X3[:, :, 0], X, "series unchanged")
    t.equal(got.shape, (len(X), X.shape[1] - m + 1, 1), "shape")
    got = got[:, :, 0]
    t.equal(np.isinf(got), np.isinf(want), "segments without any match",
            profile=got, expected=want)
    f = np.isfinite(want)
    t.close(got[f], want[f], "matrix profile", rtol=rtol, atol=atol)
    t.nt(f.any())
    t.label("constant segments", c["p"]["kind"] == "steps" and m < 4)
    t.label("missing values", bool(np.isnan(X).any()))
    t.label("not scaled", not c["scale"])
    if len(X) > 1:
        one = mp.transform(X3[-1:])[0, :, 0]
        t.equal(one, got[-1], "each series alone")


@sub(case(), quick=700, thorough=15000, shards=4)
def numpy_profile(c, t):
    judge(c, t, "numpy", 1e-7, 1e-6)


@sub(case(low=3), quick=250, thorough=5000, shards=3)
def stump(c, t):
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            import stumpy  # noqa
        except ImportError:
            t.label("stumpy is not installed")
            return
        judge(c, t, "stump", 1e-5, 2e-5)


@sub(st.tuples(dataset(8), st.integers(2, 3)), quick=40, thorough=200)
def refusals(c, t):
    from tslearn.matrix_profile import MatrixProfile
    X = np.repeat(expand(c[0])[:, :, None], c[1], axis=2)
    if np.isnan(X).all(axis=(1, 2)).any():
        return
    t.raises(NotImplementedError,
             lambda: MatrixProfile(1).fit_transform(X), "several features")
    t.raises(ValueError, lambda: MatrixProfile(
        1, implementation="scipy").fit_transform(X[:, :, :1]),
        "unknown implementation")
    mp = MatrixProfile(1).fit(X[:, :, :1])
    t.raises(ValueError, lambda: mp.transform(X), "other features")
    t.nt()


@sub(st.tuples(case(low=3), gen.UNITS), quick=120, thorough=2000)
def units(c, t):
    """The profile is in the unit of the series, or has none if normalised."""
    from tslearn.matrix_profile import MatrixProfile
    c, k = c
    s = 2.0 ** k
    X = expand(c["p"])
    X = X[:, :, None]
    mp = MatrixProfile(subsequence_length=c["m"], scale=c["scale"])
    want = mp.fit_transform(X) * (1.0 if c["scale"] else s)
    t.close(mp.fit_transform(s * X), want, "profile in another unit",
            **gen.unit_tol(want))
    t.nt(np.isfinite(want).any() and want[np.isfinite(want)].any())
