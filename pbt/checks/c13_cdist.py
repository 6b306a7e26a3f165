"""C13: cross-distance matrices hold the pairwise values."""
import math

import numpy as np
from hypothesis import strategies as st

import tslearn.metrics as M

from .. import gen, ref
from ..core import sub, _arr

WARM = ["entries"]
PROPERTY = "C13"
RULE = ("Two datasets of 1-5 series of different lengths (1-7 timestamps, 1-3 "
        "features), as lists or padded arrays, one or both given, n_jobs in "
        "{None, 1, 2, 3, -1}, constraint or metric parameters, both backends. "
        "Non-trivial: at least 2x2 different entries.")

PAIRWISE = {
    "dtw": (M.cdist_dtw, M.dtw),
    "frechet": (M.cdist_frechet, M.frechet),
    "soft_dtw": (M.cdist_soft_dtw, M.soft_dtw),
    "soft_dtw_normalized": (M.cdist_soft_dtw_normalized, M.soft_dtw_normalized),
    "gak": (M.cdist_gak, M.gak),
}


@st.composite
def cases(draw):
    name = draw(st.sampled_from(sorted(PAIRWISE)))
    if name == "gak":
        kw = {"sigma": draw(st.sampled_from([0.5, 1.0, 3.0, 10.0]))}
    else:
        kw = draw(gen.constraint())
    if name.startswith("soft"):
        kw = dict(kw, gamma=draw(st.sampled_from([0.1, 1.0, 5.0])))
    d = draw(gen.DIMS)
    kind = draw(gen.KIND_S)
    return {"name": name, "kw": kw, "be": draw(gen.BACKENDS),
            "A": draw(gen.dataset(1, 5, 1, 7, d, kind, large=14)),
            "B": draw(st.one_of(st.none(), gen.dataset(1, 4, 1, 7, d, kind))),
            "form": draw(st.sampled_from(["list", "pad", "morepad", "lists"])),
            "n_jobs": draw(st.sampled_from([None, None, 1, 2, 3, -1]))}


def offer(A, form):
    if A is None or form == "list":
        return A
    if form == "lists":
        return [a.tolist() for a in A]
    return gen.pad(A, max(map(len, A)) + (2 if form == "morepad" else 0))


@sub(cases(), quick=900, shards=4)
def entries(c, t):
    cdist, pair = PAIRWISE[c["name"]]
    A, B, kw, be = c["A"], c["B"], c["kw"], c["be"]
    C = A if B is None else B
    args = [offer(A, c["form"])] + ([] if B is None
                                    else [offer(B, c["form"])])
    mkw = {k: v for k, v in kw.items() if k not in ("gamma", "sigma")}
    both = A if B is None else A + B

    def call():
        return cdist(*args, n_jobs=c["n_jobs"], be=be, **kw)
    if any(ref.mask(len(a), len(b), mkw) is None
           for a in both for b in both):
        # some pair (or, normalised, some series with itself) is refused
        return
    got = _arr(call())
    t.ok(got.shape == (len(A), len(C)), "shape", got=got.shape)
    want = np.array([[float(pair(a, b, be=be, **kw)) for b in C] for a in A])
    k = dict(rtol=1e-6, atol=1e-6)
    t.close(got, want, c["name"], **k)
    if B is None:
        t.close(got, _arr(cdist(args[0], args[0], n_jobs=c["n_jobs"], be=be,
                                **kw)), "given twice", **k)
        if ref.constraint_kind(mkw)[0] != "itakura":
            t.close(got, got.T, "symmetry", **k)
    else:
        t.close(_arr(cdist(args[1], args[0], n_jobs=None, be=be, **kw)),
                np.array([[float(pair(b, a, be=be, **kw)) for a in A]
                          for b in B]), "exchanged", **k)
    t.label(c["name"])
    t.label("n_jobs=%s" % c["n_jobs"])
    t.nt(len(np.unique(want)) >= 3)


@sub(st.fixed_dictionaries({
    "seed": st.integers(0, 10 ** 6), "n": st.integers(1, 5),
    "m": st.integers(0, 4), "sz": st.integers(1, 8), "d": st.integers(1, 3),
    "alpha": st.integers(2, 8), "orig": st.integers(1, 40),
    "n_jobs": st.sampled_from([None, 1, 2])}), quick=400)
def sax(c, t):
    """The SAX distance between symbol sequences."""
    from scipy.stats import norm
    rng = np.random.RandomState(c["seed"])
    bp = norm.ppf(np.arange(1, c["alpha"]) / c["alpha"])
    A = rng.randint(0, c["alpha"], (c["n"], c["sz"], c["d"]))
    B = rng.randint(0, c["alpha"], (c["m"], c["sz"], c["d"])) if c["m"] else A

    def dist(a, b):
        s = 0.0
        for u, v in zip(a.ravel(), b.ravel()):
            if abs(u - v) > 1:
                s += (bp[max(u, v) - 1] - bp[min(u, v)]) ** 2
        return math.sqrt(s * c["orig"] / c["sz"])
    want = np.array([[dist(a, b) for b in B] for a in A])
    got = M.cdist_sax(A, bp, c["orig"], B if c["m"] else None,
                      n_jobs=c["n_jobs"])
    t.close(got, want, "cdist_sax", rtol=1e-7, atol=1e-9)
    t.nt(want.max() > 0)
