"""C11: the Global Alignment Kernel and its bandwidth heuristics."""
import math

import numpy as np
from hypothesis import strategies as st

from tslearn.metrics import (cdist_gak, gak, gamma_soft_dtw, sigma_gak,
                             unnormalized_gak)

from .. import gen, ref
from ..core import sub, _arr

PROPERTY = "C11"
RULE = ("Pairs and small sets of (variable-length, multivariate) series, "
        "sigma in {0.1 .. 50}, both backends, several n_jobs. Non-trivial: at "
        "least two timestamps each and a kernel value strictly between 0 and "
        "1.")
SIGMA = st.sampled_from([0.1, 0.5, 1.0, 2.0, 5.0, 50.0])


def raw(x, y, sigma):
    """Sum over warping paths of products of local kernels."""
    n, m = len(x), len(y)
    K = np.zeros((n + 1, m + 1))
    K[0, 0] = 1
    for i in range(n):
        for j in range(m):
            e = -ref.sq(x[i], y[j]) / (2 * sigma ** 2)
            k = math.exp(e) / (2 - math.exp(e))
            K[i + 1, j + 1] = k * (K[i, j + 1] + K[i + 1, j] + K[i, j])
    return K[n, m]


@sub(st.fixed_dictionaries({"p": gen.pair(max_sz=7, large=25), "sigma": SIGMA,
                            "be": gen.BACKENDS}), quick=600, shards=2)
def value(c, t):
    x, y = c["p"]
    s, be = c["sigma"], c["be"]
    k, kx, ky = raw(x, y, s), raw(x, x, s), raw(y, y, s)
    tol = dict(rtol=1e-5, atol=1e-12)  # cdist rounding is amplified by 1/s^2
    if np.max(np.abs(np.concatenate([x, y]))) / s > 1e3:
        tol = dict(rtol=1e-2, atol=1e-9)
    t.close(unnormalized_gak(x, y, sigma=s, be=be), k, "unnormalised", **tol)
    want = k / math.sqrt(kx * ky)
    g = float(gak(x, y, sigma=s, be=be))
    t.close(g, want, "normalised", **tol)
    t.close(gak(x, x, sigma=s, be=be), 1.0, "self-similarity")
    t.close(gak(y, x, sigma=s, be=be), g, "symmetry", rtol=1e-6, atol=1e-12)
    t.ok(-1e-12 <= g <= 1 + 1e-9, "outside [0, 1]", g=g)
    t.raises(ZeroDivisionError, lambda: gak(x, y, sigma=0.0, be=be), "sigma=0")
    t.nt(len(x) > 1 and len(y) > 1 and 1e-12 < g < 1 - 1e-9)


@sub(st.fixed_dictionaries({
    "d": st.sampled_from([1, 2]), "be": gen.BACKENDS, "sigma": SIGMA,
    "n_jobs": st.sampled_from([None, None, 1, 2]),
    "self": st.booleans()}).flatmap(lambda b: st.fixed_dictionaries(dict(
        {k: st.just(v) for k, v in b.items()},
        A=gen.dataset(1, 4, 1, 5, b["d"], "float"),
        B=gen.dataset(1, 3, 1, 6, b["d"], "float")))), quick=300, shards=2)
def cross_matrix(c, t):
    A, B, s = c["A"], c["B"], c["sigma"]
    if c["self"]:
        B = A
    want = np.array([[raw(a, b, s) / math.sqrt(raw(a, a, s) * raw(b, b, s))
                      for b in B] for a in A])
    got = _arr(cdist_gak(gen.pad(A), None if c["self"] else gen.pad(B),
                         sigma=s, be=c["be"], n_jobs=c["n_jobs"]))
    t.close(got, want, "cdist_gak", rtol=1e-5, atol=1e-10)
    if c["self"]:
        t.close(np.diag(got), np.ones(len(A)), "unit diagonal")
        t.close(got, got.T, "symmetry")
        if len(set(len(a) for a in A)) == 1:
            t.ok(np.linalg.eigvalsh(got).min() >= -1e-8,
                 "not positive semi-definite", K=got)
    t.nt(len(A) > 1 and len(B) > 1)


@sub(st.fixed_dictionaries({
    "X": gen.dataset(1, 4, 2, 6), "be": gen.BACKENDS,
    "n_samples": st.integers(2, 60), "seed": st.integers(0, 1000)}),
    quick=400)
def bandwidth(c, t):
    X, be = c["X"], c["be"]
    P = gen.pad(X)
    s = float(sigma_gak(P, n_samples=c["n_samples"], random_state=c["seed"],
                        be=be))
    again = float(sigma_gak(P, n_samples=c["n_samples"],
                            random_state=c["seed"], be=be))
    t.equal(s, again, "not reproducible for a fixed random_state")
    sz = max(len(x) for x in X)
    pts = np.vstack(X)
    dd = np.array([math.sqrt(ref.sq(a, b)) for a in pts for b in pts])
    t.ok(-1e-9 <= s <= dd.max() * math.sqrt(sz) * (1 + 1e-6) + 1e-9,
         "outside the range of local distances", s=s)
    # the median of the distances of a sample of the points (with replacement
    # only when there are fewer points than requested samples)
    rs = np.random.RandomState(c["seed"])
    idx = rs.choice(len(pts), size=c["n_samples"],
                    replace=len(pts) < c["n_samples"])
    smp = pts[idx]
    d = sorted(math.sqrt(ref.sq(smp[i], smp[j]))
               for i in range(len(smp)) for j in range(i + 1, len(smp)))
    lo, hi = d[(len(d) - 1) // 2], d[len(d) // 2]
    t.ok(lo * math.sqrt(sz) * (1 - 1e-6) - 1e-6 <= s
         <= hi * math.sqrt(sz) * (1 + 1e-6) + 1e-6,
         "not the median local distance times sqrt(length)", s=s, lo=lo, hi=hi)
    if be != "pytorch":
        t.close(s, 0.5 * (lo + hi) * math.sqrt(sz), "median", rtol=1e-7,
                atol=1e-7)
    t.close(gamma_soft_dtw(P, n_samples=c["n_samples"],
                           random_state=c["seed"], be=be), 2 * s * s,
            "gamma_soft_dtw is 2 sigma^2", rtol=1e-7)
    t.nt(len(X) > 1 and s > 0)


@sub(st.fixed_dictionaries({
    "D": gen.dataset(min_n=2, max_n=4, max_sz=6), "be": gen.BACKENDS,
    "sigma": st.sampled_from([0.5, 1.0, 4.0]), "k": gen.UNITS}), quick=200)
def units(c, t):
    """Kernels are the same in any unit of series and bandwidth."""
    D, be, s = c["D"], c["be"], 2.0 ** c["k"]
    E = [s * x for x in D]
    g = c["sigma"]
    t.close(gak(E[0], E[1], sigma=s * g, be=be), _arr(
        gak(D[0], D[1], sigma=g, be=be)), "kernel in another unit")
    t.close(cdist_gak(E, sigma=s * g, be=be), _arr(
        cdist_gak(D, sigma=g, be=be)), "kernel matrix in another unit")
    a = float(sigma_gak(D, n_samples=30, random_state=3, be=be))
    b = float(sigma_gak(E, n_samples=30, random_state=3, be=be))
    t.close(b, s * a, "bandwidth in another unit", rtol=1e-9,
            atol=1e-11 * s * a)
    a = float(gamma_soft_dtw(D, n_samples=30, random_state=3, be=be))
    b = float(gamma_soft_dtw(E, n_samples=30, random_state=3, be=be))
    t.close(b, s * s * a, "gamma in another unit", rtol=1e-9,
            atol=1e-11 * s * s * a)
    t.nt(min(map(len, D)) > 1)
