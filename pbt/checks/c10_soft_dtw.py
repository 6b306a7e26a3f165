"""C10: soft-DTW values, normalisation, alignments and gradients."""
import math

import numpy as np
from hypothesis import strategies as st

from tslearn.metrics import (SoftDTW, SquaredEuclidean, SoftDTWLossPyTorch,
                             cdist_soft_dtw, cdist_soft_dtw_normalized,
                             soft_dtw, soft_dtw_alignment, soft_dtw_normalized)

from .. import gen, ref
from ..core import sub, _arr

WARM = ["value", "normalized", "alignments"]
PROPERTY = "C10"
RULE = ("Pairs or small sets of series, gamma in {0, 1e-3 .. 100}, every "
        "constraint form, both backends. Non-trivial: both series have at "
        "least 2 timestamps, differ, and gamma is positive.")
GAMMA = st.sampled_from([0.001, 0.01, 0.1, 1.0, 1.0, 2.5, 10.0, 100.0])
CASE = st.fixed_dictionaries({
    "p": gen.pair(max_sz=7, large=20), "kw": gen.constraint(), "be": gen.BACKENDS,
    "gamma": GAMMA})


def tol(C, gamma):
    return dict(rtol=1e-7, atol=1e-7 * (1 + gamma + float(np.max(C))))


def alignment(C, gamma, M):
    """Expected alignment under the Gibbs distribution over paths."""
    n, m = C.shape

    def table(C, M):
        A = np.full((n, m), ref.INF)
        for i in range(n):
            for j in range(m):
                if M[i, j]:
                    if i == j == 0:
                        A[0, 0] = C[0, 0]
                    else:
                        A[i, j] = C[i, j] + ref.softmin(
                            [A[i - 1, j] if i else ref.INF,
                             A[i, j - 1] if j else ref.INF,
                             A[i - 1, j - 1] if i and j else ref.INF], gamma)
        return A
    F = table(C, M)
    B = table(C[::-1, ::-1], M[::-1, ::-1])[::-1, ::-1]
    E = np.zeros((n, m))
    for i in range(n):
        for j in range(m):
            if F[i, j] < ref.INF and B[i, j] < ref.INF:
                E[i, j] = math.exp(-(F[i, j] + B[i, j] - C[i, j] - F[-1, -1])
                                   / gamma)
    return E, F[-1, -1]


def enumerate_paths(C, gamma, M):
    """The same by enumerating every path (tiny sizes)."""
    n, m = C.shape
    paths = [p for p in ref.all_paths(n, m) if all(M[q] for q in p)]
    costs = np.array([sum(C[q] for q in p) for p in paths])
    w = np.exp(-(costs - costs.min()) / gamma)
    E = np.zeros((n, m))
    for p, v in zip(paths, w / w.sum()):
        for q in p:
            E[q] += v
    return E, costs.min() - gamma * math.log(w.sum())


@sub(CASE, quick=700, shards=2)
def value(c, t):
    x, y = c["p"]
    kw, be, g = c["kw"], c["be"], c["gamma"]
    M = ref.mask(len(x), len(y), kw)
    if M is None:
        t.raises(RuntimeWarning, lambda: soft_dtw(x, y, gamma=g, be=be, **kw),
                 "refused")
        return
    C = ref.sqcost(x, y)
    want = ref.soft_dtw(C, g, M)
    t.close(soft_dtw(x, y, gamma=g, be=be, **kw), want, "soft_dtw",
            **tol(C, g))
    if len(x) * len(y) <= 16:
        t.close(want, enumerate_paths(C, g, M)[1], "oracle", **tol(C, g))
    hard = ref.dtw_table(C, M)[-1, -1]
    got = float(soft_dtw(x, y, gamma=g, be=be, **kw))
    k = tol(C, g)["atol"]
    t.ok(got <= hard + k, "soft minimum above the hard minimum", got=got,
         hard=hard)
    npaths = 3.0 ** (len(x) + len(y))
    t.ok(got >= hard - g * math.log(npaths) - k, "soft minimum too low")
    t.close(soft_dtw(x, y, gamma=0.0, be=be, **kw), hard,
            "gamma=0 is the squared DTW", rtol=1e-7, atol=1e-6)
    t.nt(len(x) > 1 and len(y) > 1 and hard > 0)


@sub(CASE, quick=500, shards=2)
def normalized(c, t):
    x, y = c["p"]
    kw, be, g = c["kw"], c["be"], c["gamma"]
    Ms = [ref.mask(len(a), len(b), kw) for a, b in
          ((x, y), (x, x), (y, y))]
    if any(M is None for M in Ms):
        return
    C = ref.sqcost(x, y)
    want = ref.soft_dtw(C, g, Ms[0]) - 0.5 * (
        ref.soft_dtw(ref.sqcost(x, x), g, Ms[1])
        + ref.soft_dtw(ref.sqcost(y, y), g, Ms[2]))
    k = tol(C, g)
    t.close(soft_dtw_normalized(x, y, gamma=g, be=be, **kw), want,
            "normalised", **k)
    t.close(soft_dtw_normalized(x, x, gamma=g, be=be, **kw), 0.0,
            "normalised divergence of a series with itself", **k)
    t.nt(len(x) > 1 and len(y) > 1 and abs(want) > 1e-6)


@sub(CASE, quick=500, shards=2)
def alignments(c, t):
    x, y = c["p"]
    kw, be, g = c["kw"], c["be"], c["gamma"]
    M = ref.mask(len(x), len(y), kw)
    if M is None:
        return
    C = ref.sqcost(x, y)
    E, want = alignment(C, g, M)
    if len(x) * len(y) <= 12:
        t.close(E, enumerate_paths(C, g, M)[0], "oracle", atol=1e-6)
    a, v = soft_dtw_alignment(x, y, gamma=g, be=be, **kw)
    t.close(v, want, "value", **tol(C, g))
    slack = 1e-6 + 1e-12 * float(np.max(C)) / g
    t.close(a, E, "expected alignment", rtol=1e-5, atol=slack)
    t.close(_arr(a)[~M], np.zeros((~M).sum()), "mass outside the constraint")
    a0, v0 = soft_dtw_alignment(x, y, gamma=0.0, be=be, **kw)
    t.close(v0, ref.dtw_table(C, M)[-1, -1], "hard value", rtol=1e-7,
            atol=1e-6)
    a0 = _arr(a0)
    p = [tuple(q) for q in np.argwhere(a0 == 1)]
    t.ok(set(np.unique(a0)) <= {0.0, 1.0}, "hard alignment is not 0/1")
    err = ref.path_error(p, len(x), len(y), M)
    t.ok(err is None, "hard alignment is not a path: %s" % err, path=p)
    t.close((a0 * C).sum(), ref.dtw_table(C, M)[-1, -1], "hard alignment cost",
            rtol=1e-6, atol=1e-6)
    t.nt(len(x) > 1 and len(y) > 1 and np.max(C) > 0)


@sub(st.fixed_dictionaries({
    "d": st.sampled_from([1, 2]), "be": gen.BACKENDS,
    "gamma": st.sampled_from([0.0, 0.1, 1.0, 1.0, 10.0]),
    "kw": gen.constraint(),
    "n_jobs": st.sampled_from([None, 1, 2, 2]),
    "self": st.booleans()}).flatmap(lambda b: st.fixed_dictionaries(dict(
        {k: st.just(v) for k, v in b.items()},
        A=gen.dataset(1, 3, 1, 7, b["d"], "float"),
        B=gen.dataset(1, 3, 1, 7, b["d"], "float")))),
    quick=300, shards=2)
def cross_matrices(c, t):
    A, B, be, g, kw = c["A"], c["B"], c["be"], c["gamma"], c["kw"]
    if c["self"]:
        B = A
    if "itakura" in str(kw):
        n = max(map(len, A + B))  # lengths with a path
        A, B = ([np.resize(x, (n, x.shape[1])) for x in Z] for Z in (A, B))
    args = (gen.pad(A), None if c["self"] else gen.pad(B))
    D = np.array([[ref.soft_dtw(ref.sqcost(a, b), g,
                                ref.mask(len(a), len(b), kw)) if g else
                   ref.dtw(a, b, kw) ** 2 for b in B] for a in A])
    got = _arr(cdist_soft_dtw(*args, gamma=g, be=be, n_jobs=c["n_jobs"], **kw))
    if g == 0.0:
        # KNOWN FINDING F-C10-gamma0: plain DTW instead of its square.
        if not np.allclose(got, D, rtol=1e-7, atol=1e-6):
            t.exclude("F-C10-gamma0")
            t.close(got, np.sqrt(D), "gamma=0: neither DTW nor its square",
                    rtol=1e-7, atol=1e-6)
        return
    k = dict(rtol=1e-7, atol=1e-6)
    t.close(got, D, "cdist_soft_dtw", **k)
    sa = [ref.soft_dtw(ref.sqcost(a, a), g, ref.mask(len(a), len(a), kw))
          for a in A]
    sb = [ref.soft_dtw(ref.sqcost(b, b), g, ref.mask(len(b), len(b), kw))
          for b in B]
    N = D - 0.5 * (np.array(sa)[:, None] + np.array(sb)[None])
    t.close(cdist_soft_dtw_normalized(*args, gamma=g, be=be,
                                      n_jobs=c["n_jobs"], **kw), N,
            "cdist_soft_dtw_normalized", **k)
    if c["self"]:
        t.close(np.diag(N), np.zeros(len(A)), "zero diagonal", **k)
    t.nt(len(A) > 1 and len(B) > 1 and np.abs(N).max() > 0)


@sub(st.fixed_dictionaries({"p": gen.pair(max_sz=5), "be": gen.BACKENDS,
                            "gamma": st.just(0.0)}), quick=20)
def cross_matrix_gamma0(c, t):
    """The finding itself; judged on its recorded case only."""
    x, y = c["p"]
    if t.evaluations and t.trace:
        t.exclude("F-C10-gamma0")
        return
    t.close(cdist_soft_dtw(x[None], y[None], gamma=0.0, be=c["be"]),
            [[ref.dtw(x, y) ** 2]], "cdist_soft_dtw(gamma=0) is not the "
            "squared DTW (soft_dtw(gamma=0) is)", rtol=1e-7, atol=1e-6)


@sub(CASE, quick=300)
def low_level(c, t):
    """SoftDTW / SquaredEuclidean objects (used by the barycenters)."""
    x, y = c["p"]
    g = c["gamma"]
    C = ref.sqcost(x, y)
    full = np.ones_like(C, dtype=bool)
    E, want = alignment(C, g, full)
    for be, cwb in (("numpy", False), ("pytorch", False), ("pytorch", True)):
        D = SquaredEuclidean(x, y, be=be, compute_with_backend=cwb)
        t.close(D.compute(), C, "squared distances", rtol=1e-7,
                atol=1e-9 * (1 + float(np.abs(x).max() + np.abs(y).max())) ** 2)
        s = SoftDTW(D, gamma=g, be=be, compute_with_backend=cwb)
        k = tol(C, g)
        k["atol"] *= 100
        t.close(s.compute(), want, "value", **k)
        # sklearn's euclidean_distances loses ~1e-8 relative on cancellation
        scale = (1 + float(np.abs(x).max() + np.abs(y).max())) ** 2
        if scale / g > 1e5:
            continue
        t.close(s.grad(), E, "gradient w.r.t. the cost", rtol=1e-4, atol=1e-5)
        G = D.jacobian_product(s.grad())
        want_g = 2 * (E.sum(1)[:, None] * x - E @ y)
        t.close(G, want_g, "gradient w.r.t. the series", rtol=1e-3,
                atol=1e-4 * math.sqrt(scale))
        t.nt(len(x) > 1 and len(y) > 1)


@sub(st.fixed_dictionaries({
    "b": st.integers(1, 3), "n": st.integers(1, 6), "m": st.integers(1, 6),
    "d": st.integers(1, 2), "seed": st.integers(0, 10 ** 6),
    "gamma": st.sampled_from([0.05, 0.1, 1.0, 10.0]), "normalize": st.booleans(),
    "dtype": st.sampled_from(["float32", "float64"]),
    "kw": gen.constraint(itakura=False)}), quick=250)
def torch_loss(c, t):
    import torch
    b, n, m, d, g, kw = (c[k] for k in ("b", "n", "m", "d", "gamma", "kw"))
    rng = np.random.RandomState(c["seed"])
    X, Y = rng.randn(b, n, d), rng.randn(b, m, d)
    dt = getattr(torch, c["dtype"])
    tx = torch.tensor(X, dtype=dt, requires_grad=True)
    ty = torch.tensor(Y, dtype=dt, requires_grad=True)
    X, Y = tx.detach().double().numpy(), ty.detach().double().numpy()
    loss = SoftDTWLossPyTorch(gamma=g, normalize=c["normalize"], **kw)
    out = loss(tx, ty)
    want, gx, gy = [], np.zeros_like(X), np.zeros_like(Y)
    for i in range(b):
        x, y = X[i], Y[i]
        E, v = alignment(ref.sqcost(x, y), g, ref.mask(n, m, kw))
        gx[i] = 2 * (E.sum(1)[:, None] * x - E @ y)
        gy[i] = 2 * (E.sum(0)[:, None] * y - E.T @ x)
        if c["normalize"]:
            for z, gz in ((x, gx), (y, gy)):
                E, w = alignment(ref.sqcost(z, z), g,
                                 ref.mask(len(z), len(z), kw))
                v -= 0.5 * w
                S = E + E.T
                gz[i] -= 0.5 * 2 * (S.sum(1)[:, None] * z - S @ z)
        want.append(v)
    # the implementation keeps its tables in single precision
    t.close(out, want, "loss", rtol=1e-4, atol=1e-4 * (1 + g))
    out.sum().backward()
    t.close(tx.grad, gx, "gradient w.r.t. x", rtol=2e-3, atol=2e-3 + 1e-4 / g)
    t.close(ty.grad, gy, "gradient w.r.t. y", rtol=2e-3, atol=2e-3 + 1e-4 / g)
    t.nt(n > 1 and m > 1)




@sub(st.fixed_dictionaries({
    "p": gen.pair(max_sz=7), "kw": gen.constraint(), "be": gen.BACKENDS,
    "gamma": st.sampled_from([0.01, 0.3, 1.0, 7.0]), "k": gen.UNITS}),
    quick=250)
def units(c, t):
    """Values are in the squared unit of the series, and so is gamma."""
    x, y = c["p"]
    s = 2.0 ** c["k"]
    g, be, kw = c["gamma"], c["be"], c["kw"]
    if ref.mask(len(x), len(y), kw) is None:
        return
    for f in (soft_dtw, soft_dtw_normalized):
        want = s * s * float(f(x, y, gamma=g, be=be, **kw))
        scale = s * s * (1 + g) * (1 + ref.sqcost(x, y).max())
        t.close(f(s * x, s * y, gamma=s * s * g, be=be, **kw), want,
                f.__name__ + " in another unit", rtol=1e-9,
                atol=1e-10 * scale)
    A, _ = soft_dtw_alignment(x, y, gamma=g, be=be, **kw)
    B, _ = soft_dtw_alignment(s * x, s * y, gamma=s * s * g, be=be, **kw)
    t.close(B, _arr(A), "alignment in another unit", rtol=1e-8, atol=1e-9)
    t.nt(len(x) > 1 and len(y) > 1)
