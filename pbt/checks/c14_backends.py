"""C14: PyTorch backend: values, types, gradients; the Soft-DTW loss."""
import numpy as np
import numba
from hypothesis import strategies as st

from .. import gen, ref
from ..core import sub

numba.config.THREADING_LAYER = "workqueue"
PROPERTY = "C14"
WARM = ["compiled"]  # no gradient before the fork
RULE = ("both series have at least two timestamps and the value is not that "
        "of two equal series")

METRICS = ["dtw", "dtw_path", "soft_dtw", "soft_dtw_backend",
           "soft_dtw_normalized", "gak", "unnormalized_gak", "frechet",
           "frechet_path", "limited", "subsequence", "cdist_dtw",
           "cdist_soft_dtw", "cdist_soft_dtw_normalized", "cdist_gak",
           "cdist_frechet"]


@st.composite
def pair(draw):
    d = draw(gen.DIMS)
    n, m = draw(st.tuples(*[st.sampled_from([1, 2, 3, 4, 5, 6, 7])] * 2))
    if draw(st.integers(0, 3)):
        n, m = max(n, 2), max(m, 2)
    return {"n": n, "m": m, "d": d, "seed": draw(st.integers(0, 10 ** 6)),
            "walk": draw(st.booleans())}


def expand(p):
    rng = np.random.RandomState(p["seed"])
    a = rng.standard_normal((p["n"], p["d"]))
    b = rng.standard_normal((p["m"], p["d"]))
    if p["walk"]:
        a, b = np.cumsum(a, axis=0), np.cumsum(b, axis=0)
    return a, b


@st.composite
def pair_con(draw):
    """Itakura masks of series of different lengths are judged in C06."""
    p, con = draw(pair()), draw(gen.constraint())
    if "itakura" in str(con):
        p["m"] = p["n"]
    return p, con


@st.composite
def grad_case(draw):
    p, con = draw(pair_con())
    return {"p": p, "con": con, "metric": draw(st.sampled_from(METRICS)),
            "gamma": draw(st.sampled_from([0.1, 0.5, 1.0, 3.0])),
            "both": draw(st.booleans()),
            "f32": draw(st.integers(0, 3)) == 3}


def call(c, a, b, be):
    """Scalar value of the metric of two series."""
    import tslearn.metrics as M
    from tslearn.metrics import _soft_dtw, softdtw_variants  # noqa
    k, con = c["metric"], dict(c["con"])
    g = c["gamma"]
    if k == "dtw":
        return M.dtw(a, b, be=be, **con)
    if k == "dtw_path":
        return M.dtw_path(a, b, be=be, **con)[1]
    if k == "soft_dtw":
        return M.soft_dtw(a, b, gamma=g, be=be, **con)
    if k == "soft_dtw_backend":
        return softdtw_variants.soft_dtw(a, b, gamma=g, be=be,
                                         compute_with_backend=True)
    if k == "soft_dtw_normalized":
        return M.soft_dtw_normalized(a, b, gamma=g, be=be, **con)
    if k == "gak":
        return M.gak(a, b, sigma=1 + g, be=be)
    if k == "unnormalized_gak":
        from tslearn.metrics import unnormalized_gak
        return unnormalized_gak(a, b, sigma=1 + g, be=be)
    if k == "frechet":
        return M.frechet(a, b, be=be, **con)
    if k == "frechet_path":
        return M.frechet_path(a, b, be=be, **con)[1]
    if k == "limited":
        return M.dtw_limited_warping_length(a, b, max(len(a), len(b)) + 1,
                                            be=be)
    if k == "subsequence":
        s, l = (a, b) if len(a) <= len(b) else (b, a)
        return M.dtw_subsequence_path(s, l, be=be)[1]
    f = {"cdist_dtw": M.cdist_dtw, "cdist_soft_dtw": M.cdist_soft_dtw,
         "cdist_soft_dtw_normalized": M.cdist_soft_dtw_normalized,
         "cdist_gak": M.cdist_gak, "cdist_frechet": M.cdist_frechet}[k]
    kw = {"sigma": 1 + g} if k == "cdist_gak" else (
        {} if k in ("cdist_dtw", "cdist_frechet") else {"gamma": g})
    if k != "cdist_gak":
        kw.update(con)
    return f(a[None], b[None], be=be, **kw)[0, 0]


def numeric(f, x, h):
    g = np.zeros_like(x)
    for i in np.ndindex(*x.shape):
        u, v = x.copy(), x.copy()
        u[i] += h
        v[i] -= h
        g[i] = (f(u) - f(v)) / (2 * h)
    return g


@sub(st.just(0), quick=1, thorough=1)
def compiled(c, t):
    """Every metric once, so that the workers inherit the compiled code."""
    p = {"n": 3, "m": 4, "d": 1, "seed": 0, "walk": False}
    a, b = expand(p)
    for k in METRICS:
        t.ok(np.isfinite(float(call({"metric": k, "con": {}, "gamma": 1.0}, a,
                                    b, "numpy"))), k)


@sub(grad_case(), quick=640, thorough=8000, shards=4)
def gradient(c, t):
    """Value of the NumPy backend; gradient of its finite differences."""
    import torch
    a, b = expand(c["p"])
    v = float(call(c, a, b, "numpy"))
    if not np.isfinite(v):
        return
    dt = torch.float32 if c["f32"] else torch.float64
    ta = torch.tensor(a, dtype=dt, requires_grad=True)
    tb = torch.tensor(b, dtype=dt, requires_grad=c["both"])
    a0, b0 = ta.detach().clone(), tb.detach().clone()
    out = call(c, ta, tb, "pytorch" if c["p"]["seed"] % 2 else None)
    t.ok(torch.is_tensor(out), "a tensor", got=type(out))
    t.ok(torch.equal(ta.detach(), a0) and torch.equal(tb.detach(), b0),
         "inputs unchanged")
    rt, at = (1e-4, 1e-4) if c["f32"] else (1e-7, 1e-8)
    t.close(out, v, "value of the backends", rtol=rt, atol=at * (1 + abs(v)))
    same = min(len(a), len(b)) < 2
    t.nt(not same)
    t.label(c["metric"])
    if not out.requires_grad:
        t.ok(False, "the value is not differentiable with the PyTorch backend")
    if v < 1e-3 and "dtw" in c["metric"] and "soft" not in c["metric"]:
        return  # square root at zero
    out.backward()
    fs = [(lambda x: float(call(c, x, b, "numpy")), a, ta)]
    if c["both"]:
        fs.append((lambda x: float(call(c, a, x, "numpy")), b, tb))
    for f, x, tx in fs:
        g1, g2 = numeric(f, x, 1e-5), numeric(f, x, 3e-6)
        top = max(1.0, np.abs(g1).max())
        if np.abs(g1 - g2).max() > 1e-4 * top:
            t.label("not differentiable here")
            return
        t.ok(tx.grad is not None, "a gradient for each input")
        t.close(tx.grad, g1, "gradient", rtol=1e-3,
                atol=(5e-3 if c["f32"] else 5e-4) * top)


MORE = ["lb_envelope", "lb_keogh", "subsequence_cost", "dtw_accumulated",
        "frechet_accumulated", "sigma", "gamma", "ctw", "lcss", "dtw_from",
        "frechet_from", "lcss_from", "alignment", "limited_path",
        "subsequence_path", "frechet_matrix", "ctw_matrix", "dtw_matrix"]


def more(k, c, a, b, be):
    """A tuple of numeric results."""
    import tslearn.metrics as M
    from tslearn.metrics import (dtw_accumulated_matrix,
                                 frechet_accumulated_matrix)
    con = dict(c["con"])
    eps = 0.7 * 2.0 ** c["k"]
    name = c["from"]
    if k == "lb_envelope":
        return M.lb_envelope(a, radius=c["r"], be=be)
    if k == "lb_keogh":
        return (M.lb_keogh(a[:, :1], a[:, -1:], radius=c["r"]),)
    if k in ("subsequence_cost", "subsequence_path"):
        s, l = (a, b) if len(a) <= len(b) else (b, a)
        if k == "subsequence_cost":
            return (M.subsequence_cost_matrix(s, l, be=be),)
        return M.dtw_subsequence_path(s, l, be=be)
    if k in ("dtw_accumulated", "frechet_accumulated"):
        f = (dtw_accumulated_matrix if k[0] == "d"
             else frechet_accumulated_matrix)
        m = ref.mask(len(a), len(b), con)
        if be != "numpy":
            import torch
            m = torch.tensor(m)
        return (f(a, b, m, be=be),)
    if k == "sigma":
        return (M.sigma_gak(a[None], n_samples=3, random_state=0, be=be),)
    if k == "gamma":
        return (M.gamma_soft_dtw(a[None], n_samples=3, random_state=0,
                                 be=be),)
    if k == "ctw":
        return (M.ctw(a, b, max_iter=3, be=be, **con),)
    if k == "lcss":
        return M.lcss_path(a, b, eps=eps, be=be, **con)
    if k == "dtw_from":
        return M.dtw_path_from_metric(a, b, metric=name, be=be, **con)
    if k == "frechet_from":
        return M.frechet_path_from_metric(a, b, metric=name, be=be, **con)
    if k == "lcss_from":
        return M.lcss_path_from_metric(a, b, metric=name, eps=eps, be=be,
                                       **con)
    if k == "alignment":
        return M.soft_dtw_alignment(a, b, gamma=c["gamma"], be=be, **con)
    if k == "limited_path":
        return M.dtw_path_limited_warping_length(
            a, b, max(len(a), len(b)) + c["r"], be=be)
    f = {"frechet_matrix": M.cdist_frechet, "ctw_matrix": M.cdist_ctw,
         "dtw_matrix": M.cdist_dtw}[k]
    if k == "ctw_matrix":
        con["max_iter"] = 2
    return (f([a, b], be=be, **con),)


@sub(st.tuples(pair_con(), st.sampled_from(METRICS + MORE + MORE)).flatmap(
    lambda x: st.fixed_dictionaries({
        "p": st.just(x[0][0]), "con": st.just(x[0][1]),
        "metric": st.just(x[1]), "gamma": st.sampled_from([0.1, 1.0, 3.0]),
        "k": st.sampled_from([0, 0, -9, 12]), "r": st.integers(0, 4),
        "from": st.sampled_from(["euclidean", "sqeuclidean"]),
        "be": st.sampled_from([None, "pytorch"])})),
    quick=480, thorough=8000, shards=3)
def values(c, t):
    """Double tensors give what double arrays give, to double precision."""
    import torch
    a, b = (2.0 ** c["k"] * x for x in expand(c["p"]))
    k = c["metric"]
    if k in ("ctw", "ctw_matrix") and min(len(a), len(b)) <= 2 * a.shape[1]:
        return
    f = more if k in MORE else (lambda k, *x: (call(*x),))
    want = f(k, c, a, b, "numpy")
    got = f(k, c, torch.tensor(a), torch.tensor(b), c["be"])
    t.equal(len(got), len(want), "results")
    t.label(k)
    for g, w in zip(got, want):
        if isinstance(w, list):
            t.ok([tuple(map(int, u)) for u in g]
                 == [tuple(map(int, u)) for u in w], "path", got=g, want=w)
            continue
        if torch.is_tensor(g):
            t.ok(g.dtype == torch.float64, "type of the result", got=g.dtype)
        w = np.asarray(w, dtype=float)
        fin = np.abs(w[np.isfinite(w)])
        top = float(fin.max()) if fin.size else 0.0
        if "soft" in k or k == "alignment":
            top = max(top, c["gamma"])
        t.close(g, w, "value with tensors", rtol=1e-9, atol=1e-9 * top)
    t.nt(len(a) > 1 and len(b) > 1)


DIST = ["default", "cdist", "exp", "abs", "sqrt1", "cos"]


def dist_func(name):
    import torch

    def sq(x, y):
        return ((x[:, :, None, :] - y[:, None, :, :]) ** 2).sum(-1)
    return {"default": None,
            "cdist": lambda x, y: torch.cdist(x, y),
            "exp": lambda x, y: 1 - torch.exp(-sq(x, y)),
            "abs": lambda x, y: (x[:, :, None, :] - y[:, None, :, :]
                                 ).abs().sum(-1),
            "sqrt1": lambda x, y: torch.sqrt(1 + sq(x, y)),
            "cos": lambda x, y: torch.cos(x[:, :, None, 0] -
                                          y[:, None, :, 0])}[name]


@st.composite
def loss_case(draw):
    p, con = draw(pair_con())
    return {"p": p, "con": con, "b": draw(st.integers(1, 3)),
            "gamma": draw(st.sampled_from([0.05, 0.5, 1.0, 4.0])),
            "normalize": draw(st.booleans()),
            "dist": draw(st.sampled_from(DIST)),
            "f32": draw(st.integers(0, 3)) == 3,
            "scale": draw(st.sampled_from([1.0, 1.0, 100.0])),
            "weights": draw(st.booleans())}


def soft_ref(D, gamma, mask):
    """Soft-DTW of a distance matrix, by the definition, in torch double."""
    import torch
    n, m = D.shape
    inf = torch.tensor(float("inf"), dtype=torch.float64)
    R = {}
    for i in range(n):
        for j in range(m):
            if not mask[i, j]:
                continue
            prev = [R[k] for k in ((i - 1, j), (i, j - 1), (i - 1, j - 1))
                    if k in R]
            if i == j == 0:
                R[i, j] = D[i, j]
            elif prev:
                R[i, j] = D[i, j] - gamma * torch.logsumexp(
                    -torch.stack(prev) / gamma, dim=0)
    return R.get((n - 1, m - 1), inf)


@sub(loss_case(), quick=480, thorough=6000, shards=4)
def loss(c, t):
    """Loss and gradient of the module against the definition."""
    import torch
    from tslearn.metrics import SoftDTWLossPyTorch
    p = c["p"]
    rng = np.random.RandomState(p["seed"])
    a = c["scale"] * rng.standard_normal((c["b"], p["n"], p["d"]))
    b = c["scale"] * rng.standard_normal((c["b"], p["m"], p["d"]))
    dt = torch.float32 if c["f32"] else torch.float64
    calls = []
    f = dist_func(c["dist"])

    def spy(x, y):
        out = f(x, y)
        calls.append((out, out.detach().clone()))
        return out
    crit = SoftDTWLossPyTorch(gamma=c["gamma"], normalize=c["normalize"],
                              dist_func=None if f is None else spy, **c["con"])
    xa = torch.tensor(a, dtype=dt, requires_grad=True)
    xb = torch.tensor(b, dtype=dt, requires_grad=True)
    out = crit(xa, xb)
    t.equal(tuple(out.shape), (c["b"],), "one value per pair")
    t.ok(out.dtype == dt, "type of the result", got=out.dtype)
    for o, o0 in calls:
        t.ok(torch.equal(o.detach(), o0), "distances left as they are")
    ra = torch.tensor(a, dtype=dt).double().requires_grad_()
    rb = torch.tensor(b, dtype=dt).double().requires_grad_()
    dist = f or (
        lambda x, y: ((x[:, :, None, :] - y[:, None, :, :]) ** 2).sum(-1))

    def one(x, y):
        D = dist(x, y)
        mask = ref.mask(x.shape[1], y.shape[1], c["con"])
        return torch.stack([soft_ref(D[i], c["gamma"], mask)
                            for i in range(len(D))])
    want = one(ra, rb)
    if c["normalize"]:
        want = want - 0.5 * (one(ra, ra) + one(rb, rb))
    if not torch.isfinite(want).all():
        return
    size = 1 + float(np.abs(dist(ra, rb).detach()).max()) * (p["n"] + p["m"]) \
        + c["gamma"] * (p["n"] + p["m"])
    eps = 1e-5 if c["f32"] else 1e-12
    t.close(out.detach().double(), want.detach(), "value of the loss",
            rtol=10 * eps, atol=10 * eps * size)
    w = torch.tensor(rng.standard_normal(c["b"]) if c["weights"]
                     else np.ones(c["b"]))
    (out * w.to(dt)).sum().backward()
    (want * w).sum().backward()
    t.nt(p["n"] > 1 and p["m"] > 1)
    t.label("dist " + c["dist"])
    t.label("constrained", bool(c["con"]))
    for x, r in ((xa, ra), (xb, rb)):
        top = 1 + float(r.grad.abs().max())
        tol = (2e-3 * (1 + size / c["gamma"] * 1e-3)) if c["f32"] else \
            1e-9 * (1 + size / c["gamma"])
        t.close(x.grad.double(), r.grad, "gradient of the loss", rtol=1e-3
                if c["f32"] else 1e-6, atol=tol * top)



@st.composite
def fn_case(draw):
    return {"n": draw(st.integers(1, 5)), "m": draw(st.integers(1, 5)),
            "d": draw(st.integers(1, 4)), "k": draw(st.integers(-3, 3)),
            "seed": draw(st.integers(0, 10 ** 6)),
            "ints": draw(st.booleans()),
            "axis": draw(st.sampled_from([None, 0, 1, -1, 2, (0, 1), (1, 2),
                                          (0, -1), (2,), (0, 1, 2),
                                          (-1, -2)])),
            "f32": draw(st.booleans())}


@sub(fn_case(), quick=300, thorough=6000)
def functions(c, t):
    """Functions of the backends that share a name share their result."""
    from tslearn.backend import instantiate_backend
    bn, bt = instantiate_backend("numpy"), instantiate_backend("pytorch")
    rng = np.random.RandomState(c["seed"])
    X, Y = rng.standard_normal((c["n"], c["d"])), rng.standard_normal(
        (c["m"], c["d"]))
    if c["ints"]:
        X, Y = np.round(2 * X) / 2, np.round(2 * Y) / 2
    B = rng.rand(c["n"], c["m"], c["d"]) < 0.8
    T = bt.array
    k, n = c["k"], c["n"]
    t.nt(n > 1 and c["m"] > 1)

    def same(name, *args, rtol=1e-12, atol=1e-12, **kw):
        def get(be, arr):
            f = be
            for part in name.split("."):
                f = getattr(f, part)
            return f(*[arr(a) if isinstance(a, np.ndarray) else a
                       for a in args], **kw)
        g, w = get(bt, T), get(bn, np.array)
        if isinstance(w, tuple):
            t.equal(len(g), len(w), name)
        else:
            g, w = (g,), (w,)
        for u, v in zip(g, w):
            t.close(bt.to_numpy(u) if hasattr(u, "detach") else u, v, name,
                    rtol=rtol, atol=atol)
    same("all", B, axis=c["axis"])
    for f in ("abs", "ceil", "floor", "round", "exp", "sqrt", "isnan",
              "isfinite", "sum", "mean", "median", "max", "min", "argmax",
              "argmin", "zeros_like", "shape", "ndim", "linalg.norm"):
        if f == "sqrt":
            same(f, np.abs(X))
        else:
            same(f, X)
    same("log", np.abs(X) + 0.1)
    same("reshape", X, (-1,))
    for f in ("tril", "triu"):
        same(f, X, k=k)
    for f in ("tril_indices", "triu_indices"):
        same(f, n, k=k, m=c["m"])
        same(f, n, k=k)
    same("eye", n)
    same("arange", n)
    same("zeros", (n, c["m"]))
    same("full", (n, 2), 1.5)
    same("diag", X[:, 0])
    same("linalg.inv", X[:, :1] @ X[:, :1].T + np.eye(n), rtol=1e-9,
         atol=1e-9)
    # distances of distinct vectors: the two backends round differently
    for f, kw in (("cdist", {"metric": "euclidean"}),
                  ("cdist", {"metric": "sqeuclidean"}),
                  ("cdist", {"metric": "minkowski", "p": 3.0}),
                  ("pairwise_distances", {"metric": "euclidean"}),
                  ("pairwise_distances", {"metric": "sqeuclidean"}),
                  ("pairwise_euclidean_distances", {})):
        same(f, X, Y, rtol=1e-6, atol=1e-6, **kw)
    for kw in ({"metric": "euclidean"}, {"metric": "sqeuclidean"},
               {"metric": "minkowski", "p": 3.0}):
        if n > 1:
            same("pdist", X, rtol=1e-7, atol=1e-7, **kw)
    same("pairwise_distances", X, Y, metric=lambda a, b: abs(a - b).sum())
    same("pairwise_distances", X, metric="euclidean", rtol=1e-6, atol=1e-6)
    # arrays: values, types, no sharing
    for val in (X, X.tolist(), tuple(map(tuple, X.tolist())), [X, X],
                [T(X), T(X)], T(X), 3.5):
        dt = "float32" if c["f32"] else "float64"
        a = bt.array(val, dtype=getattr(bt, dt))
        want = np.array([bt.to_numpy(v) if hasattr(v, "detach") else v
                         for v in val] if isinstance(val, (list, tuple))
                        else bt.to_numpy(val) if hasattr(val, "detach")
                        else val, dtype=dt)
        t.equal(bt.to_numpy(a), want, "array")
        t.ok(a.dtype == getattr(bt, dt), "type of the array", got=a.dtype)
        t.ok(bt.is_array(a) and bt.belongs_to_backend(a) and
             not bn.is_array(a) and not bn.belongs_to_backend(a), "is_array")
        t.ok(bt.cast(a, bt.float64).dtype == bt.float64, "cast")
    a = T(X)
    for b in (bt.array(a), bt.copy(a)):
        b += 1
        t.equal(bt.to_numpy(a), X, "a copy shares nothing")


SOURCES = ["none", "str_numpy", "str_torch", "array", "tensor", "backend_np",
           "backend_pt", "list", "number", "inner_np", "inner_pt"]


@sub(st.lists(st.sampled_from(SOURCES), max_size=4), quick=100, thorough=400)
def selection(c, t):
    """The first argument that names a backend selects it; NumPy if none."""
    import torch
    from tslearn.backend import instantiate_backend
    from tslearn.backend.backend import Backend
    val = {"none": None, "str_numpy": "numpy", "str_torch": "pytorch",
           "array": np.arange(3.0), "tensor": torch.arange(3.0),
           "backend_np": Backend("numpy"), "backend_pt": Backend("pytorch"),
           "list": [1.0, 2.0], "number": 3.0,
           "inner_np": Backend("numpy").backend,
           "inner_pt": Backend("pytorch").backend}
    want = "numpy"
    for s in c:
        if s in ("str_numpy", "array", "backend_np", "inner_np"):
            break
        if s in ("str_torch", "tensor", "backend_pt", "inner_pt"):
            want = "pytorch"
            break
    be = instantiate_backend(*[val[s] for s in c])
    t.ok(be.backend_string == want, "selected backend", got=be.backend_string,
         want=want)
    t.ok(be.is_numpy == (want == "numpy") and
         be.is_pytorch == (want == "pytorch"), "flags")
    t.nt(len(c) > 1)
