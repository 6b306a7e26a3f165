"""C25: k-Shape and the shape-based distance."""
import numba
import numpy as np
from hypothesis import strategies as st

from tslearn.clustering import KShape
from tslearn.metrics import cdist_normalized_cc, y_shifted_sbd_vec
from tslearn.metrics.cycc import normalized_cc
from tslearn.preprocessing import TimeSeriesScalerMeanVariance

from .. import gen, stops
from ..core import sub

PROPERTY = "C25"
RULE = ("Pairs and sets of series of equal length (2-24 timestamps, 1-3 "
        "features, constant and zero series included); seeded z-normalised "
        "datasets of 4-12 series with 1-4 clusters, given or random initial "
        "centers, few or many iterations. Non-trivial: a best shift other "
        "than 0 for the distances, several clusters for the fits.")

# The one threading layer of numba that survives a fork.
numba.config.THREADING_LAYER = "workqueue"
WARM = ["cross_correlation", "consistency"]


def cc_ref(a, b):
    """Normalised cross-correlation at shifts -(sz-1) .. sz-1 of b."""
    sz = len(a)
    norm = np.linalg.norm(a) * np.linalg.norm(b)
    out = np.zeros(2 * sz - 1)
    for k in range(2 * sz - 1):
        out[k] = (shifted(b, k - sz + 1) * a).sum()
    return out / norm if norm >= 1e-9 else np.zeros(2 * sz - 1)


def shifted(b, s):
    """b delayed by s timestamps, zeros elsewhere."""
    out = np.zeros_like(b)
    for i in range(len(b)):
        if 0 <= i - s < len(b):
            out[i] = b[i - s]
    return out


@st.composite
def sets(draw):
    kind = draw(gen.KIND)
    d = draw(st.integers(1, 3))
    sz = draw(st.one_of(st.integers(2, 7), st.integers(2, 24)))
    n, m = draw(st.integers(1, 4)), draw(st.integers(1, 4))
    if sz <= 7:
        X = [draw(gen.series(sz, sz, d, kind)) for _ in range(n + m)]
    else:
        s = draw(st.integers(0, 10 ** 6))
        X = [gen._rand(s + i, sz, d, kind) for i in range(n + m)]
    return {"X": np.array(X[:n]), "Y": np.array(X[n:]),
            "given": draw(st.booleans()), "self": draw(st.booleans())}


@sub(sets(), quick=700, shards=4)
def cross_correlation(c, t):
    X, Y = c["X"], c["Y"]
    x, y = X[0], Y[0]
    nx, ny = np.linalg.norm(x), np.linalg.norm(y)
    want = cc_ref(x, y)
    tol = dict(rtol=1e-6, atol=1e-9)
    got = normalized_cc(x, y, norm1=nx, norm2=ny) if c["given"] \
        else normalized_cc(x, y)
    t.close(got, want, "normalized_cc", **tol)
    NX = np.linalg.norm(X, axis=(1, 2))
    NY = np.linalg.norm(Y, axis=(1, 2))
    if c["self"]:
        W = np.array([[cc_ref(a, b).max() for b in X] for a in X])
        np.fill_diagonal(W, 0)
        got = cdist_normalized_cc(X, X, norms1=NX if c["given"] else -1. * NX
                                  - 1, norms2=NX.copy(), self_similarity=True)
    else:
        W = np.array([[cc_ref(a, b).max() for b in Y] for a in X])
        n1, n2 = (NX, NY) if c["given"] else (-np.ones(len(X)),
                                              -np.ones(len(Y)))
        got = cdist_normalized_cc(X, Y, norms1=n1, norms2=n2,
                                  self_similarity=False)
    t.close(got, W, "cdist_normalized_cc", **tol)
    t.ok(np.all(got <= 1 + 1e-9), "similarity above 1", got=got)
    S = y_shifted_sbd_vec(x, Y, norm_ref=nx if c["given"] else -1.,
                          norms_dataset=NY if c["given"] else -np.ones(len(Y)))
    t.ok(S.shape == Y.shape, "shape of shifted series")
    moved = False
    for b, s in zip(Y, S):
        w = cc_ref(x, b)
        best = np.nonzero(w >= w.max() - 1e-9)[0] - len(x) + 1
        moved |= 0 not in best
        t.ok(any(np.array_equal(s, shifted(b, k)) for k in best)
             or np.linalg.norm(b) * nx < 1e-6,
             "not the best shift", ref=x, series=b, got=s)
    t.nt(moved)


def znorm(X):
    m, s = X.mean(axis=1, keepdims=True), X.std(axis=1, keepdims=True)
    return (X - m) / s


@st.composite
def cases(draw, inits=("random", "random", "array")):
    return {"p": draw(gen.seeded(4, 12, 4, 10, variable=False, large=True)),
            "k": draw(st.integers(1, 4)), "init": draw(st.sampled_from(inits)),
            "dt": draw(st.sampled_from(["f8", "f8", "f4", "i8"])),
            "iters": draw(st.sampled_from([1, 2, 3, 5, 50, 50])),
            "n_init": draw(st.sampled_from([1, 1, 3])),
            "seed": draw(st.integers(0, 9999)), "zn": draw(st.integers(1, 14)),
            "scale": draw(st.sampled_from([1.0, 0.3, 20.0])),
            "shift": draw(st.sampled_from([0.0, -2.0, 10.0]))}


def data(c):
    X = gen.bulk(c["p"])[0]
    Z = gen.bulk(dict(c["p"], seed=c["p"]["seed"] ^ 77, n=c["zn"] + 1))[0]
    return znorm(X), Z[:c["zn"]]


def make(c, X, **over):
    init = "random"
    if c["init"] == "array":
        rng = np.random.RandomState(c["seed"])
        init = znorm(X[rng.choice(len(X), c["k"], replace=False)]
                     + 0.1 * rng.standard_normal((c["k"],) + X.shape[1:]))
        if c["dt"] == "i8":
            init = np.round(5 * init)
        init = init.astype(c["dt"])
    k = dict(n_clusters=c["k"], init=init, max_iter=c["iters"],
             n_init=c["n_init"], random_state=c["seed"])
    k.update(over)
    return KShape(**k)


def sbd(X, C):
    return np.array([[1 - cc_ref(x, z).max() for z in C] for x in X])


def nearest(t, D, labels, msg):
    own = D[np.arange(len(D)), np.asarray(labels)]
    t.ok(np.all(own <= D.min(axis=1) + 1e-7), msg + ": not the closest center",
         labels=labels, distances=D)


@sub(st.tuples(cases(), st.integers(2, 7),
               st.sampled_from([1e-6, 1e-3, 0.02, 0.1, 0.5])), quick=200,
     shards=2)
def stopping(c, t):
    """A fit stops when the inertia changes by less than the tolerance, or
    grows, and does without that last iteration."""
    c, limit, part = c
    X, _ = data(c)
    got = stops.check(t, lambda **k: make(c, X, n_init=1, **k), X, limit,
                      part, c["seed"])
    if got is None:
        return
    m, n, stopped, runs = got
    want = runs[n - 1] if stopped else runs[n]
    t.close(m.cluster_centers_, want.cluster_centers_, "centers")
    t.equal(m.labels_, want.labels_, "labels_")
    t.close(m.inertia_, want.inertia_, "inertia_")
    t.nt(c["k"] > 1 and stopped)


@sub(st.tuples(cases(inits=["array"]), st.integers(2, 6)), quick=120,
     shards=2)
def one_by_one(c, t):
    """Without a tolerance, iterations are made until the inertia grows."""
    c, limit = c
    c = dict(c, p=dict(c["p"], n=c["p"]["n"] + 10), k=1 + c["k"] % 3)
    X, _ = data(c)
    runs = stops.chain(t, lambda **k: make(c, X, n_init=1, **k), X, limit)
    if runs is None:
        return
    value = [m.inertia_ for m in runs]
    if min(abs(np.diff(value)), default=1) < 1e-9 * (1 + value[0]):
        return
    grown = [j for j in range(1, limit) if value[j] > value[j - 1]]
    last = grown[0] - 1 if grown else limit - 1
    m = make(c, X, n_init=1, max_iter=limit, tol=0.0).fit(X)
    t.equal(m.n_iter_, last + 2 if grown else limit, "n_iter_", inertia=value)
    t.close(m.cluster_centers_, runs[last].cluster_centers_, "centers",
            rtol=1e-7, atol=1e-7)
    t.equal(m.labels_, runs[last].labels_, "labels_")
    t.nt(c["k"] > 1 and last > 0)


@sub(cases(inits=["random"]), quick=150, shards=2)
def best_run(c, t):
    """What several runs give is what the best one of them gives."""
    X, _ = data(c)
    t.nt(stops.best(
        t, lambda **k: make(c, X, max_iter=20, tol=1e-6, **k), X, c["seed"],
        lambda a, b: np.array_equal(a.labels_, b.labels_) and np.allclose(
            a.cluster_centers_, b.cluster_centers_)))


@sub(cases(), quick=400, shards=6)
def consistency(c, t):
    X, Z = data(c)
    est = make(c, X).fit(X)
    if est._X_fit is None:
        t.label("only empty clusters")
        return
    C = est.cluster_centers_
    t.ok(C.shape == (c["k"],) + X.shape[1:], "shape of centers")
    t.close(C.mean(axis=1), np.zeros(C[:, 0].shape), "mean of centers",
            atol=1e-8)
    t.close(C.std(axis=1), np.ones(C[:, 0].shape), "deviation of centers",
            rtol=1e-8)
    D = sbd(X, C)
    lab = est.labels_
    t.ok(set(lab.tolist()) == set(range(c["k"])), "empty cluster", labels=lab)
    nearest(t, D, lab, "labels_")
    own = D[np.arange(len(D)), lab]
    t.close(est.inertia_, (own ** 2).mean(), "inertia_", rtol=1e-6, atol=1e-8)
    t.ok(1 <= est.n_iter_ <= c["iters"], "n_iter_", n=est.n_iter_)
    nearest(t, D, est.predict(X), "prediction of the fitted data")
    E = sbd(znorm(Z), C)
    new = est.predict(Z)
    nearest(t, E, new, "prediction of new data")
    nearest(t, E, est.predict(c["scale"] * Z + c["shift"]),
            "prediction of scaled data")
    nearest(t, E[:1], est.predict(Z[:1]), "prediction of one series")
    t.equal(make(c, X).fit_predict(X), lab, "fit_predict")
    t.nt(c["k"] > 1)


@sub(cases(inits=("array",)), quick=200, shards=4)
def descent(c, t):
    """More iterations never give a worse clustering."""
    X, _ = data(c)
    a = make(c, X).fit(X)
    b = make(c, X, max_iter=c["iters"] + 1).fit(X)
    if a._X_fit is None or b._X_fit is None:
        return
    va, vb = [(sbd(X, m.cluster_centers_).min(axis=1) ** 2).mean()
              for m in (a, b)]
    t.ok(vb <= va + 1e-7, "inertia increased", before=va, after=vb)
    t.label("improved", vb < va - 1e-6)
    t.nt(c["k"] > 1)


@sub(cases(inits=("array",)), quick=300, shards=4)
def one_step(c, t):
    """From given centers, each new center is the shape of its members."""
    X, _ = data(c)
    est = make(c, X, max_iter=1)
    C = np.array(est.init)
    D = sbd(X, C)
    s = np.sort(D, axis=1)
    if c["k"] > 1 and (s[:, 1] - s[:, 0]).min() < 1e-6:
        return
    lab = D.argmin(axis=1)
    if len(set(lab)) < c["k"]:
        return
    est.fit(X)
    if est._X_fit is None:
        return
    sz = X.shape[1]
    Q = np.eye(sz) - 1.0 / sz
    unique = True
    for j in range(c["k"]):
        P = []
        for x in X[lab == j]:
            w = cc_ref(C[j], x)
            o = np.sort(w)
            unique &= o[-1] - o[-2] > 1e-6
            P.append(shifted(x, int(w.argmax()) - sz + 1))
        if not unique:
            return
        P = np.array(P)
        for f in range(X.shape[2]):
            A = P[:, :, f]
            M = Q @ A.T @ A @ Q
            val, vec = np.linalg.eigh(M)
            v = vec[:, -1]
            if val[-1] - val[-2] < 1e-3 * val[-1]:
                continue
            up = np.linalg.norm(A - v, axis=1).sum()
            down = np.linalg.norm(A + v, axis=1).sum()
            z = (v - v.mean()) / v.std()
            g = est.cluster_centers_[j][:, f]
            if abs(up - down) > 1e-4:
                t.close(g, z if up < down else -z, "center", rtol=1e-5,
                        atol=1e-5, cluster=j, feature=f)
            else:
                t.close(np.abs(g), np.abs(z), "center up to its sign",
                        rtol=1e-5, atol=1e-5)
    t.nt(c["k"] > 1)


@sub(cases(), quick=40)
def refusals(c, t):
    X, _ = data(c)
    t.raises(ValueError, lambda: make(c, X, init="nope").fit(X), "init")
    est = make(c, X).fit(X)
    if est._X_fit is None:
        return
    t.raises(ValueError, lambda: est.predict(np.concatenate([X, X], axis=2)),
             "number of features")
    t.nt()
