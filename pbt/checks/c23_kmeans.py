"""C23: k-means clusterings are consistent and improve with iterations."""
import numpy as np
from hypothesis import strategies as st

from tslearn.clustering import TimeSeriesKMeans

from .. import gen, ref, stops
from ..core import NotJudged, sub

PROPERTY = "C23"
RULE = ("Seeded datasets of 4-12 series (3-8 timestamps, 1-3 features; "
        "different lengths for DTW and soft-DTW), 1-4 clusters, every metric "
        "with constraints or gamma, every initialisation, few or many "
        "iterations and restarts, new data to predict. Non-trivial: a fit "
        "without empty cluster and more than one cluster.")

WARM = ["consistency", "descent"]


@st.composite
def cases(draw, metrics=("euclidean", "dtw", "softdtw"), inits=None):
    m = draw(st.sampled_from(metrics))
    p = draw(gen.seeded(4, 12, 3, 8, variable=False, large=True))
    p["variable"] = m != "euclidean" and draw(st.booleans())
    kw = {}
    if m == "dtw":
        kw = draw(gen.constraint(itakura=False))
    elif m == "softdtw":
        kw = {"gamma": draw(st.sampled_from([0.1, 1.0, 5.0]))}
    return {"p": p, "metric": m, "k": draw(st.integers(1, 4)), "kw": kw,
            "init": draw(st.sampled_from(inits or ["k-means++", "k-means++",
                                                   "random", "array"])),
            "dt": draw(st.sampled_from(["f8", "f8", "f4", "i8"])),
            "iters": draw(st.integers(1, 6)), "n_init": draw(
                st.sampled_from([1, 1, 3])),
            "seed": draw(st.integers(0, 9999)),
            "jobs": 2 if draw(st.integers(0, 9)) == 9 else None,
            "dtw_inertia": draw(st.booleans()),
            "zn": draw(st.integers(1, 4))}


def data(c):
    X = gen.bulk(c["p"])[0]
    Z = gen.bulk(dict(c["p"], seed=c["p"]["seed"] ^ 77, n=c["zn"] + 1))[0]
    return X, Z[:c["zn"]]


def make(c, X, **over):
    init = c["init"]
    if init == "array":
        rng = np.random.RandomState(c["seed"])
        full = [i for i, n in enumerate(gen.lens(X)) if n == X.shape[1]]
        i = rng.choice(full, c["k"])
        init = X[i] + 0.3 * rng.standard_normal((c["k"],) + X.shape[1:])
        init = (np.round(init) if c["dt"] == "i8" else init).astype(c["dt"])
    k = dict(n_clusters=c["k"], metric=c["metric"], init=init,
             max_iter=c["iters"], n_init=c["n_init"], tol=0.0,
             max_iter_barycenter=5, metric_params=dict(c["kw"]) or None,
             random_state=c["seed"], n_jobs=c["jobs"])
    k.update(over)
    return TimeSeriesKMeans(**k)


def distances(c, X, C):
    """Distances to the centers under the clustering metric."""
    if c["metric"] == "euclidean":
        return np.sqrt([[((x - z) ** 2).sum() for z in C] for x in X])
    A = [a if len(a) else np.zeros((1, X.shape[2])) for a in ref.ts_list(X)]
    if c["metric"] == "dtw":
        return np.array([[ref.dtw(a, z, c["kw"]) for z in C] for a in A])
    return np.array([[ref.soft_dtw(ref.sqcost(a, z), c["kw"]["gamma"])
                      for z in C] for a in A])


def nearest(t, D, labels, msg):
    labels = np.asarray(labels)
    t.ok(labels.shape == (len(D),), msg + " shape")
    own = D[np.arange(len(D)), labels]
    t.ok(np.all(own <= D.min(axis=1) + 1e-7 * (1 + np.abs(own))),
         msg + ": not the closest center", labels=labels, distances=D)


@sub(cases(), quick=360, shards=6)
def consistency(c, t):
    X, Z = data(c)
    est = make(c, X, dtw_inertia=c["dtw_inertia"]).fit(X)
    if est._X_fit is None:
        t.label("only empty clusters")
        return
    C = est.cluster_centers_
    t.ok(C.shape == (c["k"],) + X.shape[1:] and np.isfinite(C).all(),
         "centers", centers=C)
    D = distances(c, X, C)
    nearest(t, D, est.labels_, "labels_")
    t.ok(set(est.labels_.tolist()) == set(range(c["k"])), "empty cluster",
         labels=est.labels_)
    own = D[np.arange(len(D)), est.labels_]
    if c["dtw_inertia"] and c["metric"] != "dtw":
        own = distances(dict(c, metric="dtw", kw={}), X, C)[
            np.arange(len(D)), est.labels_]
    t.close(est.inertia_, (own ** 2).mean(), "inertia_", rtol=1e-6, atol=1e-8)
    t.close(est.transform(X), D, "transform", rtol=1e-6, atol=1e-6)
    E = distances(c, Z, C)
    t.close(est.transform(Z), E, "transform of new data", rtol=1e-6,
            atol=1e-6)
    nearest(t, E, est.predict(Z), "prediction")
    nearest(t, D, est.predict(X), "prediction of the fitted data")
    t.ok(1 <= est.n_iter_ <= c["iters"], "n_iter_", n=est.n_iter_)
    t.label(c["metric"])
    t.nt(c["k"] > 1)


@sub(cases(metrics=("euclidean", "dtw"), inits=["array"]), quick=200,
     shards=4)
def descent(c, t):
    """One more iteration never gives a worse clustering."""
    X, _ = data(c)
    a = make(c, X, n_init=1).fit(X)
    b = make(c, X, n_init=1, max_iter=c["iters"] + 1).fit(X)
    if a._X_fit is None or b._X_fit is None:
        t.label("empty cluster")
        return
    va = (distances(c, X, a.cluster_centers_).min(axis=1) ** 2).mean()
    vb = (distances(c, X, b.cluster_centers_).min(axis=1) ** 2).mean()
    t.ok(vb <= va * (1 + 1e-6) + 1e-8, "inertia increased", it=c["iters"],
         before=va, after=vb)
    t.label("improved", vb < va * (1 - 1e-6))
    t.nt(c["k"] > 1)


@sub(cases(metrics=("euclidean",), inits=["array"]), quick=300, shards=2)
def lloyd(c, t):
    """Given initial centers, exactly that many steps of Lloyd's algorithm."""
    X, _ = data(c)
    est = make(c, X, n_init=1)
    C = np.array(est.init, dtype=float)
    clear = True
    old = None
    for _ in range(c["iters"]):
        D = distances(c, X, C)
        lab = D.argmin(axis=1)
        if len(set(lab)) < c["k"]:
            t.label("empty cluster")
            return
        s = np.sort(D, axis=1)
        clear &= c["k"] == 1 or (s[:, 1] - s[:, 0]).min() > 1e-8
        C = np.array([X[lab == j].mean(axis=0) for j in range(c["k"])])
        old = lab
    lab = distances(c, X, C).argmin(axis=1)
    if len(set(lab)) < c["k"] or not clear:
        return
    est.fit(X)
    t.close(est.cluster_centers_, C, "centers", rtol=1e-8, atol=1e-8)
    t.equal(est.labels_, lab, "labels")
    t.nt(c["k"] > 1 and old is not None)


@sub(cases(), quick=120, shards=4)
def restarts_and_form(c, t):
    """More restarts of the same seed are never worse; the form of the data
    does not matter."""
    X, Z = data(c)
    c = dict(c, dtw_inertia=False)
    one = make(c, X, n_init=1).fit(X)
    many = make(c, X, n_init=3).fit(X)
    if one._X_fit is None or many._X_fit is None:
        return
    t.ok(many.inertia_ <= one.inertia_ * (1 + 1e-9) + 1e-12,
         "more restarts are worse", one=one.inertia_, many=many.inertia_)
    est = make(c, X)
    lab = est.fit_predict(X)
    t.equal(lab, make(c, X).fit(X).labels_, "fit_predict")
    if not c["p"]["variable"] and X.shape[2] == 1:
        est = make(c, X).fit(X[:, :, 0])
        t.equal(est.labels_, lab, "labels of two-dimensional data")
    t.nt(c["k"] > 1)


@sub(cases(metrics=("euclidean", "euclidean", "dtw"),
           inits=["k-means++", "random"]), quick=200, shards=2)
def best_run(c, t):
    """What several runs give is what the best one of them gives."""
    X = gen.bulk(dict(c["p"], n=c["p"]["n"] + 6))[0]
    if c["metric"] == "dtw":
        X = X[:8]
    c = dict(c, dtw_inertia=False)
    t.nt(stops.best(
        t, lambda **k: make(c, X, max_iter=20, tol=1e-6, **k), X, c["seed"],
        lambda a, b: np.array_equal(a.labels_, b.labels_) and np.allclose(
            a.cluster_centers_, b.cluster_centers_)))


@sub(st.tuples(cases(metrics=("euclidean", "euclidean", "dtw"),
                     inits=["array"]), st.integers(2, 7), st.sampled_from([1e-6, 1e-3, 0.02, 0.1, 0.5])), quick=120,
     shards=2)
def stopping(c, t):
    """A fit stops when the inertia changes by less than the tolerance."""
    c, limit, part = c
    X, _ = data(c)
    init = make(c, X).init
    two = np.sort(distances(c, X, init), axis=1)
    got = stops.check(t, lambda **k: make(c, X, n_init=1, **k), X, limit,
                      part, c["seed"], before=(two[:, 0] ** 2).mean())
    if got is None:
        return
    m, n, stopped, runs = got
    t.close(m.cluster_centers_, runs[n].cluster_centers_, "centers")
    t.equal(m.labels_, runs[n].labels_, "labels_")
    t.close(m.inertia_, runs[n].inertia_, "inertia_")
    t.nt(c["k"] > 1 and stopped)


@sub(st.tuples(cases(inits=["array"]), st.integers(2, 5)), quick=80,
     shards=2)
def one_by_one(c, t):
    """Without a tolerance, every iteration allowed is made."""
    c, limit = c
    c = dict(c, p=dict(c["p"], n=c["p"]["n"] + 8))
    X, _ = data(c)
    runs = stops.chain(t, lambda **k: make(c, X, n_init=1, **k), X, limit)
    if runs is None:
        return
    m = make(c, X, n_init=1, max_iter=limit, tol=0.0).fit(X)
    t.equal(m.n_iter_, limit, "n_iter_")
    t.close(m.cluster_centers_, runs[-1].cluster_centers_, "centers",
            rtol=1e-7, atol=1e-7)
    t.equal(m.labels_, runs[-1].labels_, "labels_")
    t.close(m.inertia_, runs[-1].inertia_, "inertia_", rtol=1e-7)
    t.nt(c["k"] > 1 and np.any(abs(runs[-1].cluster_centers_ -
                                   runs[0].cluster_centers_) > 1e-9))


@sub(cases(), quick=40)
def refusals(c, t):
    X, _ = data(c)
    t.raises(ValueError, lambda: make(c, X, metric="nope").fit(X), "metric")
    t.raises(ValueError, lambda: make(c, X, init="nope").fit(X), "init")
    est = make(c, X).fit(X)
    t.raises(ValueError, lambda: est.predict(np.concatenate([X, X], axis=2)),
             "number of features")
    t.nt()


@sub(st.tuples(cases(metrics=("euclidean", "dtw")), gen.UNITS), quick=100,
     shards=4)
def units(c, t):
    """The clustering does not depend on the unit of the series."""
    c, k = c
    s = 2.0 ** k
    X, Z = data(c)
    # more iterations of an average stop at an absolute tolerance
    a, b = (make(c, X, max_iter_barycenter=1) for _ in range(2))
    if c["init"] == "array":
        b.init = s * np.asarray(a.init)
    a.fit(X)
    b.fit(s * X)
    if getattr(a, "_X_fit", None) is None:
        t.ok(getattr(b, "_X_fit", None) is None, "fit in another unit")
        return
    t.equal(b.labels_, a.labels_, "labels in another unit")
    t.equal(b.predict(s * Z), a.predict(Z), "predictions in another unit")
    want = s * a.cluster_centers_
    t.close(b.cluster_centers_, want, "centers in another unit",
            **gen.unit_tol(want))
    want = s * s * a.inertia_
    t.close(b.inertia_, want, "inertia in another unit", **gen.unit_tol(want))
    t.nt(c["k"] > 1)


@sub(st.tuples(cases(metrics=("dtw",), inits=["array"]), st.integers(1, 4)),
     quick=150, shards=3)
def barycenters(c, t):
    """One step from given centers averages the members of each of them with
    the number of iterations asked for."""
    from . import c22_barycenters as bary
    c, iters = c
    X, _ = data(c)
    m = make(c, X, max_iter=1, n_init=1, max_iter_barycenter=iters)
    init = np.array(m.init)
    D = distances(c, X, init)
    two = np.sort(D, axis=1)[:, :2]
    labels = D.argmin(axis=1)
    if two.shape[1] > 1 and (two[:, 1] - two[:, 0] < 1e-6).any():
        raise NotJudged("tie between centers")
    if len(set(labels)) < c["k"]:
        return
    A = [a if len(a) else np.zeros((1, X.shape[2])) for a in ref.ts_list(X)]
    want = []
    for j in range(c["k"]):
        B, prev = init[j], np.inf
        own = [a for a, l in zip(A, labels) if l == j]
        w = np.ones(len(own))
        if bary.masks(B, own, c["kw"]) is None:
            return
        for _ in range(iters):
            cur = bary.cost(B, own, w, c["kw"])
            if abs(prev - cur) < 1e-4:
                raise NotJudged("the average has converged")
            B, clear = bary.dba_step(B, own, w, c["kw"])
            if not clear:
                raise NotJudged("several optimal alignments")
            prev = cur
        want.append(B)
    m.fit(X)
    if getattr(m, "_X_fit", None) is None:
        return
    t.close(m.cluster_centers_, np.array(want), "centers after one step",
            rtol=1e-6, atol=1e-6 * (1 + np.abs(want).max()))
    t.nt(iters > 1)
