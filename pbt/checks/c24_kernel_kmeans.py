"""C24: kernel k-means assigns by mean kernel similarity to its clusters."""
import copy

import numpy as np
from hypothesis import strategies as st
from sklearn.metrics.pairwise import pairwise_kernels

from tslearn.clustering import KernelKMeans
from tslearn.metrics import sigma_gak

from .. import gen, ref, stops
from ..core import sub

PROPERTY = "C24"
RULE = ("Seeded datasets of 4-12 series (3-8 timestamps, 1-3 features; "
        "different lengths for the alignment kernel), 1-4 clusters, alignment "
        "and vector kernels with parameters, sample weights, restarts, new "
        "data to predict. Non-trivial: several clusters with a "
        "non-constant kernel matrix.")

WARM = ["assignment"]


@st.composite
def cases(draw):
    kernel = draw(st.sampled_from(["gak", "gak", "gak", "rbf", "laplacian",
                                   "cosine", "linear", "sigmoid"]))
    p = draw(gen.seeded(4, 12, 3, 8, variable=False))
    p["variable"] = kernel == "gak" and draw(st.booleans())
    kp = None
    if kernel == "gak":
        kp = draw(st.sampled_from([None, {}, {"sigma": 2.0}, {"sigma": 5.0},
                                   {"sigma": "auto"}, {"sigma": "auto"}]))
    elif kernel in ("rbf", "laplacian", "sigmoid"):
        kp = draw(st.sampled_from([None, {"gamma": 0.05}, {"gamma": 0.01}]))
    w = None
    if draw(st.booleans()):
        w = [draw(st.sampled_from([0.5, 1.0, 1.0, 2.0, 7.0]))
             for _ in range(p["n"])]
    return {"p": p, "kernel": kernel, "params": kp, "weights": w,
            "k": draw(st.integers(1, 4)), "seed": draw(st.integers(0, 9999)),
            "n_init": draw(st.sampled_from([1, 1, 3])),
            "iters": draw(st.sampled_from([1, 2, 50, 50, 50])),
            "jobs": 2 if draw(st.integers(0, 11)) == 11 else None,
            "zn": draw(st.integers(1, 4))}


def data(c):
    X = gen.bulk(c["p"])[0]
    Z = gen.bulk(dict(c["p"], seed=c["p"]["seed"] ^ 77, n=c["zn"] + 1))[0]
    return X, Z[:c["zn"]]


def make(c, **over):
    k = dict(n_clusters=c["k"], kernel=c["kernel"],
             kernel_params=copy.deepcopy(c["params"]), max_iter=c["iters"],
             n_init=c["n_init"], random_state=c["seed"], n_jobs=c["jobs"])
    k.update(over)
    return KernelKMeans(**k)


def log_gak(a, b, s):
    C = ref.sqcost(a, b)
    L = C / (2 * s * s)
    L = -(L + np.log(2 - np.exp(-L)))
    n, m = C.shape
    A = np.full((n + 1, m + 1), -np.inf)
    A[0, 0] = 0.0
    for i in range(n):
        for j in range(m):
            A[i + 1, j + 1] = L[i, j] + np.logaddexp.reduce(
                [A[i, j], A[i, j + 1], A[i + 1, j]])
    return A[n, m]


def kernel(c, X, Y, sigma):
    if c["kernel"] != "gak":
        return pairwise_kernels(X.reshape(len(X), -1), Y.reshape(len(Y), -1),
                                metric=c["kernel"], **(c["params"] or {}))
    A, B = ref.ts_list(X), ref.ts_list(Y)
    da = [log_gak(a, a, sigma) for a in A]
    db = [log_gak(b, b, sigma) for b in B]
    return np.exp([[log_gak(a, b, sigma) - (p + q) / 2
                    for b, q in zip(B, db)] for a, p in zip(A, da)])


def similarity(K, labels, w, k):
    """Weighted mean similarity to the members of each cluster."""
    return np.stack([(K[:, labels == j] * w[labels == j]).sum(axis=1)
                     / w[labels == j].sum() for j in range(k)], axis=1)


def largest(t, S, labels, msg):
    labels = np.asarray(labels)
    t.ok(labels.shape == (len(S),), msg + " shape")
    own = S[np.arange(len(S)), labels]
    t.ok(np.all(own >= S.max(axis=1) - 1e-7 * (1 + np.abs(own))),
         msg + ": not the most similar cluster", labels=labels, similarity=S)


def well_scaled(X):
    """Values for which the alignment kernel neither overflows nor vanishes."""
    return (X - np.nanmean(X)) / np.nanstd(X)


@sub(cases(), quick=1200, shards=6)
def assignment(c, t):
    X, Z = data(c)
    X, Z = well_scaled(X), well_scaled(Z)
    w = None if c["weights"] is None else np.array(c["weights"])
    est = make(c).fit(X, sample_weight=w)
    if est._X_fit is None:
        t.label("only empty clusters")
        return
    w = np.ones(len(X)) if w is None else w
    sigma = None
    if c["kernel"] == "gak":
        sigma = est.sigma_gak_
        want = (c["params"] or {}).get("sigma", 1.0)
        if want == "auto":
            rs = np.random.RandomState(c["seed"])
            want = sigma_gak(X, random_state=rs)
        t.close(sigma, want, "sigma_gak_")
    lab = np.asarray(est.labels_)
    t.ok(set(lab.tolist()) == set(range(c["k"])), "empty cluster", labels=lab)
    K = kernel(c, X, X, sigma)
    S = similarity(K, lab, w, c["k"])
    new = est.predict(X)
    largest(t, S, new, "prediction of the fitted data")
    largest(t, similarity(kernel(c, Z, X, sigma), lab, w, c["k"]),
            est.predict(Z), "prediction of new data")
    t.ok(1 <= est.n_iter_ <= c["iters"], "n_iter_", n=est.n_iter_)
    s = np.sort(S, axis=1)
    clear = c["k"] == 1 or (s[:, -1] - s[:, -2]).min() > 1e-5
    inertia = (2 - 2 * S.max(axis=1)).sum()
    if est.n_iter_ < c["iters"] and clear:
        t.equal(new, lab, "converged labels")
        t.close(est.inertia_, inertia, "inertia_", rtol=1e-7, atol=2e-6)
        t.label("converged")
    elif w.min() == w.max() and c["kernel"] in ("gak", "rbf", "laplacian"):
        t.ok(inertia <= est.inertia_ + 1e-6, "inertia_ below its clusters'",
             inertia=est.inertia_, want=inertia)
    t.label(c["kernel"])
    t.nt(c["k"] > 1 and np.ptp(K) > 1e-3)


@sub(st.tuples(cases(), st.integers(2, 7), st.sampled_from([1e-6, 1e-3, 0.02, 0.1, 0.5])), quick=200, shards=2)
def stopping(c, t):
    """A fit stops when the inertia changes by less than the tolerance."""
    c, limit, part = c
    X = well_scaled(data(c)[0])
    w = None if c["weights"] is None else np.array(c["weights"])

    def build(**k):
        m = make(c).set_params(n_init=1, **k)
        fit = m.fit
        m.fit = lambda X: fit(X, sample_weight=w)
        return m
    got = stops.check(t, build, X, limit, part, c["seed"])
    if got is None:
        return
    m, n, stopped, runs = got
    t.equal(m.labels_, runs[n].labels_, "labels_")
    t.close(m.inertia_, runs[n].inertia_, "inertia_")
    t.nt(c["k"] > 1 and stopped)


@sub(cases(), quick=150, shards=2)
def best_run(c, t):
    """What several runs give is what the best one of them gives."""
    X = well_scaled(data(c)[0])
    if (c["params"] or {}).get("sigma") == "auto":
        t.label("automatic bandwidth")
        return
    t.nt(stops.best(
        t, lambda **k: make(c).set_params(max_iter=20, tol=1e-6, **k), X,
        c["seed"], lambda a, b: np.array_equal(a.labels_, b.labels_)))


@sub(cases(), quick=400, shards=4)
def refits(c, t):
    """Same seed, same result; the parameters are left alone, and fitting
    other data is as if the model were new."""
    X, Z = data(c)
    X = well_scaled(X)
    Y = well_scaled(gen.bulk(dict(c["p"], seed=c["p"]["seed"] + 1))[0]) * 3
    w = None if c["weights"] is None else np.array(c["weights"])
    est = make(c).fit(X, sample_weight=w)
    t.ok(est.get_params()["kernel_params"] == c["params"],
         "kernel_params changed", now=est.kernel_params)
    one = make(c).fit(X, sample_weight=w)
    t.ok((est._X_fit is None) == (one._X_fit is None), "failure depends")
    if est._X_fit is None:
        return
    t.equal(est.labels_, one.labels_, "labels of the same seed")
    t.equal(est.inertia_, one.inertia_, "inertia of the same seed")
    if w is None:
        t.equal(make(c).fit_predict(X), est.labels_, "fit_predict")
    else:
        t.equal(make(c).fit(X, sample_weight=3 * w).predict(X),
                est.predict(X), "scaled weights")
    many = make(c, n_init=4).fit(X, sample_weight=w)
    less = make(c, n_init=1).fit(X, sample_weight=w)
    t.ok(less._X_fit is None
         or many.inertia_ <= less.inertia_ + 1e-9 * (1 + abs(less.inertia_)),
         "more restarts are worse", one=less.inertia_, many=many.inertia_)
    est.fit(Y)
    new = make(c).fit(Y)
    t.ok((est._X_fit is None) == (new._X_fit is None), "refit fails")
    if new._X_fit is not None:
        t.equal(est.labels_, new.labels_, "labels after a refit")
        t.equal(est.inertia_, new.inertia_, "inertia after a refit")
        t.equal(est.predict(X), new.predict(X), "prediction after a refit")
        t.ok(est.sigma_gak_ == new.sigma_gak_, "sigma after a refit",
             got=est.sigma_gak_, want=new.sigma_gak_)
    t.label(c["kernel"])
    t.nt(c["k"] > 1)
