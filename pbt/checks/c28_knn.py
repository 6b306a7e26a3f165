"""C28: nearest-neighbour search and predictions are exact."""
import copy

import numpy as np
from hypothesis import strategies as st

from tslearn.neighbors import (KNeighborsTimeSeries,
                               KNeighborsTimeSeriesClassifier,
                               KNeighborsTimeSeriesRegressor)

from .. import gen, ref
from ..core import sub

PROPERTY = "C28"
RULE = ("Seeded datasets of 2-14 series (3-7 timestamps, 1-3 features, "
        "different lengths where the metric allows), every metric with "
        "parameters, k from 1 to beyond the number of series, new or own "
        "queries in array or list form, uniform or distance weights, class "
        "names, single and multiple targets. Non-trivial: 1 < k < number of "
        "series with distinct distances.")

WARM = ["search"]
METRICS = ["dtw", "dtw", "dtw", "softdtw", "frechet", "euclidean",
           "sqeuclidean", "cityblock", "precomputed"]
CLASSES = {"search": KNeighborsTimeSeries,
           "classify": KNeighborsTimeSeriesClassifier,
           "regress": KNeighborsTimeSeriesRegressor}
ELASTIC = ("dtw", "softdtw", "frechet")


@st.composite
def metric(draw):
    m = draw(st.sampled_from(METRICS))
    kw = {}
    if m in ("dtw", "frechet"):
        kw = draw(gen.constraint(itakura=False))
    elif m == "softdtw":
        kw = {draw(st.sampled_from(["gamma", "gamma_sdtw"])): draw(
            st.sampled_from([0.1, 1.0, 3.0]))}
    if not kw and draw(st.booleans()):
        kw = None
    elif m in ELASTIC and draw(st.integers(0, 5)) == 5:
        kw = dict(kw, n_jobs=1, verbose=0)
    return {"metric": m, "kw": kw}


@st.composite
def cases(draw):
    c = draw(metric())
    p = draw(gen.seeded(2, 14, 3, 7, variable=False, large=True))
    p["variable"] = c["metric"] in ELASTIC and draw(st.booleans())
    c.update(p=p, k=draw(st.sampled_from([1, 1, 2, 3, 4, 5, 7, 20])),
             weights=draw(st.sampled_from(["uniform", "distance", "call"])),
             jobs=2 if draw(st.integers(0, 9)) == 9 else None,
             zn=draw(st.integers(1, 4)), form=draw(st.sampled_from(
                 ["array", "array", "list", "2d"])),
             names=draw(st.sampled_from(["int", "str", "gap"])),
             outputs=draw(st.sampled_from([0, 0, 1, 2])))
    return c


def inverse(d):
    return 1.0 / (1.0 + d)


def distances(c, X, Y):
    m = c["metric"]
    kw = {k: v for k, v in (c["kw"] or {}).items()
          if k not in ("n_jobs", "verbose")}
    A, B = ref.ts_list(X), ref.ts_list(Y)
    if m == "dtw":
        f = lambda a, b: ref.dtw(a, b, kw)
    elif m == "frechet":
        f = lambda a, b: np.sqrt(ref.frechet(
            ref.sqcost(a, b), ref.mask(len(a), len(b), kw))[-1, -1])
    elif m == "softdtw":
        g = kw.get("gamma", kw.get("gamma_sdtw", 1.0))
        f = lambda a, b: ref.soft_dtw(ref.sqcost(a, b), g)
    elif m == "cityblock":
        f = lambda a, b: np.abs(a - b).sum()
    elif m == "sqeuclidean":
        f = lambda a, b: ((a - b) ** 2).sum()
    else:
        f = lambda a, b: np.sqrt(((a - b) ** 2).sum())
    return np.array([[f(a, b) for b in B] for a in A])


def data(c):
    X = gen.bulk(c["p"])[0]
    Z = gen.bulk(dict(c["p"], seed=c["p"]["seed"] ^ 77,
                      n=max(c["zn"], 2)))[0][:c["zn"]]
    return X, Z


def present(c, Z):
    """The queries in the chosen form."""
    if c["metric"] != "precomputed":
        if c["form"] == "list" and not c["p"]["variable"]:
            return [a.tolist() for a in ref.ts_list(Z)]
        if c["form"] == "2d" and Z.shape[2] == 1 and not c["p"]["variable"]:
            return Z[:, :, 0]
    return Z


def make(kind, c, **over):
    k = dict(n_neighbors=c["k"], metric=c["metric"],
             metric_params=copy.deepcopy(c["kw"]), n_jobs=c["jobs"])
    if kind != "search":
        k["weights"] = inverse if c["weights"] == "call" else c["weights"]
    k.update(over)
    return CLASSES[kind](**k)


def check_neighbours(t, got, D, k, own=False):
    dist, ind = got
    D = D.copy()
    if own:
        np.fill_diagonal(D, np.inf)
    n = D.shape[1] - (1 if own else 0)
    k = min(k, n)
    t.ok(ind.shape == (len(D), k) and dist.shape == ind.shape,
         "shape of the neighbours", got=ind.shape, want=(len(D), k))
    want = np.sort(D, axis=1)[:, :k]
    t.close(dist, want, "distances to the neighbours", rtol=1e-6, atol=1e-7)
    t.close(np.take_along_axis(D, ind, axis=1), want,
            "distances of the indices", rtol=1e-6, atol=1e-7)
    t.ok(all(len(set(r)) == k for r in ind.tolist()), "repeated neighbour",
         ind=ind)


@sub(cases(), quick=1200, shards=4)
def search(c, t):
    X, Z = data(c)
    pre = c["metric"] == "precomputed"
    DX, DZ = distances(c, X, X), distances(c, Z, X)
    F, Q = (DX, DZ) if pre else (X, present(c, Z))
    y = np.arange(len(X)) % 2
    kind = ("search", "classify", "regress")[c["p"]["seed"] % 3]
    est = make(kind, c)
    est.fit(F) if kind == "search" else est.fit(F, y)
    params = copy.deepcopy(est.get_params())
    if kind != "search" and isinstance(Q, list):
        Q = Z
    check_neighbours(t, est.kneighbors(Q), DZ, c["k"])
    check_neighbours(t, est.kneighbors(Q, n_neighbors=2), DZ, 2)
    ind = est.kneighbors(Q, return_distance=False)
    t.equal(ind, est.kneighbors(Q)[1], "return_distance=False")
    if len(X) > 1:
        check_neighbours(t, est.kneighbors(), DX, c["k"], own=True)
    now = est.get_params()
    t.ok(now == params and now["metric"] == c["metric"]
         and now["metric_params"] == c["kw"], "parameters changed", now=now)
    t.label(c["metric"])
    t.label("ragged", c["p"]["variable"])
    t.nt(1 < c["k"] < len(X))


def weights(c, d):
    if c["weights"] == "uniform":
        return np.ones_like(d)
    if c["weights"] == "call":
        return inverse(d)
    if (d < 1e-12).any():
        return (d < 1e-12).astype(float)
    return 1.0 / d


@sub(cases(), quick=1500, shards=4)
def prediction(c, t):
    X, Z = data(c)
    if c["metric"] == "softdtw" and c["weights"] != "uniform":
        c = dict(c, weights="uniform")  # a soft-DTW may be negative
    k = min(c["k"], len(X))
    c = dict(c, k=k)
    if c["p"]["seed"] % 3 == 0:
        Z = np.concatenate([Z, X[:2]])
        if c["weights"] == "distance":
            Z = Z[:-2]
    pre = c["metric"] == "precomputed"
    DX, D = distances(c, X, X), distances(c, Z, X)
    F, Q = (DX, D) if pre else (X, present(c, Z))
    s = np.sort(D, axis=1)
    if k < len(X) and (s[:, k] - s[:, k - 1]).min() < 1e-6:
        t.label("tie")
        return
    rng = np.random.RandomState(c["p"]["seed"])
    lab = np.concatenate([[0, 1], rng.randint(0, 3, 62)])[:len(X)]
    names = {"int": np.arange(3), "str": np.array(["b", "a", "c"]),
             "gap": np.array([10, -3, 7])}[c["names"]]
    near = np.argsort(D, axis=1)[:, :k]
    W = np.array([weights(c, D[i, r]) for i, r in enumerate(near)])
    clf = make("classify", c).fit(F, names[lab])
    classes = np.unique(names[lab])
    t.equal(clf.classes_, classes, "classes_")
    P = np.array([[w[names[lab[r]] == v].sum() for v in classes]
                  for r, w in zip(near, W)])
    P = P / P.sum(axis=1, keepdims=True)
    t.close(clf.predict_proba(Q), P, "predict_proba", rtol=1e-6, atol=1e-8)
    pred = clf.predict(Q)
    won = P[np.arange(len(P)), np.searchsorted(classes, pred)]
    t.ok(np.all(won >= P.max(axis=1) - 1e-6), "not the winning class",
         got=pred, proba=P)
    m = c["outputs"]
    y = rng.standard_normal((len(X), m) if m else len(X))
    reg = make("regress", c).fit(F, y)
    want = np.array([np.average(y[r], axis=0, weights=w)
                     for r, w in zip(near, W)])
    t.close(reg.predict(Q), want, "regression", rtol=1e-6, atol=1e-8)
    for e in (clf, reg):
        now = e.get_params()
        t.ok(now["metric"] == c["metric"] and now["metric_params"] == c["kw"],
             "parameters changed", now=now)
    t.label(c["metric"])
    t.nt(1 < k < len(X))


@st.composite
def histories(draw):
    steps = draw(st.lists(st.sampled_from(
        ["fit", "query", "refused", "metric", "k"]), min_size=1, max_size=6))
    c = draw(cases())
    return {"c": c, "kind": draw(st.sampled_from(list(CLASSES))),
            "steps": steps, "metrics": [draw(metric()) for _ in steps]}


@sub(histories(), quick=500, shards=4)
def history(h, t):
    """Whatever was fitted, asked or refused before, the model answers as a
    new one with the same parameters and data."""
    c, kind = h["c"], h["kind"]
    p = dict(c["p"], variable=False)
    elastic = lambda m: m["metric"] != "precomputed"
    if c["metric"] == "precomputed":
        c = dict(c, metric="dtw", kw={})
    est = make(kind, c, weights="uniform") if kind != "search" else make(
        kind, c)
    now = {"metric": c["metric"], "kw": c["kw"], "k": c["k"]}
    fitted = False
    turn = 0
    refused = False

    def fit(e, X):
        return e.fit(X) if kind == "search" else e.fit(X, np.arange(
            len(X)) % 2)

    for step, m in list(zip(h["steps"], h["metrics"])) + [("fit", None),
                                                          ("query", None)]:
        if step == "metric" and elastic(m):
            now.update(metric=m["metric"], kw=m["kw"])
            est.set_params(metric=m["metric"],
                           metric_params=copy.deepcopy(m["kw"]))
            fitted = False
        elif step == "k":
            now["k"] = 1 + turn % 4
            est.set_params(n_neighbors=now["k"])
        elif step == "fit":
            turn += 1
            X = gen.bulk(dict(p, seed=p["seed"] + turn))[0]
            fit(est, X)
            fitted = True
        elif not fitted:
            continue
        else:
            Z = gen.bulk(dict(p, seed=p["seed"] ^ (77 + 8 * turn)))[0]
            if step == "refused":
                wide = np.concatenate([Z, Z], axis=2)
                t.raises(ValueError, lambda: (
                    est.kneighbors(wide) if kind == "search"
                    else est.predict(wide)), "number of features")
                refused = True
            cls = CLASSES[kind](n_neighbors=now["k"], metric=now["metric"],
                                metric_params=copy.deepcopy(now["kw"]))
            fit(cls, X)
            a, b = est.kneighbors(Z), cls.kneighbors(Z)
            t.equal(a[0], b[0], "distances depend on the history")
            t.equal(a[1], b[1], "neighbours depend on the history")
            if kind != "search" and now["k"] <= len(X):
                t.equal(est.predict(Z), cls.predict(Z),
                        "predictions depend on the history")
        t.ok(est.metric == now["metric"], "metric changed", got=est.metric,
             want=now["metric"])
    t.label("refused", refused)
    t.nt(turn > 1 or refused)


@sub(st.fixed_dictionaries({
    "p": gen.seeded(3, 9, 6, 12, variable=False),
    "segments": st.integers(1, 4), "alphabet": st.integers(3, 6),
    "scale": st.booleans(), "k": st.integers(1, 3),
    "kind": st.sampled_from(list(CLASSES))}), quick=100, shards=2)
def sax(c, t):
    """Neighbours under the SAX distance of the words of the fitted model."""
    from tslearn.piecewise import SymbolicAggregateApproximation
    X = gen.bulk(c["p"])[0]
    X = (X - X.mean()) / X.std()
    Z = gen.bulk(dict(c["p"], seed=c["p"]["seed"] ^ 77))[0]
    kw = {"n_segments": c["segments"], "alphabet_size_avg": c["alphabet"],
          "scale": c["scale"]}
    S = SymbolicAggregateApproximation(**kw).fit(X)
    a, b = S.transform(Z), S.transform(X)
    D = np.array([[S.distance_sax(u, v) for v in b] for u in a])
    O = np.array([[S.distance_sax(u, v) for v in b] for u in b])
    est = CLASSES[c["kind"]](n_neighbors=c["k"], metric="sax",
                             metric_params=dict(kw))
    y = np.arange(len(X)) % 2
    est.fit(X) if c["kind"] == "search" else est.fit(X, y)
    check_neighbours(t, est.kneighbors(Z), D, c["k"])
    check_neighbours(t, est.kneighbors(Z[:1]), D[:1], c["k"])
    check_neighbours(t, est.kneighbors(), O, c["k"], own=True)
    if c["kind"] != "search":
        one = [est.predict(z[None])[0] for z in Z]
        t.close(est.predict(Z), one, "prediction of one series at a time")
    t.nt(len(np.unique(D)) > 1)


@sub(st.tuples(cases(), gen.UNITS), quick=150)
def units(c, t):
    """Neighbours are the same in any unit; distances are in that unit."""
    c, k = c
    if c["metric"] in ("precomputed", "softdtw", "sqeuclidean", "sax"):
        return
    s = 2.0 ** k
    X, Z = data(c)
    a, b = make("search", c).fit(X), make("search", c).fit(s * X)
    n = min(c["k"], len(X))
    da, ia = a.kneighbors(Z, n_neighbors=n)
    db, ib = b.kneighbors(s * Z, n_neighbors=n)
    t.close(db, s * da, "distances in another unit", **gen.unit_tol(s * da))
    t.equal(ib, ia, "neighbours in another unit")
    t.nt(n > 1)
