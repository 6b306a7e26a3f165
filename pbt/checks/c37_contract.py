"""C37: every estimator keeps the contract of estimators."""
import inspect
import warnings

import numpy as np
from hypothesis import strategies as st
from sklearn.base import clone, is_classifier, is_regressor
from sklearn.exceptions import NotFittedError
from sklearn.metrics import accuracy_score, r2_score

from .. import estimators as est
from ..core import sub

PROPERTY = "C37"
RULE = ("Every estimator of the catalogue, drawn parameters, seeded training "
        "and query sets. Non-trivial: fitted and queried at least twice.")

# group -> quick cases
WEIGHTS = {"piecewise": 40, "kmeans": 50, "kshape": 30, "neighbors": 60,
           "kernels": 60, "others": 70, "shapelets": 3, "selection": 3}


def fitted(c, X, y, m=None, seed=0):
    m = est.build(c) if m is None else m
    # random_state decides, wherever there is one that does
    e = est.CATALOG[c["est"]]
    np.random.seed(seed if e.random else 3)
    est.fit(c, m, X, y)
    return m


def agree(t, got, want, what, tol=0):
    for k, w in want.items():
        g = got[k]
        if w.dtype.kind == "f" and tol:
            t.close(g, w, "%s: %s" % (what, k), rtol=tol, atol=tol)
        else:
            t.equal(g, w, "%s: %s" % (what, k))


def methods(e):
    """Methods of one argument, a dataset."""
    out = []
    for a in e.ask:
        a = a.lstrip("?")
        if a == "forecast":
            a = "predict"
        if a == "earliness":
            a = "predict_class_and_earliness"
        if a != "inverse_transform":
            out.append(a)
    return out


def contract(c, t):
    warnings.filterwarnings("ignore")
    e = est.CATALOG[c["est"]]
    name = e.cls_name
    t.label(c["est"])
    X, y = est.data(c)
    Q = est.data(c, 4, 1)[0]
    m = est.build(c)
    params = m.get_params(deep=False)

    # parameters
    t.ok(set(params) == {p for p in inspect.signature(
        type(m).__init__).parameters if p != "self"}, "parameter names")
    twin = clone(m)
    t.ok(str(twin.get_params()) == str(m.get_params()), "clone")
    other = type(m)(**{k: params[k] for k in params if k in required(m)})
    t.ok(other.set_params(**params) is other, "set_params returns")
    for k, v in params.items():
        t.ok(getattr(other, k) is v, "set_params", parameter=k)
        t.ok(getattr(m, k) is v, "attribute", parameter=k)
    try:
        other.set_params(no_such_parameter=1)
    except ValueError:
        pass
    else:
        t.ok(False, "set_params takes unknown parameters")

    # not fitted
    for a in methods(e):
        if not hasattr(m, a):
            continue        # predict_proba of SVC(probability=False)
        try:
            getattr(m, a)(Q)
        except NotFittedError:
            pass
        else:
            t.ok(False, "%s.%s before fit" % (name, a))

    # fit
    fitted(c, X, y, m)
    want = e.observe(m, Q)
    if e.y == "class":
        t.equal(np.asarray(m.classes_), np.unique(y), "classes_ of " + name)
    if hasattr(m, "n_features_in_") and name != "KNeighborsTimeSeries":
        t.equal(m.n_features_in_, np.shape(X)[2], "n_features_in_ of " + name)
    t.nt()

    # queries are functions
    agree(t, e.observe(m, Q), want, name + " asked twice")
    # same data, same model
    agree(t, e.observe(fitted(c, X, y, twin, 1), Q), want,
          name + ": a clone fitted on the same data")
    # a fitted model forgets
    c2 = dict(c, seed=c["seed"] + 17, n=c["n"] + 1, sz=c["sz"] + (not c["est"].endswith("Init")),
              labels=(c["labels"] + 1) % 3)
    X2, y2 = est.data(c2)
    fitted(c, X2, y2, other, 2)
    e.observe(other, est.data(c2, 2, 1)[0])
    fitted(c, X, y, other, 4)
    agree(t, e.observe(other, Q), want, name + " fitted again")
    t.ok(str(m.get_params()) == str(clone(m).get_params()), "clone of fitted")

    # rows are independent
    if independent(c):
        attrs = set(e.attrs)
        tol = 1e-4 if name == "LearningShapelets" else 1e-7
        full = {k: v for k, v in want.items() if k not in attrs}
        perm = np.random.RandomState(c["seed"]).permutation(len(Q))
        got = e.observe(m, Q[perm])
        agree(t, {k: got[k] for k in full},
              {k: v[perm] for k, v in full.items()}, name + " permuted rows",
              tol)
        one = e.observe(m, Q[:1])
        agree(t, {k: one[k] for k in full},
              {k: v[:1] for k, v in full.items()}, name + " single row", tol)

    # shortcuts
    if hasattr(m, "fit_predict") and hasattr(m, "labels_"):
        s = est.build(c)
        np.random.seed(5 if e.random else 3)
        lab = s.fit_predict(X)
        t.equal(lab, m.labels_, name + ".fit_predict")
    if hasattr(m, "fit_transform") and "transform" in e.ask:
        s = est.build(c)
        np.random.seed(5 if e.random else 3)
        got = s.fit_transform(X) if y is None else s.fit_transform(X, y)
        t.close(got, m.transform(X), name + ".fit_transform",
                rtol=1e-9, atol=1e-9)
    if (is_classifier(m) or is_regressor(m)) and hasattr(m, "score"):
        yq = np.resize(y, len(Q))
        pred = m.predict(Q)
        if name not in ("NonMyopicEarlyClassifier",):
            t.close(m.score(Q, yq), (accuracy_score if is_classifier(m)
                                     else r2_score)(yq, pred),
                    name + ".score", rtol=1e-9, atol=1e-9)
    negative = (getattr(m, "metric", 0) == "softdtw"
                and getattr(m, "weights", 0) == "distance")
    if "predict_proba" in e.ask and not negative:
        P = want["predict_proba"]
        t.ok(P.shape == (len(Q), len(m.classes_)), name + " probabilities",
             got=P.shape)
        t.close(P.sum(axis=1), np.ones(len(Q)), name + " probabilities",
                rtol=1e-5, atol=1e-5)
        t.ok((P >= 0).all(), name + " probabilities")
        if name != "NonMyopicEarlyClassifier":
            best = P[np.arange(len(Q)), np.searchsorted(m.classes_,
                                                        want["predict"])]
            t.close(best, P.max(axis=1), name + " predict", rtol=1e-6,
                    atol=1e-6)
    # univariate series can be given as rows
    if c["d"] == 1 and not c["ragged"]:
        s = fitted(c, X[:, :, 0], y, None, 6)
        agree(t, e.observe(s, Q[:, :, 0]), want, name + ": rows", 1e-9)
    # another number of features
    wide = np.concatenate([Q, Q[:, :, :1]], axis=2)
    for a in methods(e):
        if not hasattr(m, a):
            continue
        try:
            getattr(m, a)(wide)
        except ValueError:
            pass
        else:
            t.ok(False, "%s.%s of another number of features" % (name, a))


def required(m):
    return [k for k, p in inspect.signature(type(m).__init__)
            .parameters.items() if p.default is p.empty]


def independent(c):
    e = est.CATALOG[c["est"]]
    p = {k: e.params[k][i] for k, i in c["p"].items()}
    if e.mod == "tslearn.forecasting":
        return False
    if p.get("per_timeseries") is False:
        return False
    if e.cls_name == "TimeSeriesResampler" and p["sz"] == -1:
        return False
    return bool(e.ask)


def register():
    for g, n in WEIGHTS.items():
        def body(c, t):
            contract(c, t)
        body.__name__ = "contract_" + g
        sub(est.case(est.GROUPS[g]), quick=n,
            thorough=n * (12 if g == "shapelets" else 25),
            shrink=g not in ("shapelets", "selection"))(body)


register()
