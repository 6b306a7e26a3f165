"""C29: SVMs and neural networks are the scikit-learn models of the series."""
import copy

import numpy as np
from hypothesis import strategies as st
from sklearn.neural_network import MLPClassifier, MLPRegressor
from sklearn.svm import SVC, SVR

from tslearn.metrics import gamma_soft_dtw
from tslearn.neural_network import (TimeSeriesMLPClassifier,
                                    TimeSeriesMLPRegressor)
from tslearn.svm import TimeSeriesSVC, TimeSeriesSVR

from .. import gen, ref
from ..core import sub
from .c24_kernel_kmeans import log_gak, well_scaled

PROPERTY = "C29"
RULE = ("Seeded datasets of 6-14 series (2-7 timestamps, 1-5 features; "
        "different lengths for the alignment kernel), 2 or 3 classes with "
        "names, targets, sample and class weights, every kernel with its "
        "parameters; histories of fits, partial fits, predictions and refusals "
        "for the networks. Non-trivial: several support vectors, or a history "
        "with a refusal or several fits.")

WARM = ["classifier", "regressor"]

KERNELS = st.sampled_from(["gak", "gak", "gak", "rbf", "poly", "sigmoid",
                           "linear", "callable"])


@st.composite
def cases(draw):
    kernel = draw(KERNELS)
    p = draw(gen.seeded(6, 14, 2, 7, variable=False))
    p["variable"] = kernel == "gak" and draw(st.booleans())
    gamma = draw(st.sampled_from(["auto", "auto", 0.5, 3.0, 20.0] + (
        [] if kernel == "gak" else ["scale", 0.05])))
    return {"p": p, "kernel": kernel, "gamma": gamma,
            "C": draw(st.sampled_from([0.1, 1.0, 10.0])),
            "coef0": draw(st.sampled_from([0.0, 1.0])),
            "degree": draw(st.sampled_from([2, 3])),
            "shrinking": draw(st.booleans()),
            "seed": draw(st.integers(0, 9999)),
            "classes": draw(st.sampled_from([2, 2, 3])),
            "weights": draw(st.sampled_from([None, None, "random"])),
            "class_weight": draw(st.sampled_from([None, None, "balanced"])),
            "shape": draw(st.sampled_from(["ovr", "ovo"])),
            "names": draw(st.booleans()),
            "proba": draw(st.integers(0, 3)) == 0,
            "epsilon": draw(st.sampled_from([0.0, 0.1, 0.5])),
            "zn": draw(st.integers(1, 4)),
            "jobs": 2 if draw(st.integers(0, 11)) == 11 else None}


def data(c):
    p = c["p"]
    both = gen.bulk(dict(p, n=p["n"] + c["zn"]))[0]
    both = well_scaled(both)
    X = gen.pad(ref.ts_list(both[:p["n"]]))
    Z = both[p["n"]:]
    rng = np.random.RandomState(p["seed"] ^ 5)
    y = rng.permutation(np.arange(p["n"]) % c["classes"])
    w = None if c["weights"] is None else rng.choice([0.5, 1.0, 2.0], p["n"])
    target = np.nanmean(X, axis=(1, 2)) * 3 + rng.standard_normal(p["n"])
    return X, Z, y, w, target


def linear_kernel(a, b):
    return a @ b.T


def gak_matrix(A, B, s):
    A, B = ref.ts_list(A), ref.ts_list(B)
    da = [log_gak(a, a, s) for a in A]
    db = [log_gak(b, b, s) for b in B]
    return np.exp([[log_gak(a, b, s) - (p + q) / 2 for b, q in zip(B, db)]
                   for a, p in zip(A, da)])


def common(c):
    k = dict(C=c["C"], gamma=c["gamma"], coef0=c["coef0"],
             degree=c["degree"], shrinking=c["shrinking"], tol=1e-5)
    k["kernel"] = linear_kernel if c["kernel"] == "callable" else c["kernel"]
    return k


def compare(c, t, ts, plain, X, Z, y, w):
    """Fit the model under test and its scikit-learn counterpart; return both
    with the inputs for the latter."""
    est = ts(n_jobs=c["jobs"], random_state=c["seed"], **common(c))
    t.ok(est.fit(X, y, sample_weight=w) is est, "fit returns the model")
    k = common(c)
    if c["kernel"] == "gak":
        g = c["gamma"]
        if g == "auto":
            g = gamma_soft_dtw(X, random_state=c["seed"])
        t.close(est.gamma_, g, "gamma_")
        s = np.sqrt(g / 2)
        fx, fz = gak_matrix(X, X, s), gak_matrix(Z, X, s)
        k["kernel"], k["gamma"] = "precomputed", "scale"
    else:
        fx, fz = X.reshape(len(X), -1), Z.reshape(len(Z), -1)
    skl = plain(k).fit(fx, y, sample_weight=w)
    t.ok(est.n_features_in_ == X.shape[2], "n_features_in_")
    return est, skl, fx, fz


@sub(cases(), quick=800, shards=5)
def classifier(c, t):
    X, Z, y, w, _ = data(c)
    if c["names"]:
        y = np.array(["b", "a", "c"])[y]
    extra = dict(class_weight=c["class_weight"],
                 decision_function_shape=c["shape"], probability=c["proba"])
    est, skl, fx, fz = compare(
        c, t, lambda **k: TimeSeriesSVC(**dict(k, **extra)),
        lambda k: SVC(random_state=c["seed"], **dict(k, **extra)), X, Z, y, w)
    t.equal(est.classes_, np.unique(y), "classes_")
    inner = est.svm_estimator_
    for A, f in ((X, fx), (Z, fz)):
        d = est.decision_function(A)
        own = inner.decision_function(f)
        t.close(d, own, "decision function of its own coefficients",
                rtol=1e-6, atol=1e-7)
        want = skl.decision_function(f)
        # Another solution of the same problem, up to the solver's tolerance
        gap = 1e-2 * (1 + np.abs(want))
        t.ok(d.shape == want.shape, "shape")
        if c["kernel"] != "sigmoid":
            t.ok(np.all(np.abs(d - want) <= gap), "decision function", got=d,
                 want=want)
        lab = est.predict(A)
        t.equal(lab, inner.predict(f) if c["kernel"] != "gak" or not near(own)
                else lab, "prediction")
        t.ok(lab.shape == (len(A),) and np.isin(lab, np.unique(y)).all(),
             "unknown label")
        if d.ndim == 1:
            clear = np.abs(d) > 1e-9
            t.equal(lab[clear], est.classes_[(d > 0).astype(int)][clear],
                    "label of the sign of the decision function")
        if c["proba"]:
            P = est.predict_proba(A)
            t.close(P, inner.predict_proba(f), "predict_proba", rtol=1e-5,
                    atol=1e-6)
            t.close(P.sum(axis=1), np.ones(len(A)), "sum of probabilities")
            t.close(est.predict_log_proba(A), np.log(P), "log probabilities")
    sv = est.support_vectors_
    sup = np.asarray(est.support_)
    t.ok(len(sv) == len(est.classes_), "support vectors per class")
    at = 0
    for k, v in enumerate(sv):
        idx = sup[at:at + len(v)]
        t.equal(v, X[idx], "support vectors are the series of support_")
        t.ok(np.all(y[idx] == est.classes_[k]), "class of support vectors")
        at += len(v)
    t.ok(at == len(sup), "number of support vectors")
    t.equal(est.dual_coef_, inner.dual_coef_, "dual_coef_")
    t.equal(est.intercept_, inner.intercept_, "intercept_")
    t.close(est.decision_function(Z[:1]), est.decision_function(Z)[:1],
            "decision function alone")
    t.label(c["kernel"])
    t.nt(len(sup) > 2)


def near(d):
    s = np.sort(np.atleast_2d(d.T).T, axis=1)
    if s.shape[1] == 1:
        return np.abs(s).min() < 1e-6
    return (s[:, -1] - s[:, -2]).min() < 1e-6 or np.abs(s).min() < 1e-6


@sub(cases(), quick=500, shards=3)
def regressor(c, t):
    X, Z, _, w, y = data(c)
    est, skl, fx, fz = compare(
        c, t, lambda **k: TimeSeriesSVR(epsilon=c["epsilon"], **k),
        lambda k: SVR(epsilon=c["epsilon"], **k), X, Z, y, w)
    inner = est.svm_estimator_
    for A, f in ((X, fx), (Z, fz)):
        d = est.predict(A)
        t.close(d, inner.predict(f), "prediction of its own coefficients",
                rtol=1e-6, atol=1e-7)
        want = skl.predict(f)
        if c["kernel"] != "sigmoid":
            t.ok(np.all(np.abs(d - want) <= 1e-2 * (1 + np.abs(want))),
                 "prediction", got=d, want=want)
    t.equal(est.support_vectors_, X[est.support_], "support vectors")
    t.equal(est.dual_coef_, inner.dual_coef_, "dual_coef_")
    t.equal(est.intercept_, inner.intercept_, "intercept_")
    t.close(est.predict(Z[:1]), est.predict(Z)[:1], "prediction alone")
    t.label(c["kernel"])
    t.nt(len(est.support_) > 2)


# ---------------------------------------------------------------- networks

OPS = st.sampled_from(["fit", "fit", "partial", "partial", "predict",
                       "predict", "bad_predict", "bad_partial", "other_fit"])


@st.composite
def histories(draw):
    p = draw(gen.seeded(6, 12, 1, 5, variable=False))
    return {"p": p, "reg": draw(st.booleans()),
            "ops": draw(st.lists(OPS, min_size=2, max_size=7)),
            "hidden": draw(st.sampled_from([(3,), (2, 3)])),
            "solver": draw(st.sampled_from(["adam", "adam", "sgd", "lbfgs"])),
            "warm": draw(st.booleans()), "classes": draw(st.sampled_from(
                [2, 2, 3])), "seed": draw(st.integers(0, 99)),
            "ydim": draw(st.sampled_from([1, 1, 2])),
            "names": draw(st.booleans()), "two_d": draw(st.booleans()),
            "options": draw(st.dictionaries(
                st.sampled_from(sorted(OPTIONS)), st.integers(0, 5),
                max_size=8))}


OPTIONS = {
    "activation": ["tanh", "logistic", "identity", "relu"],
    "alpha": [0.0, 0.01, 1.0], "batch_size": [2, 3, "auto"],
    "learning_rate": ["invscaling", "adaptive"],
    "learning_rate_init": [0.01, 0.3], "power_t": [0.2, 0.9],
    "shuffle": [False], "momentum": [0.0, 0.5],
    "nesterovs_momentum": [False], "early_stopping": [True],
    "validation_fraction": [0.3, 0.5], "beta_1": [0.5], "beta_2": [0.6],
    "epsilon": [1e-3], "n_iter_no_change": [1, 2], "tol": [0.1, 10.0],
    "max_fun": [2, 3], "max_iter": [1, 15, 40]}


@sub(histories(), quick=500, shards=4)
def networks(c, t):
    """Every step of a history gives what scikit-learn's network, given the
    flattened series, answers."""
    p = c["p"]
    rng = np.random.RandomState(c["seed"])
    X, _ = gen.bulk(p)
    other = gen.bulk(dict(p, sz=p["sz"] + 1))[0]
    y = np.arange(len(X)) % c["classes"]
    if c["reg"]:
        y = rng.standard_normal((len(X), 2) if c["ydim"] == 2 else len(X))
    elif c["names"]:
        y = np.array(["v", "u", "w"])[y]
    k = dict(hidden_layer_sizes=c["hidden"], solver=c["solver"], max_iter=6,
             warm_start=c["warm"], random_state=c["seed"])
    for name, i in c.get("options", {}).items():
        k[name] = OPTIONS[name][i % len(OPTIONS[name])]
    if k.get("early_stopping"):
        k["validation_fraction"] = 0.4  # enough for every class
    if c["reg"] and c["seed"] % 4 == 0:
        k["loss"] = "poisson"
        y = abs(y)
    if len(c.get("options", {})) > 2:
        t.label("several options")
    ts, skl = ((TimeSeriesMLPRegressor, MLPRegressor) if c["reg"] else
               (TimeSeriesMLPClassifier, MLPClassifier))
    partial = c["solver"] != "lbfgs" and not k.get("early_stopping")
    est, model = ts(**k), skl(**k)
    cur = None       # the data the network was built for
    fits = refused = 0
    flat = lambda A: A.reshape(len(A), -1)
    for op in c["ops"]:
        if op == "fit" or (op == "other_fit" and not c["warm"]):
            A = X if op == "fit" else other
            if cur is not None and c["warm"] and A.shape != cur.shape:
                continue
            est.fit(A[:, :, 0] if c["two_d"] and A.shape[2] == 1 else A, y)
            model.fit(flat(A), y)
            cur, fits = A, fits + 1
        elif op == "other_fit" and cur is not None:
            before = est.predict(cur)
            B = other if cur is X else X
            t.raises(ValueError, lambda: est.fit(B, y),
                     "warm start on other dimensions")
            t.equal(est.predict(cur), before, "prediction after a refusal")
            refused += 1
        elif op == "partial" and partial:
            A = X if cur is None else cur
            kw = {} if c["reg"] else {"classes": np.unique(y)}
            est.partial_fit(A, y, **kw)
            model.partial_fit(flat(A), y, **kw)
            cur, fits = A, fits + 1
        elif op == "predict" and cur is not None:
            Q = gen.bulk(dict(p, sz=cur.shape[1], seed=p["seed"] + 9))[0]
            t.equal(est.predict(Q), model.predict(flat(Q)), "prediction")
            if not c["reg"]:
                t.equal(est.predict_proba(Q), model.predict_proba(flat(Q)),
                        "probabilities")
                t.equal(est.predict_log_proba(Q),
                        model.predict_log_proba(flat(Q)), "log probabilities")
            if c["reg"]:
                t.equal(est.score(cur, y), model.score(flat(cur), y), "score")
        elif op in ("bad_predict", "bad_partial") and cur is not None:
            bad = [cur[:, :-1] if cur.shape[1] > 1 else np.repeat(cur, 2, 1),
                   np.concatenate([cur, cur], axis=2)][len(c["ops"]) % 2]
            if op == "bad_predict":
                t.raises(ValueError, lambda: est.predict(bad), "other shape")
            elif partial:
                t.raises(ValueError, lambda: est.partial_fit(bad, y),
                         "other shape")
            refused += 1
        if cur is not None:
            t.ok(est.n_features_in_ == cur.shape[2], "n_features_in_",
                 got=est.n_features_in_)
            t.ok(len(est.coefs_) == len(model.coefs_), "layers")
            for a, b in zip(est.coefs_ + est.intercepts_,
                            model.coefs_ + model.intercepts_):
                t.equal(a, b, "weights of the network")
    t.label("regression" if c["reg"] else "classification")
    t.nt(fits > 1 or (fits and refused))


@sub(cases(), quick=120)
def refusals(c, t):
    """No alignment kernel without a bandwidth; other numbers of features and,
    for vector kernels, other lengths are refused."""
    X, Z, y, w, target = data(c)
    for ts, yy in ((TimeSeriesSVC, y), (TimeSeriesSVR, target)):
        t.raises(RuntimeError, lambda: ts(kernel="gak", gamma=0).fit(X, yy),
                 "zero bandwidth")
        t.raises(RuntimeError, lambda: ts(kernel="gak").fit(
            np.ones_like(X), yy), "zero automatic bandwidth")
        est = ts(**common(c)).fit(X, yy)
        t.raises(ValueError, lambda: est.predict(
            np.concatenate([Z, Z], axis=2)), "other number of features")
        if c["kernel"] != "gak":
            t.raises(ValueError, lambda: est.predict(
                np.concatenate([Z, Z], axis=1)), "other length")
            t.raises(ValueError, lambda: ts(**common(c)).fit(
                np.where(X == X.max(), np.nan, X), yy), "missing values")
    t.nt()
