"""C30: early classification minimises its expected cost on prefixes only."""
import numpy as np
from hypothesis import strategies as st
from sklearn.base import clone
from sklearn.model_selection import train_test_split
from sklearn.neighbors import KNeighborsClassifier

from tslearn.clustering import TimeSeriesKMeans
from tslearn.early_classification import NonMyopicEarlyClassifier
from tslearn.neighbors import KNeighborsTimeSeriesClassifier

from .. import gen
from ..core import sub

PROPERTY = "C30"
RULE = ("Seeded datasets of 8-16 series (2-7 timestamps, 1-2 features, groups "
        "sharing their first values), 2 or 3 named classes, 1-3 clusters, "
        "minimal times, time costs, soft-assignment slopes and base "
        "classifiers; streams of timestamps in chunks. Non-trivial: "
        "predictions at two or more times, or after the minimal time.")


@st.composite
def cases(draw):
    sz = draw(st.integers(2, 7))
    return {"seed": draw(st.integers(0, 2 ** 31 - 1)),
            "n": draw(st.integers(8, 20)), "sz": sz,
            "d": draw(st.sampled_from([1, 1, 2])),
            "kind": draw(st.sampled_from(["shapes", "shapes", "noise",
                                          "prefix"])),
            "classes": draw(st.sampled_from([2, 2, 3])),
            "names": draw(st.booleans()),
            "k": draw(st.sampled_from([1, 2, 2, 3])),
            "min_t": draw(st.integers(1, sz)),
            "lamb": draw(st.sampled_from([0.0, 1.0, 10.0, 1000.0])),
            "cost": draw(st.sampled_from([0.0, 0.001, 0.005, 0.02, 0.05, 0.1,
                                          0.3])),
            "base": draw(st.sampled_from([None, "knn3", "dtw"])),
            "rs": draw(st.integers(0, 99)), "zn": draw(st.integers(1, 4)),
            "cuts": draw(st.lists(st.integers(1, 3), min_size=7,
                                  max_size=7))}


def data(c):
    rng = np.random.RandomState(c["seed"])
    n, sz, d = c["n"] + c["zn"], c["sz"], c["d"]
    y = np.arange(n) % c["classes"]
    rng.shuffle(y)
    if c["kind"] == "noise":
        X = rng.standard_normal((n, sz, d))
    else:
        shapes = np.round(2 * rng.standard_normal((4, sz, d)))
        if c["kind"] == "prefix":     # everything starts alike
            shapes[:, :max(1, sz // 2)] = shapes[0, :max(1, sz // 2)]
        which = (y + rng.randint(0, 2, n)) % 4
        X = shapes[which]
        if rng.randint(2):
            X = X + 0.3 * rng.standard_normal(X.shape)
    y = y.astype(int)
    if c["names"]:
        y = np.array(["no", "maybe", "yes"])[y]
    m = c["n"]
    return X[:m], y[:m], X[m:], y[m:]


def base(c):
    return {None: None,
            "knn3": KNeighborsTimeSeriesClassifier(3, metric="euclidean"),
            "dtw": KNeighborsTimeSeriesClassifier(1, metric="dtw")}[c["base"]]


class Model:
    """Dachraoui et al. (2015) as the documentation states it."""

    def __init__(self, c, X, y):
        self.c, self.sz = c, X.shape[1]
        km = TimeSeriesKMeans(n_clusters=c["k"], random_state=c["rs"])
        lab = km.fit_predict(X)
        self.ok = lab is not None and km._X_fit is not None and \
            np.bincount(lab, minlength=c["k"]).min() > 1
        if not self.ok:
            return
        self.centers = km.cluster_centers_
        names = np.unique(y)
        K, C = c["k"], len(names)
        self.pyck = np.array([[np.mean(y[lab == k] == v) for k in range(K)]
                              for v in names])
        X1, X2, _, l2, y1, y2 = train_test_split(
            X, lab, y, test_size=0.5, stratify=lab, random_state=c["rs"])
        b = base(c)
        if b is None:
            b = KNeighborsTimeSeriesClassifier(1, metric="euclidean")
        self.clf = {}
        self.miss = {}   # [t] -> probability of an error given class, cluster
        for t in range(c["min_t"], self.sz + 1):
            self.clf[t] = clone(b).fit(X1[:, :t], y1)
            hat = self.clf[t].predict(X2[:, :t])
            m = np.zeros((C, K))
            for i, v in enumerate(names):
                for k in range(K):
                    s = (y2 == v) & (l2 == k)
                    m[i, k] = np.mean(hat[s] != v) if s.any() else 0.0
            self.miss[t] = m
        self.classes = np.unique(y1)

    def probas(self, x):
        d = np.array([np.sqrt(((x - m[:len(x)]) ** 2).sum())
                      for m in self.centers])
        delta = 1 - d / d.mean() if d.mean() > 0 else 0 * d
        with np.errstate(over="ignore"):
            s = 1 / (1 + np.exp(-self.c["lamb"] * delta))
        return s / s.sum()

    def costs(self, x):
        p = self.probas(x)
        return np.array([((self.miss[t] * self.pyck).sum(axis=0) * p).sum()
                         + self.c["cost"] * t
                         for t in range(len(x), self.sz + 1)])

    def when(self, x):
        """Decision time, and whether rounding could change it."""
        clear = True
        for t in range(self.c["min_t"], self.sz + 1):
            f = self.costs(x[:t])
            for u in range(1, len(f)):
                same = self.c["cost"] == 0 and np.array_equal(
                    self.miss[t], self.miss[t + u])
                if abs(f[u] - f[0]) < 1e-9 and not same:
                    clear = False
            if t == self.sz or f[0] == f.min():
                return t, clear


def fit(c):
    X, y, Z, yz = data(c)
    m = Model(c, X, y)
    if not m.ok:
        return None
    b = base(c)
    est = NonMyopicEarlyClassifier(
        n_clusters=c["k"], base_classifier=b, min_t=c["min_t"],
        lamb=c["lamb"], cost_time_parameter=c["cost"], random_state=c["rs"])
    r = est.fit(X, y)
    return X, y, Z, yz, m, est, r, b


@sub(cases(), quick=420, shards=6)
def decisions(c, t):
    got = fit(c)
    if got is None:
        t.label("clusters too small to split")
        return
    X, y, Z, yz, m, est, r, b = got
    t.ok(r is est, "fit returns the model")
    if b is not None:
        t.ok(not hasattr(b, "classes_"), "the given base classifier is fitted")
    t.ok(sorted(est.classifiers_) == sorted(m.clf), "times of classifiers",
         got=sorted(est.classifiers_))
    t.equal(est.classes_, m.classes, "classes_")
    t.close(est.pyck_, m.pyck, "P(y | cluster)")
    t.close(est.pyhatyck_.sum(axis=3),
            np.array([m.miss[k].T for k in sorted(m.miss)]),
            "P(error | y, cluster)")
    A = np.concatenate([Z, X[:3]])
    ya = np.concatenate([yz, y[:3]])
    pred, when = est.predict_class_and_earliness(A)
    P, when2 = est.predict_proba_and_earliness(A)
    t.equal(when, when2, "decision times with probabilities")
    t.equal(est.predict(A), pred, "predict")
    t.equal(est.predict_proba(A), P, "predict_proba")
    t.ok(P.shape == (len(A), len(est.classes_)), "shape of probabilities")
    for i, x in enumerate(A):
        for k in range(c["min_t"], c["sz"] + 1):
            t.close(est.get_cluster_probas(x[:k]), m.probas(x[:k]),
                    "cluster probabilities")
        want, clear = m.when(x)
        if clear:
            t.ok(when[i] == want, "decision time", got=when[i], want=want)
        else:
            t.label("tied costs")
        k = int(when[i])
        t.ok(c["min_t"] <= k <= c["sz"], "decision time out of range", k=k)
        t.equal(pred[i], m.clf[k].predict(x[None, :k])[0],
                "class at the decision time")
        t.close(P[i], m.clf[k].predict_proba(x[None, :k])[0],
                "probabilities at the decision time")
        # nothing after the decision time matters, nor do other series
        y2 = x.copy()
        y2[k:] = 50.0 + np.arange(c["sz"] - k)[:, None]
        p2, w2 = est.predict_class_and_earliness(y2[None])
        t.ok(p2[0] == pred[i] and w2[0] == k, "depends on the future",
             before=(pred[i], k), after=(p2[0], w2[0]))
    cost = est.early_classification_cost(A, ya)
    t.close(cost, np.mean(pred != ya) + c["cost"] * when.mean(),
            "early_classification_cost")
    t.label("clusters=%d" % c["k"])
    t.nt(len(set(when.tolist())) > 1 or when.max() > c["min_t"])


@sub(cases(), quick=250, shards=4)
def streams(c, t):
    """Predictions for unfinished series, all at once or as they arrive."""
    got = fit(c)
    if got is None:
        t.label("clusters too small to split")
        return
    X, y, Z, yz, m, est, _, _ = got
    g = est.get_early_predict_generator(n_ts=len(Z))
    gp = est.get_early_predict_proba_generator(n_ts=len(Z))
    at = 0
    for step in c["cuts"]:
        new = Z[:, at:at + step]
        if new.shape[1] == 0:
            break
        at += new.shape[1]
        pred, delay = est.early_predict(Z[:, :at])
        P, delay2 = est.early_predict_proba(Z[:, :at])
        t.equal(delay, delay2, "delays with probabilities")
        if at < c["min_t"]:
            t.ok(np.isnan(pred.astype(float)).all() and np.isnan(P).all()
                 and np.isnan(delay).all(), "prediction before min_t")
            t.ok(P.shape == (len(Z), len(m.classes)), "shape before min_t")
        else:
            t.equal(pred, m.clf[at].predict(Z[:, :at]), "early_predict")
            t.close(P, m.clf[at].predict_proba(Z[:, :at]),
                    "early_predict_proba")
            for i, z in enumerate(Z):
                f = m.costs(z[:at])
                k = int(delay[i])
                t.ok(0 <= k < len(f) and f[k] <= f.min() + 1e-9, "delay",
                     got=k, costs=f)
        sent = new if step % 2 else new.tolist()
        t.equal(g.send(sent)[0], pred, "streamed predictions")
        t.equal(next(g)[1], delay, "streamed delays")
        sp, sd = gp.send(sent)
        t.equal(sp, P, "streamed probabilities")
        t.equal(sd, delay, "streamed delays with probabilities")
    t.raises(ValueError, lambda: est.early_predict(
        np.concatenate([X, X], axis=1)), "longer than the fitted series")
    # decisions follow from the streamed delays: the first one that is zero
    pred, when = est.predict_class_and_earliness(Z)
    for i, z in enumerate(Z):
        for k in range(c["min_t"], c["sz"] + 1):
            p, delay = est.early_predict(z[None, :k])
            if delay[0] == 0:
                t.ok(when[i] == k and pred[i] == p[0],
                     "decision is not the first zero delay", got=when[i],
                     want=k)
                break
        else:
            t.ok(False, "no zero delay at the last timestamp")
    t.nt(c["sz"] > c["min_t"])


@sub(cases(), quick=100, shards=2)
def scikit_base(c, t):
    """Any classifier can serve as base, including one for vectors."""
    X, y, Z, yz = data(c)
    if not Model(dict(c, base=None), X, y).ok:
        return

    class Flat(KNeighborsClassifier):
        def fit(self, X, y):
            return super().fit(np.asarray(X).reshape(len(X), -1), y)

        def predict(self, X):
            return super().predict(np.asarray(X).reshape(len(X), -1))

        def predict_proba(self, X):
            return super().predict_proba(np.asarray(X).reshape(len(X), -1))
    k = dict(n_clusters=c["k"], min_t=c["min_t"], lamb=c["lamb"],
             cost_time_parameter=c["cost"], random_state=c["rs"])
    a = NonMyopicEarlyClassifier(base_classifier=Flat(n_neighbors=1), **k)
    b = NonMyopicEarlyClassifier(**k)
    a.fit(X, y)
    b.fit(X, y)
    if c["kind"] == "noise":   # no tied neighbours
        for u, v in zip(a.predict_class_and_earliness(Z),
                        b.predict_class_and_earliness(Z)):
            t.equal(u, v, "same nearest neighbour, other implementation")
    t.nt(c["kind"] == "noise")
