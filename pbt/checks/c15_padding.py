"""C15: trailing NaN padding never changes a result."""
import numpy as np
from hypothesis import strategies as st

import tslearn.metrics as M
from tslearn import barycenters, clustering, neighbors, preprocessing, svm
from tslearn.piecewise import (PiecewiseAggregateApproximation,
                               SymbolicAggregateApproximation)

from .. import gen, ref
from ..core import sub, _arr

PROPERTY = "C15"
RULE = ("Ragged series and datasets, given as a list, and with any number of "
        "extra all-NaN timestamps at the end. Non-trivial: series of at "
        "least two different lengths with at least 2 timestamps.")


def nanpad(x, k):
    return np.vstack([x, np.full((k, x.shape[1]), np.nan)])


PAIR = {
    "dtw": lambda x, y, be, kw: M.dtw(x, y, be=be, **kw),
    "dtw_path": lambda x, y, be, kw: M.dtw_path(x, y, be=be, **kw),
    "dtw_path_from_metric": lambda x, y, be, kw: M.dtw_path_from_metric(
        x, y, metric="euclidean", be=be, **kw),
    "frechet": lambda x, y, be, kw: M.frechet(x, y, be=be, **kw),
    "frechet_path": lambda x, y, be, kw: M.frechet_path(x, y, be=be, **kw),
    "frechet_path_from_metric":
        lambda x, y, be, kw: M.frechet_path_from_metric(
            x, y, metric="sqeuclidean", be=be, **kw),
    "lcss": lambda x, y, be, kw: M.lcss(x, y, be=be, **kw),
    "lcss_path": lambda x, y, be, kw: M.lcss_path(x, y, be=be, **kw),
    "lcss_path_from_metric": lambda x, y, be, kw: M.lcss_path_from_metric(
        x, y, be=be, **kw),
    "soft_dtw": lambda x, y, be, kw: M.soft_dtw(x, y, be=be, **kw),
    "soft_dtw_normalized": lambda x, y, be, kw: M.soft_dtw_normalized(
        x, y, be=be, **kw),
    "soft_dtw_alignment": lambda x, y, be, kw: M.soft_dtw_alignment(
        x, y, be=be, **kw),
    "gak": lambda x, y, be, kw: M.gak(x, y, be=be),
    "unnormalized_gak": lambda x, y, be, kw: M.unnormalized_gak(x, y, be=be),
    "dtw_limited": lambda x, y, be, kw: M.dtw_limited_warping_length(
        x, y, max(len(ref.ts_list([x])[0]), len(ref.ts_list([y])[0])) + 1,
        be=be),
}


def flat(v):
    if isinstance(v, (list, tuple)):
        out = []
        for u in v:
            out += flat(u)
        return out
    return _arr(v).ravel().astype(float).tolist()


@sub(st.fixed_dictionaries({
    "p": gen.pair(max_sz=6, kind="float"), "be": gen.BACKENDS,
    "kw": gen.constraint(), "k": st.tuples(st.integers(0, 3),
                                           st.integers(0, 3)),
    "f": st.sampled_from(sorted(PAIR))}), quick=1200, shards=3)
def pairwise(c, t):
    x, y = c["p"]
    kw, be = c["kw"], c["be"]
    for a, b in ((x, y), (x, x), (y, y)):
        if ref.mask(len(a), len(b), kw) is None:
            return
    f = PAIR[c["f"]]
    a = flat(f(x, y, be, kw))
    b = flat(f(nanpad(x, c["k"][0]), nanpad(y, c["k"][1]), be, kw))
    t.ok(len(a) == len(b), "%s: shape depends on padding" % c["f"])
    t.ok(not np.isnan(a + b).any(), "%s: padding in the result" % c["f"])
    t.close(b, a, c["f"], rtol=1e-9, atol=1e-9)
    t.nt(sum(c["k"]) > 0 and len(x) > 1 and len(y) > 1)
    t.label(c["f"])


def _sil(X, metric):
    n = len(X)
    return clustering.silhouette_score(X, np.arange(n) % 2, metric=metric)


def _km(X, metric):
    m = clustering.TimeSeriesKMeans(2, metric=metric, max_iter=3, n_init=1,
                                    max_iter_barycenter=3, random_state=0)
    m.fit(X)
    return [m.labels_, m.inertia_, m.predict(X), m.transform(X)]


def _kk(X, kernel):
    kp = {"sigma": 2.0} if kernel == "gak" else {}
    m = clustering.KernelKMeans(2, kernel=kernel, kernel_params=kp, max_iter=5,
                                random_state=0).fit(X)
    return [m.labels_, m.inertia_, m.predict(X)]


def _knn(X, metric):
    y = np.arange(len(X)) % 2
    m = neighbors.KNeighborsTimeSeriesClassifier(2, metric=metric,
                                                 weights="distance")
    m.fit(X, y)
    r = neighbors.KNeighborsTimeSeriesRegressor(2, metric=metric)
    r.fit(X, y * 1.5)
    k = neighbors.KNeighborsTimeSeries(2, metric=metric).fit(X)
    return [m.predict_proba(X), r.predict(X), k.kneighbors(X)[0]]


def _svm(X):
    y = np.arange(len(X)) % 2
    m = svm.TimeSeriesSVC(kernel="gak", gamma=2.0, random_state=0).fit(X, y)
    r = svm.TimeSeriesSVR(kernel="gak", gamma=2.0).fit(X, y * 1.5)
    return [m.predict(X), m.decision_function(X), r.predict(X)]


def _dbscan(X):
    m = clustering.TimeSeriesDBSCAN(eps=2.0, min_ts=2).fit(X)
    return [m.labels_, m.core_ts_indices_]


def strip(f):
    """Transformers: compare series without their padding."""
    def g(X):
        return [s for s in ref.ts_list(f(X))]
    return g


def _rect(f, X):
    """One query, two queries, all of them, against the others; in threads."""
    return [f(X[:1], X[1:], n_jobs=2), f(X[:2], X[2:], n_jobs=2),
            f(X, n_jobs=2), f(X[:1], X[1:]), f(X[:2], X[2:])]


DATA = {
    "cdist_dtw": M.cdist_dtw, "cdist_frechet": M.cdist_frechet,
    "cdist_soft_dtw": M.cdist_soft_dtw,
    "cdist_soft_dtw_normalized": M.cdist_soft_dtw_normalized,
    "cdist_gak": M.cdist_gak,
    "cdist_ctw": lambda X: M.cdist_ctw(X, max_iter=3),
    "cdist_dtw_sakoe": lambda X: M.cdist_dtw(X, sakoe_chiba_radius=1),
    "cdist_frechet_sakoe": lambda X: M.cdist_frechet(
        X, global_constraint="sakoe_chiba", sakoe_chiba_radius=1),
    "cdist_soft_dtw_sakoe": lambda X: M.cdist_soft_dtw(
        X, global_constraint="sakoe_chiba", sakoe_chiba_radius=1),
    "cdist_dtw_jobs": lambda X: _rect(M.cdist_dtw, X),
    "cdist_frechet_jobs": lambda X: _rect(M.cdist_frechet, X),
    "cdist_gak_jobs": lambda X: _rect(M.cdist_gak, X),
    "dba": lambda X: barycenters.dtw_barycenter_averaging(
        X, barycenter_size=3, max_iter=3),
    "dba_petitjean":
        lambda X: barycenters.dtw_barycenter_averaging_petitjean(
            X, barycenter_size=3, max_iter=3),
    "dba_subgradient":
        lambda X: barycenters.dtw_barycenter_averaging_subgradient(
            X, barycenter_size=3, max_iter=3, random_state=0),
    "dba_init": lambda X: barycenters.dtw_barycenter_averaging(
        X, init_barycenter=_last(X), max_iter=3),
    "dba_petitjean_init":
        lambda X: barycenters.dtw_barycenter_averaging_petitjean(
            X, init_barycenter=_last(X), max_iter=3),
    "dba_subgradient_init":
        lambda X: barycenters.dtw_barycenter_averaging_subgradient(
            X, init_barycenter=_last(X), max_iter=3, random_state=0),
    "softdtw_barycenter_init": lambda X: barycenters.softdtw_barycenter(
        X, max_iter=3, init=_last(X)),
    "softdtw_barycenter_start": lambda X: barycenters.softdtw_barycenter(
        X, max_iter=0, init=_last(X)),
    "softdtw_barycenter": lambda X: barycenters.softdtw_barycenter(
        X, max_iter=3, init=np.zeros((3, _d(X)))),
    "silhouette": lambda X: _sil(X, "dtw"),
    "silhouette_soft": lambda X: _sil(X, "softdtw"),
    "kmeans_dtw": lambda X: _km(X, "dtw"),
    "kmeans_softdtw": lambda X: _km(X, "softdtw"),
    "kernel_kmeans_gak": lambda X: _kk(X, "gak"),
    "knn_dtw": lambda X: _knn(X, "dtw"),
    "knn_softdtw": lambda X: _knn(X, "softdtw"),
    "knn_frechet": lambda X: _knn(X, "frechet"),
    "svm_gak": _svm, "dbscan": _dbscan,
    "scaler_minmax": strip(lambda X: preprocessing.TimeSeriesScalerMinMax()
                           .fit_transform(_p(X))),
    "scaler_minmax_global": strip(
        lambda X: preprocessing.TimeSeriesScalerMinMax(
            per_timeseries=False).fit_transform(_p(X))),
    "scaler_meanvar": strip(
        lambda X: preprocessing.TimeSeriesScalerMeanVariance()
        .fit_transform(_p(X))),
    "scaler_meanvar_global": strip(
        lambda X: preprocessing.TimeSeriesScalerMeanVariance(
            per_timeseries=False).fit_transform(_p(X))),
    "resampler": lambda X: preprocessing.TimeSeriesResampler(4)
    .fit_transform(X),
    "resampler_1": lambda X: preprocessing.TimeSeriesResampler(1)
    .fit_transform(X),
    "resampler_default": lambda X: preprocessing.TimeSeriesResampler()
    .fit_transform(X),
    "paa": lambda X: PiecewiseAggregateApproximation(2)
    .fit_transform(_p(X)),
    "sax": lambda X: SymbolicAggregateApproximation(2, 4)
    .fit_transform(_p(X)),
    "sax_scaled": lambda X: SymbolicAggregateApproximation(2, 4, scale=True)
    .fit_transform(_p(X)),
    "imputer": strip(lambda X: preprocessing.TimeSeriesImputer("linear")
                     .fit_transform(X)),
    "synchronizer": strip(
        lambda X: preprocessing.TimeSeriesFeatureSynchronizer()
        .fit_transform(X)),
}


def _d(X):
    return np.asarray(X[0]).reshape(len(X[0]), -1).shape[1]


def _last(X):
    return np.array(X[-1])


def _p(X):
    """Scalers take arrays only."""
    return X if isinstance(X, np.ndarray) else gen.pad(X)


@sub(st.fixed_dictionaries({
    "seed": st.integers(0, 10 ** 6), "n": st.integers(4, 6),
    "d": st.integers(1, 2), "equal": st.booleans(),
    "k": st.integers(0, 3), "f": st.sampled_from(sorted(DATA))}),
    quick=650, shards=4)
def datasets(c, t):
    rng = np.random.RandomState(c["seed"])
    lens = rng.randint(2, 8, c["n"])
    if c["equal"]:
        lens[:] = lens[0]
    A = [np.cumsum(rng.standard_normal((n, c["d"])), axis=0) for n in lens]
    f = DATA[c["f"]]
    # these estimators take arrays only
    arrays = c["f"].startswith(("kmeans", "kernel", "knn", "svm", "dbscan"))
    a = flat(f(gen.pad(A) if arrays else [x.copy() for x in A]))
    P = gen.pad(A, max(lens) + c["k"])
    b = flat(f(P.copy()))
    t.ok(len(a) == len(b), "%s: shape depends on padding" % c["f"])
    t.ok(not np.isnan(a).any(), "%s: padding shows in the result" % c["f"])
    t.close(b, a, c["f"], rtol=1e-7, atol=1e-7)
    t.nt(len(set(lens)) > 1 or c["k"] > 0)
    t.label(c["f"])
