"""Catalogue of all estimators: parameters to draw, and what to observe.

Used by the checks that concern every estimator (C02, C35, C37).
"""
import warnings

import numpy as np
from hypothesis import strategies as st

from .core import NotJudged


def _pw():
    import tslearn.piecewise as m
    return m


def _cl():
    import tslearn.clustering as m
    return m


def _nb():
    import tslearn.neighbors as m
    return m


def _pp():
    import tslearn.preprocessing as m
    return m


class E:
    """One estimator: where it lives, choices of parameters, observations."""

    def __init__(self, mod, cls, params, ask=(), attrs=(), y=None,
                 ragged=True, multi=True, nan=False, saves=(), heavy=False,
                 random=False, min_sz=2, rows=True, fixed=None):
        self.mod, self.cls_name, self.params = mod, cls, params
        self.ask, self.attrs, self.y = ask, attrs, y
        self.ragged, self.multi, self.nan = ragged, multi, nan
        self.saves, self.heavy, self.random = saves, heavy, random
        self.min_sz, self.rows, self.fixed = min_sz, rows, fixed or {}

    def cls(self):
        import importlib
        return getattr(importlib.import_module(self.mod), self.cls_name)

    def build(self, c):
        kw = {k: v for k, v in self.fixed.items()}
        for k, i in c["p"].items():
            v = self.params[k][i]
            if callable(v):
                v = v(c)
            kw[k] = v.copy() if isinstance(v, (dict, np.ndarray)) else v
        return self.cls()(**kw)

    def observe(self, est, Q, t=None):
        """name -> array, of every observation on the query set."""
        out = {}
        for a in self.attrs:
            out[a] = np.asarray(getattr(est, a))
        for name in self.ask:
            if name.startswith("?"):
                name = name[1:]
                if not getattr(est, "probability", True):
                    continue
            if name == "inverse_transform":
                v = est.inverse_transform(est.transform(Q))
            elif name == "forecast":
                v = np.concatenate([est.predict(n=2), est.predict(Q, n=2)])
            elif name == "earliness":
                lab, times = est.predict_class_and_earliness(Q)
                out["labels"], v = np.asarray(lab), times
            elif name == "kneighbors":
                v, ind = est.kneighbors(Q)
                out["indices"] = np.asarray(ind)
            else:
                v = getattr(est, name)(Q)
            out[name] = np.asarray(v)
        return out


def two_series(c):
    """Two series to start centroids from."""
    X = np.array(data(dict(c, ragged=False, nan=False), 6, 5)[0])
    return X[:2]


DTW_PARAMS = [None, {"global_constraint": "sakoe_chiba",
                     "sakoe_chiba_radius": 1},
              {"sakoe_chiba_radius": 2}]
J, H, K = "json", "hdf5", "pickle"
ALL = (J, H, K)
KNN = {"n_neighbors": [1, 2], "metric": ["dtw", "euclidean", "softdtw", "sax",
                                         "frechet", "sqeuclidean",
                                         "cityblock"],
       "metric_params": [None]}
KNN_W = dict(KNN, weights=["uniform", "distance"])

CATALOG = {
    "PAA": E("tslearn.piecewise", "PiecewiseAggregateApproximation",
             {"n_segments": [1, 2, 3]}, ("transform", "inverse_transform"),
             saves=ALL, min_sz=3, ragged=False),
    "SAX": E("tslearn.piecewise", "SymbolicAggregateApproximation",
             {"n_segments": [1, 2, 3], "alphabet_size_avg": [2, 3, 5],
              "scale": [False, True]}, ("transform", "inverse_transform"),
             saves=ALL, min_sz=3, ragged=False),
    "1dSAX": E("tslearn.piecewise", "OneD_SymbolicAggregateApproximation",
               {"n_segments": [1, 2, 3], "alphabet_size_avg": [2, 3, 5],
                "alphabet_size_slope": [2, 4], "sigma_l": [None, .5],
                "scale": [False, True]}, ("transform", "inverse_transform"),
               saves=ALL, min_sz=3, ragged=False),
    "MatrixProfile": E("tslearn.matrix_profile", "MatrixProfile",
                       {"subsequence_length": [2, 3], "scale": [True, False]},
                       ("transform",), multi=False, saves=ALL, min_sz=6,
                       ragged=False),
    "KMeans": E("tslearn.clustering", "TimeSeriesKMeans",
                {"n_clusters": [1, 2], "metric": ["euclidean", "dtw",
                                                  "softdtw"],
                 "n_init": [1, 2], "init": ["k-means++", "random"],
                 "dtw_inertia": [False, True], "random_state": [0, 7],
                 "max_iter": [1, 4]},
                ("predict", "transform"),
                ("labels_", "cluster_centers_", "inertia_", "n_iter_"),
                saves=ALL, random=True, ragged=False,
                fixed={"max_iter_barycenter": 4}),
    "KMeansParams": E("tslearn.clustering", "TimeSeriesKMeans",
                      {"metric": ["dtw"], "metric_params": DTW_PARAMS,
                       "random_state": [0, 7]}, ("predict", "transform"),
                      ("labels_", "cluster_centers_", "inertia_"),
                      saves=ALL, random=True, fixed={
                          "n_clusters": 2, "max_iter": 3,
                          "max_iter_barycenter": 3}),
    "KMeansInit": E("tslearn.clustering", "TimeSeriesKMeans",
                    {"init": [two_series], "max_iter": [1, 3],
                     "metric": ["euclidean", "dtw"]},
                    ("predict", "transform"),
                    ("labels_", "cluster_centers_", "inertia_", "n_iter_"),
                    saves=ALL, ragged=False,
                    fixed={"n_clusters": 2, "max_iter_barycenter": 3}),
    "KShapeInit": E("tslearn.clustering", "KShape",
                    {"init": [two_series], "max_iter": [1, 5]}, ("predict",),
                    ("labels_", "cluster_centers_", "inertia_", "n_iter_"),
                    saves=ALL, ragged=False, fixed={"n_clusters": 2}),
    "KernelKMeans": E("tslearn.clustering", "KernelKMeans",
                      {"n_clusters": [1, 2], "kernel": ["gak", "linear",
                                                        "rbf"],
                       "kernel_params": [None], "random_state": [0, 7],
                       "max_iter": [3, 20], "n_init": [1, 3]}, ("predict",),
                      ("labels_", "inertia_", "n_iter_", "sample_weight_"),
                      saves=ALL, random=True, ragged=False),
    "KernelKMeansGak": E("tslearn.clustering", "KernelKMeans",
                         {"kernel_params": [None, {"sigma": 2.0},
                                            {"sigma": "auto"}],
                          "random_state": [0, 7]}, ("predict",),
                         ("labels_", "inertia_"), saves=ALL, random=True,
                         fixed={"n_clusters": 2}),
    "KShape": E("tslearn.clustering", "KShape",
                {"n_clusters": [1, 2], "n_init": [1, 2],
                 "random_state": [0, 7], "max_iter": [1, 5]}, ("predict",),
                ("labels_", "cluster_centers_", "inertia_", "n_iter_"),
                saves=ALL, random=True, ragged=False),
    "DBSCAN": E("tslearn.clustering", "TimeSeriesDBSCAN",
                {"eps": [.5, 2.0, 5.0], "min_ts": [1, 2],
                 "metric": ["dtw", "euclidean", "softdtw_normalized",
                            "frechet"],
                 "metric_params": [None]}, (),
                ("labels_", "core_ts_indices_", "components_"),
                saves=ALL, ragged=False),
    "KNN": E("tslearn.neighbors", "KNeighborsTimeSeries", KNN,
             ("kneighbors",), saves=ALL, ragged=False, min_sz=3),
    "KNNParams": E("tslearn.neighbors", "KNeighborsTimeSeries",
                   {"metric": ["dtw"], "metric_params": DTW_PARAMS},
                   ("kneighbors",), saves=ALL, fixed={"n_neighbors": 2}),
    "KNNClassifier": E("tslearn.neighbors", "KNeighborsTimeSeriesClassifier",
                       KNN_W, ("predict", "predict_proba"), ("classes_",),
                       y="class", saves=ALL, ragged=False, min_sz=3),
    "KNNClassifierParams": E(
        "tslearn.neighbors", "KNeighborsTimeSeriesClassifier",
        {"metric": ["dtw"], "metric_params": DTW_PARAMS,
         "weights": ["uniform", "distance"]}, ("predict", "predict_proba"),
        ("classes_",), y="class", saves=ALL, fixed={"n_neighbors": 2}),
    "KNNRegressor": E("tslearn.neighbors", "KNeighborsTimeSeriesRegressor",
                      KNN_W, ("predict",), y="real", ragged=False,
                      min_sz=3),
    "SVC": E("tslearn.svm", "TimeSeriesSVC",
             {"C": [.5, 2.0], "kernel": ["gak", "linear", "rbf", "poly"],
              "gamma": ["auto", .5], "decision_function_shape": ["ovr", "ovo"],
              "probability": [False, False, True], "random_state": [0]},
             ("predict", "decision_function", "?predict_proba"),
             ("support_", "dual_coef_", "intercept_"), y="class",
             ragged=False),
    "SVCGak": E("tslearn.svm", "TimeSeriesSVC",
                {"C": [.5, 2.0], "gamma": ["auto", .5]},
                ("predict", "decision_function"), ("support_", "dual_coef_"),
                y="class"),
    "SVR": E("tslearn.svm", "TimeSeriesSVR",
             {"C": [.5, 2.0], "kernel": ["gak", "linear", "rbf"],
              "epsilon": [.1, .5]}, ("predict",), ("support_", "dual_coef_"),
             y="real", ragged=False),
    "MLPClassifier": E("tslearn.neural_network", "TimeSeriesMLPClassifier",
                       {"hidden_layer_sizes": [(3,), (2, 2)], "alpha":
                        [1e-4, .1], "random_state": [0, 7],
                        "solver": ["adam", "lbfgs", "sgd"]},
                       ("predict", "predict_proba"), ("classes_",), y="class",
                       ragged=False, random=True, fixed={"max_iter": 5}),
    "MLPRegressor": E("tslearn.neural_network", "TimeSeriesMLPRegressor",
                      {"hidden_layer_sizes": [(3,), (2, 2)],
                       "random_state": [0, 7], "solver": ["adam", "lbfgs"]},
                      ("predict",), y="real", ragged=False, random=True,
                      fixed={"max_iter": 5}),
    "Resampler": E("tslearn.preprocessing", "TimeSeriesResampler",
                   {"sz": [1, 3, 7, -1]}, ("transform",)),
    "ScalerMinMax": E("tslearn.preprocessing", "TimeSeriesScalerMinMax",
                      {"value_range": [(0., 1.), (-2., 3.)],
                       "per_timeseries": [True, False],
                       "per_feature": [True, False]}, ("transform",),
                      nan=True),
    "ScalerMeanVariance": E(
        "tslearn.preprocessing", "TimeSeriesScalerMeanVariance",
        {"mu": [0., 2.], "std": [1., .5], "per_timeseries": [True, False],
         "per_feature": [True, False]}, ("transform",), nan=True),
    "Imputer": E("tslearn.preprocessing", "TimeSeriesImputer",
                 {"method": ["mean", "median", "ffill", "bfill", "linear",
                             "constant"],
                  "value": [0.5], "keep_trailing_nans": [True, False]},
                 ("transform",), nan=True),
    "Early": E("tslearn.early_classification", "NonMyopicEarlyClassifier",
               {"n_clusters": [1], "min_t": [1, 2], "lamb": [1.0, 10.0],
                "cost_time_parameter": [.01, 1.0], "random_state": [0]},
               ("predict", "predict_proba", "earliness"), y="class",
               ragged=False, min_sz=4, heavy=True),
    "Shapelets": E("tslearn.shapelets", "LearningShapelets",
                   {"n_shapelets_per_size": [{2: 1}, {2: 2, 3: 1}, None],
                    "optimizer": ["sgd", "adam"], "scale": [False, True],
                    "weight_regularizer": [0., .01], "max_size": [None, 20],
                    "random_state": [0, 7]},
                   ("predict", "predict_proba", "transform", "locate"),
                   (), y="class", min_sz=4, saves=(J, K), heavy=True,
                   random=True, fixed={"max_iter": 1, "shapelet_length": .5,
                                       "total_lengths": 1}),
    "VARIMA": E("tslearn.forecasting", "VARIMA",
                {"p": [0, 1, 2], "d": [0, 1, 2], "q": [0, 1],
                 "with_constant": [True, False],
                 "seasonal_period": [None, 2]}, ("forecast",),
                ("ar_coeffs_", "ma_coeffs_", "intercept_", "lle_"),
                saves=ALL, min_sz=9, fixed={"max_iter": 3}),
}
CATALOG["AutoVARIMA"] = E(
    "tslearn.forecasting", "AutoVARIMA",
    {"max_p": [0, 1], "max_q": [0, 1], "max_d": [0, 1],
     "seasonal_period": [None, 2]}, ("forecast",), (), saves=ALL, min_sz=20,
    fixed={"max_iter": 2}, heavy=True)
# Sub-checks go by groups, so that every process compiles little.
GROUPS = {
    "piecewise": ["PAA", "SAX", "1dSAX", "MatrixProfile"],
    "kmeans": ["KMeans", "KMeansParams", "KMeansInit"],
    "kshape": ["KShape", "KShapeInit"],
    "neighbors": ["KNN", "KNNParams", "KNNClassifier", "KNNClassifierParams",
                  "KNNRegressor", "DBSCAN"],
    "kernels": ["KernelKMeans", "KernelKMeansGak", "SVC", "SVCGak", "SVR",
                "VARIMA"],
    "others": ["MLPClassifier", "MLPRegressor", "Resampler", "ScalerMinMax",
               "ScalerMeanVariance", "Imputer", "Early"],
    "shapelets": ["Shapelets"],
    "selection": ["AutoVARIMA"],
}
LIGHT = sorted(k for k, e in CATALOG.items() if not e.heavy)
LABELS = [[0, 1, 2], [-1, 1, 4], ["b", "a", "c"]]


@st.composite
def case(draw, names=None, **kw):
    """An estimator with parameters and data to fit and query."""
    name = draw(st.sampled_from(names or LIGHT))
    e = CATALOG[name]
    p = {k: draw(st.integers(0, len(v) - 1)) for k, v in e.params.items()}
    sz = draw(st.integers(e.min_sz, e.min_sz + 5))
    n = draw(st.integers(6, 9)) + (4 if name == "Early" else 0)
    return {"est": name, "p": p, "n": n, "sz": sz,
            "d": draw(st.sampled_from([1, 2, 3])) if e.multi else 1,
            "ragged": e.ragged and draw(st.booleans()),
            "nan": e.nan and draw(st.booleans()),
            "labels": draw(st.integers(0, len(LABELS) - 1)),
            "seed": draw(st.integers(0, 10 ** 6))}


def data(c, n=None, off=0, kind="walk"):
    """(X, y): a padded array and labels of the right type."""
    e = CATALOG[c["est"]]
    rng = np.random.RandomState(c["seed"] + off)
    n = n or c["n"]
    X = np.cumsum(rng.standard_normal((n, c["sz"], c["d"])), axis=1)
    if c["ragged"]:
        for i in range(1, n):
            X[i, rng.randint(e.min_sz, c["sz"] + 1):] = np.nan
    if c["nan"] and c["sz"] > 2:
        for i in range(n):
            X[i, 1, rng.randint(c["d"])] = np.nan
    if e.y == "class":
        lab = LABELS[c["labels"]]
        k = max(1, min(3, n // (4 if c["est"] == "Early" else 3)))
        y = np.array([lab[i % k] for i in range(n)])
        X += np.arange(n)[:, None, None] % 3
    elif e.y == "real":
        y = rng.standard_normal(n)
    else:
        y = None
    return X, y


def build(c):
    warnings.filterwarnings("ignore")
    return CATALOG[c["est"]].build(c)


def fit(c, est, X, y):
    r = est.fit(X) if y is None else est.fit(X, y)
    if (CATALOG[c["est"]].mod == "tslearn.clustering"
            and getattr(est, "_X_fit", X) is None):
        raise NotJudged("every start met an empty cluster")
    return r
