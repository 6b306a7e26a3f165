"""Catalogue of the public functions: arguments to draw, a call to make.

Used by C02.  Every entry gives the arguments (arrays) and the call; the
outcome of the call is normalised to a flat list of arrays.
"""
import numpy as np

CONS = [{}, {"global_constraint": "sakoe_chiba", "sakoe_chiba_radius": 2},
        {"sakoe_chiba_radius": 1}, {"itakura_max_slope": 3.0}]


class Ctx:
    """Draws arguments from one seed."""

    def __init__(self, seed, integers=False):
        self.rng = np.random.RandomState(seed)
        self.d = self.rng.randint(1, 4)
        self.sz = self.rng.randint(3, 8)
        self.integers = integers
        self.opt = self.rng.randint(0, 10 ** 6)

    def values(self, *shape):
        v = self.rng.standard_normal(shape) * 2
        return np.round(v * 2) if self.integers else v

    def series(self, sz=None, d=None):
        return self.values(sz or self.rng.randint(3, 8), d or self.d)

    def dataset(self, n=None, sz=None, d=None, ragged=False):
        X = self.values(n or self.rng.randint(2, 5), sz or self.sz,
                        d or self.d)
        if ragged:
            for i in range(1, len(X)):
                X[i, self.rng.randint(3, X.shape[1] + 1):] = np.nan
        return X

    def pick(self, options):
        return options[self.opt % len(options)]


def _m():
    import tslearn.metrics as m
    return m


TABLE = {}


def entry(*, be=False, lists=9, ints=True, tol=0.0):
    """`fn(c)` gives (call, args).  be: takes tensors; lists: how many of
    the arguments can be nested lists; ints: integer arrays mean the same as floats."""
    def deco(fn):
        fn.be, fn.lists, fn.ints, fn.tol = be, lists, ints, tol
        TABLE[fn.__name__] = fn
        return fn
    return deco


def pair(name, options=({},), be=True, **kw):
    def fn(c):
        p = c.pick(list(options))
        return (lambda a, b: getattr(_m(), name)(a, b, **p),
                [c.series(), c.series()])
    fn.__name__ = name
    entry(be=be, **kw)(fn)


def cross(name, options=({},), be=True, ragged=False, **kw):
    def fn(c):
        p = c.pick(list(options))
        X = c.dataset(ragged=ragged)
        if c.opt % 5 == 0:
            return lambda a: getattr(_m(), name)(a, **p), [X]
        return (lambda a, b: getattr(_m(), name)(a, b, **p),
                [X, c.dataset(ragged=ragged)])
    fn.__name__ = name
    entry(be=be, **kw)(fn)


pair("dtw", CONS)
pair("dtw_path", CONS)
pair("frechet", CONS)
pair("frechet_path", CONS)
pair("lcss", [{"eps": 1.0}, {"eps": .5, "sakoe_chiba_radius": 2,
                             "global_constraint": "sakoe_chiba"}])
pair("lcss_path", [{"eps": 1.0}, {"eps": .5, "itakura_max_slope": 3.,
                                  "global_constraint": "itakura"}])
pair("soft_dtw", [{"gamma": 1.0}, {"gamma": .1}])
pair("soft_dtw_alignment", [{"gamma": 1.0}, {"gamma": .1}])
pair("gak", [{"sigma": 1.0}, {"sigma": 3.0}])
pair("unnormalized_gak", [{"sigma": 1.0}, {"sigma": 3.0}])
pair("dtw_subsequence_path")
pair("dtw_limited_warping_length", [{"max_length": 9}])
pair("dtw_path_limited_warping_length", [{"max_length": 9}])
cross("cdist_dtw", CONS + [{"n_jobs": 2}], ragged=True)
cross("cdist_frechet", CONS, ragged=True)
cross("cdist_soft_dtw", [{"gamma": 1.0}, {"gamma": .2}], ragged=True)
cross("cdist_soft_dtw_normalized", [{"gamma": 1.0}, {"gamma": .2}])
cross("cdist_gak", [{"sigma": 1.0}, {"sigma": 3.0}], ragged=True)


@entry(be=False)
def ctw(c):
    p = c.pick([{"max_iter": 3}, {"max_iter": 2, "n_components": 1}])
    return (lambda a, b: _m().ctw(a, b, **p),
            [c.series(12, 2), c.series(10, 2)])


@entry(be=False)
def cdist_ctw(c):
    return (lambda a, b: _m().cdist_ctw(a, b, max_iter=2),
            [c.dataset(2, 12, 2), c.dataset(2, 10, 2)])


@entry(be=False)
def ctw_path(c):
    def call(a, b):
        path, cca, dist = _m().ctw_path(a, b, max_iter=3)
        return path, dist, cca.x_rotations_
    return call, [c.series(12, 2), c.series(10, 2)]


@entry(be=False)
def dtw_path_other_metric(c):
    m = c.pick(["cityblock", "cosine", lambda u, v: abs(u - v).sum()])
    return (lambda a, b: _m().dtw_path_from_metric(a, b, metric=m),
            [c.series(), c.series()])


@entry(be=True)
def dtw_path_from_metric(c):
    m = c.pick(["euclidean", "sqeuclidean", lambda u, v: abs(u - v).sum()])
    return (lambda a, b: _m().dtw_path_from_metric(a, b, metric=m),
            [c.series(), c.series()])


@entry(be=True)
def dtw_path_precomputed(c):
    p = c.pick(CONS)
    return (lambda D: _m().dtw_path_from_metric(D, metric="precomputed", **p),
            [abs(c.values(5, 6))])


@entry(be=True)
def frechet_path_from_metric(c):
    p = c.pick(CONS)
    return (lambda a, b: _m().frechet_path_from_metric(
        a, b, metric="sqeuclidean", **p), [c.series(), c.series()])


@entry(be=True)
def frechet_path_precomputed(c):
    p = c.pick(CONS)
    return (lambda D: _m().frechet_path_from_metric(
        D, metric="precomputed", **p), [abs(c.values(5, 6))])


@entry(be=True)
def lcss_path_from_metric(c):
    p = c.pick(CONS)
    return (lambda a, b: _m().lcss_path_from_metric(
        a, b, eps=1.0, metric="sqeuclidean", **p), [c.series(), c.series()])


@entry(be=True)
def lcss_path_precomputed(c):
    p = c.pick(CONS)
    return (lambda D: _m().lcss_path_from_metric(
        D, eps=1.0, metric="precomputed", **p), [abs(c.values(5, 6))])


@entry(be=True, lists=0)
def accumulated(c):
    name = c.pick(["dtw_accumulated_matrix", "frechet_accumulated_matrix"])
    a, b = c.series(5), c.series(6)
    mask = np.zeros((5, 6))
    for i in range(5):
        mask[i, max(0, i - 1):i + 3] = 1
    return (lambda u, v, w: getattr(_m(), name)(u, v, w != 0), [a, b, mask])


@entry(be=True, ints=False)
def subsequence(c):
    def call(a, b):
        C = _m().subsequence_cost_matrix(a, b)
        keep = np.array(C, copy=True)
        p = _m().subsequence_path(C, C.shape[1] - 1)
        assert np.array_equal(keep, np.asarray(C)), "cost matrix changed"
        return C, p
    return call, [c.series(3), c.series(6)]


@entry(be=True)
def lb_keogh(c):
    r = c.pick([1, 2, 3])
    return (lambda a, b: _m().lb_keogh(a, b, radius=r),
            [c.series(6, 1), c.series(6, 1)])


@entry(be=True)
def lb_keogh_envelope(c):
    r = c.pick([1, 2, 3])

    def call(a, b):
        env = _m().lb_envelope(b, radius=r)
        return (_m().lb_keogh(a, envelope_candidate=env),) + tuple(env)
    return call, [c.series(6, 1), c.series(6, 1)]


@entry(be=True)
def gamma_soft_dtw(c):
    return (lambda X: _m().gamma_soft_dtw(X, n_samples=20, random_state=0),
            [c.dataset(4)])


@entry(be=True)
def sigma_gak(c):
    return (lambda X: _m().sigma_gak(X, n_samples=20, random_state=0),
            [c.dataset(4)])


@entry(be=True, lists=0)
def soft_dtw_class(c):
    def call(D):
        s = _m().SoftDTW(D, gamma=.7)
        return s.compute(), s.grad()
    return call, [abs(c.values(4, 5))]


@entry(be=False, lists=0, ints=False)
def squared_euclidean_class(c):
    def call(a, b):
        s = _m().SquaredEuclidean(a, b)
        D = s.compute()
        return D, s.jacobian_product(np.ones_like(D))
    return call, [c.series(4, 2), c.series(5, 2)]


@entry(lists=0, ints=False)
def normalized_cc(c):
    X, Y = c.dataset(3, 6, 2), c.dataset(2, 6, 2)
    n = np.linalg.norm
    return (lambda a, b: _m().cdist_normalized_cc(
        a, b, n(a, axis=(1, 2)), n(b, axis=(1, 2)), False), [X, Y])


@entry(lists=0, ints=False)
def shifted_sbd(c):
    ref, X = c.series(6, 2), c.dataset(3, 6, 2)
    return (lambda r, D: _m().y_shifted_sbd_vec(
        r, D, -1, np.linalg.norm(D, axis=(1, 2))), [ref, X])


@entry(lists=0)
def sax_distances(c):
    from tslearn.metrics import cdist_sax
    from tslearn.preprocessing import TimeSeriesScalerMeanVariance  # noqa
    bp = np.array([-.7, 0., .7])
    return (lambda a, b: cdist_sax(a, bp, 12, b), [
        c.rng.randint(0, 4, (3, 4, 2)).astype(float),
        c.rng.randint(0, 4, (2, 4, 2)).astype(float)])


def _bary(name, weights=True, **kw):
    def fn(c):
        import tslearn.barycenters as b
        X = c.dataset(3, 6, ragged=name != "euclidean_barycenter")
        if name == "euclidean_barycenter":
            return lambda x, w: b.euclidean_barycenter(x, w), [
                X, abs(c.values(3)) + 1]
        init = c.values(c.pick([4, 6]), c.d)
        extra = dict(kw)
        if name == "softdtw_barycenter":
            return (lambda x, w, i: b.softdtw_barycenter(
                x, weights=w, init=i, max_iter=3), [
                    X, abs(c.values(3)) + 1, init])
        if c.opt % 3 == 0:
            extra["metric_params"] = {"global_constraint": "sakoe_chiba",
                                      "sakoe_chiba_radius": 3}
        return (lambda x, w, i: getattr(b, name)(
            x, weights=w, init_barycenter=i, max_iter=3, **extra),
            [X, abs(c.values(3)) + 1, init])
    fn.__name__ = name
    entry(lists=2 if name == "euclidean_barycenter" else 1,
          tol=1e-8)(fn)


_bary("euclidean_barycenter")
_bary("dtw_barycenter_averaging")
_bary("dtw_barycenter_averaging_petitjean")
_bary("dtw_barycenter_averaging_subgradient", random_state=0)
_bary("softdtw_barycenter")


@entry()
def silhouette(c):
    from tslearn.clustering import silhouette_score
    m = c.pick(["dtw", "euclidean", "softdtw"])
    y = np.array([0, 0, 1, 1, 1])
    return (lambda X: silhouette_score(X, y, metric=m), [c.dataset(5)])


@entry()
def silhouette_precomputed(c):
    from tslearn.clustering import silhouette_score
    D = abs(c.values(5, 5))
    D = D + D.T
    np.fill_diagonal(D, 0)
    y = np.array([0, 0, 1, 1, 1])
    return (lambda M: silhouette_score(M, y, metric="precomputed"), [D])


@entry()
def to_time_series(c):
    from tslearn.utils import to_time_series as f
    nan = c.opt % 2 == 0
    s = c.series()
    if nan and not c.integers:
        s[-1] = np.nan
    return lambda a: f(a, remove_nans=nan), [s]


@entry()
def to_time_series_dataset(c):
    from tslearn.utils import to_time_series_dataset as f
    return lambda a: f(a), [c.dataset(ragged=not c.integers)]


@entry()
def to_sklearn_dataset(c):
    from tslearn.utils import to_sklearn_dataset as f
    dim = bool(c.opt % 2)
    return lambda a: f(a, return_dim=dim), [c.dataset()]


@entry()
def sizes(c):
    from tslearn.utils import check_equal_size, ts_size

    def call(a):
        return ts_size(a), check_equal_size([a, a])
    return call, [c.series()]


@entry()
def text(c):
    from tslearn.utils import str_to_time_series, time_series_to_str
    return lambda a: str_to_time_series(time_series_to_str(a)), [c.series()]


def _cast(lib):
    def fn(c):
        import tslearn.utils as u
        to, back = (getattr(u, "to_%s_dataset" % lib),
                    getattr(u, "from_%s_dataset" % lib))
        return lambda a: back(to(a)), [c.dataset()]
    fn.__name__ = "cast_" + lib
    entry()(fn)


for _lib in ("pyts", "seglearn", "stumpy"):
    _cast(_lib)


def _score(name):
    def fn(c):
        import tslearn.metrics.performance as p
        if name in ("mase",):
            return (lambda a, b, z: getattr(p, name)(a, b, z),
                    [c.dataset(3, 5, 2), c.dataset(3, 5, 2),
                     c.dataset(3, 9, 2)])
        return (lambda a, b: getattr(p, name)(a, b),
                [c.dataset(3, 5, 2), c.dataset(3, 5, 2)])
    fn.__name__ = name
    entry()(fn)


for _name in ("mae", "mse", "mase"):
    _score(_name)


def flat(v):
    """Nested results as a list of arrays."""
    if type(v).__module__.startswith("torch"):
        return [v.detach().numpy()]
    if isinstance(v, tuple):
        return [a for w in v for a in flat(w)]
    if isinstance(v, dict):
        return [a for k in sorted(v) for a in flat(v[k])]
    if hasattr(v, "tocoo"):
        return [np.asarray(v.todense())]
    try:
        return [np.asarray(v)]
    except ValueError:
        return [a for w in v for a in flat(w)]
