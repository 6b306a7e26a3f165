"""C12: Canonical Time Warping returns a consistent alignment."""
import math

import numpy as np
from hypothesis import strategies as st

from tslearn.metrics import cdist_ctw, ctw, ctw_path

from .. import gen, ref
from ..core import sub, _arr

WARM = ["path_and_score"]
PROPERTY = "C12"
RULE = ("Pairs of smooth non-degenerate series (4-8 timestamps), possibly "
        "with different numbers of features, every constraint form, both "
        "backends, several iteration limits. Non-trivial: the returned path is "
        "not the diagonal.")


@st.composite
def cases(draw):
    d1 = draw(st.integers(1, 3))
    d2 = draw(st.one_of(st.just(d1), st.integers(1, 3)))
    return {"seed": draw(st.integers(0, 10 ** 6)), "d": (d1, d2),
            "sz": (draw(st.integers(5, 9)), draw(st.integers(5, 9))),
            "kw": draw(gen.constraint()), "be": draw(gen.BACKENDS),
            "max_iter": draw(st.sampled_from([1, 2, 3, 100])),
            "nc": draw(st.sampled_from([None, None, 1]))}


def expand(c):
    rng = np.random.RandomState(c["seed"])
    return [np.cumsum(rng.randn(n, d), axis=0)
            for n, d in zip(c["sz"], c["d"])]


def projected(cca, x, y):
    a, b = cca.transform(x, y)
    return np.asarray(a).reshape(len(x), -1), np.asarray(b).reshape(len(y), -1)


@sub(cases(), quick=300, shards=2)
def path_and_score(c, t):
    x, y = expand(c)
    kw, be = dict(c["kw"]), c["be"]
    M = ref.mask(len(x), len(y), kw)
    opts = dict(kw, be=be, max_iter=c["max_iter"], n_components=c["nc"])
    if M is None:
        t.raises(RuntimeWarning, lambda: ctw_path(x, y, **opts), "refused")
        return
    p, cca, s = ctw_path(x, y, **opts)
    err = ref.path_error(p, len(x), len(y), M)
    t.ok(err is None, "invalid path: %s" % err, path=p)
    nc = c["nc"] or min(x.shape[1], y.shape[1])
    if c["max_iter"] == 1:
        a, b = x[:, :nc], y[:, :nc]
    else:
        a, b = projected(cca, x, y)
        t.ok(a.shape[1] == nc, "number of components", got=a.shape)
    C = ref.sqcost(a, b)
    opt = ref.dtw_table(C, M)[-1, -1]
    cost = sum(C[int(i), int(j)] for i, j in p)
    t.close(cost, opt, "path is not optimal in the projected space",
            rtol=1e-5, atol=1e-6)
    if abs(float(s) - math.sqrt(opt)) > 1e-5 * (1 + math.sqrt(opt)):
        # KNOWN FINDING F-C12-score: score of the unprojected series.
        t.exclude("F-C12-score")
        t.close(s, ref.dtw(x[:, :nc], y[:, :nc], kw),
                "score is neither that of the projected nor that of the "
                "truncated series", rtol=1e-6, atol=1e-6)
    t.close(ctw(x, y, **opts), s, "ctw is the score of ctw_path", rtol=1e-6,
            atol=1e-9)
    t.nt(any(i != j for i, j in p))


@sub(cases(), quick=10)
def score_matches_alignment(c, t):
    """The finding itself; judged on its recorded case only."""
    if t.trace:
        t.exclude("F-C12-score")
        return
    x, y = expand(c)
    p, cca, s = ctw_path(x, y, be=c["be"], max_iter=c["max_iter"])
    C = ref.sqcost(*projected(cca, x, y))
    t.close(s, math.sqrt(sum(C[int(i), int(j)] for i, j in p)),
            "returned score is not the cost of the returned path under the "
            "returned transformation", rtol=1e-5, atol=1e-6)


@sub(cases(), quick=150)
def matrix(c, t):
    rng = np.random.RandomState(c["seed"])
    d = c["d"][0]
    lens = [c["sz"][0], c["sz"][1], 6]
    A = [np.cumsum(rng.randn(n, d), axis=0) for n in lens]
    kw = c["kw"]
    if any(ref.mask(a, b, kw) is None for a in lens for b in lens):
        return
    opts = dict(kw, be=c["be"], max_iter=c["max_iter"])
    P = gen.pad(A)
    D = _arr(cdist_ctw(P, **opts))
    t.equal(D, D.T, "symmetric")
    t.close(np.diag(D), np.zeros(3), "zero diagonal", atol=1e-6)
    for i in range(3):
        for j in range(i + 1, 3):
            t.close(D[i, j], ctw(A[i], A[j], **opts), "entry", rtol=1e-6,
                    atol=1e-9)
    W = _arr(cdist_ctw(P[:2], P, n_jobs=2, **opts))
    for i in range(2):
        for j in range(3):
            t.close(W[i, j], ctw(A[i], A[j], **opts), "cross entry", rtol=1e-6,
                    atol=1e-9)
    t.nt(True)


@sub(st.tuples(cases(), gen.UNITS), quick=80)
def units(c, t):
    """The distance is in the unit of the series."""
    c, k = c
    s = 2.0 ** k
    x, y = expand(c)
    if c["d"][0] != c["d"][1] or ref.mask(len(x), len(y), c["kw"]) is None:
        return
    kw = dict(c["kw"], be=c["be"], max_iter=c["max_iter"],
              n_components=c["nc"])
    want = s * float(ctw(x, y, **kw))
    t.close(ctw(s * x, s * y, **kw), want, "distance in another unit",
            rtol=1e-6, atol=0)
    t.nt(want > 0)
