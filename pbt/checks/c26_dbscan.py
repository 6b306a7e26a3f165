"""C26: DBSCAN labels are those of the density definition."""
import numpy as np
from hypothesis import strategies as st

import tslearn.metrics as M
from tslearn.clustering import TimeSeriesDBSCAN

from .. import gen, ref
from ..core import sub

PROPERTY = "C26"
RULE = ("Seeded datasets of 3-16 series (2-7 timestamps, 1-5 features, "
        "different lengths where the metric allows), eps between or beyond the "
        "observed distances, 1-5 required neighbours, every metric with "
        "parameters. Non-trivial: a border series, noise, or several clusters.")

WARM = ["density"]
METRICS = ["dtw", "dtw", "frechet", "ctw", "softdtw_normalized", "euclidean",
           "precomputed"]


@st.composite
def cases(draw):
    m = draw(st.sampled_from(METRICS))
    p = draw(gen.seeded(3, 9 if m == "ctw" else 16, 2, 7, variable=False,
                        large=m != "ctw"))
    if m == "ctw":
        p["sz"] = max(p["sz"], 4)
        p["min_sz"] = 4
    p["variable"] = (m not in ("euclidean", "precomputed")
                     and draw(st.booleans()))
    kw = {}
    if m in ("dtw", "frechet"):
        kw = draw(gen.constraint(itakura=False))
    elif m == "softdtw_normalized":
        kw = {"gamma": draw(st.sampled_from([0.1, 1.0, 3.0]))}
    if kw == {} and draw(st.booleans()):
        kw = None
    jobs = draw(st.sampled_from([None] * 6 + [1, 2]))
    return {"p": p, "metric": m, "kw": kw, "min_ts": draw(st.integers(1, 5)),
            "eps": draw(st.floats(0, 1)), "jobs": jobs,
            "dup": draw(st.integers(0, 3)), "seed": draw(st.integers(0, 99))}


def distances(c, X):
    m, kw = c["metric"], c["kw"] or {}
    A = ref.ts_list(X)
    n = len(A)
    D = np.zeros((n, n))
    for i in range(n):
        for j in range(n):
            a, b = A[i], A[j]
            if m == "dtw":
                D[i, j] = ref.dtw(a, b, kw)
            elif m == "frechet":
                D[i, j] = np.sqrt(ref.frechet(
                    ref.sqcost(a, b), ref.mask(len(a), len(b), kw))[-1, -1])
            elif m == "ctw":
                D[i, j] = M.ctw(a, b) if i < j else D[j, i]
            elif m == "softdtw_normalized":
                g = kw["gamma"]
                s = [ref.soft_dtw(ref.sqcost(x, y), g)
                     for x, y in ((a, b), (a, a), (b, b))]
                D[i, j] = s[0] - (s[1] + s[2]) / 2
            else:
                D[i, j] = np.sqrt(((a - b) ** 2).sum())
    if m == "ctw":
        np.fill_diagonal(D, 0)
    return D


def expected(D, eps, min_ts):
    """(core?, component of cores, admissible labels of the others)."""
    n = len(D)
    N = D <= eps
    core = N.sum(axis=1) >= min_ts
    comp = np.full(n, -1)
    k = 0
    for i in range(n):
        if core[i] and comp[i] < 0:
            todo = [i]
            comp[i] = k
            while todo:
                a = todo.pop()
                for b in range(n):
                    if core[b] and N[a, b] and comp[b] < 0:
                        comp[b] = k
                        todo.append(b)
            k += 1
    allowed = [{comp[i]} if core[i] else
               ({comp[j] for j in range(n) if core[j] and N[j, i]} or {-1})
               for i in range(n)]
    return core, comp, allowed


@sub(cases(), quick=700, shards=6)
def density(c, t):
    X = gen.bulk(c["p"])[0]
    rng = np.random.RandomState(c["seed"])
    for _ in range(c["dup"]):  # close copies make dense regions
        i, j = rng.choice(len(X), 2, replace=False)
        X[i] = X[j] + 0.05 * rng.standard_normal(X[j].shape)
    X = gen.pad(ref.ts_list(X))
    try:
        D = distances(c, X)
    except ValueError:  # canonical correlations of degenerate series (C12)
        if c["metric"] != "ctw":
            raise
        t.label("degenerate for ctw")
        return
    off = np.unique(D[~np.eye(len(D), dtype=bool)])
    cuts = np.concatenate([[off[0] / 2], (off[1:] + off[:-1]) / 2,
                           [off[-1] + 1]])
    gaps = np.concatenate([[off[0]], off[1:] - off[:-1], [1]])
    ok = np.nonzero(gaps > 1e-6 * (1 + cuts))[0]
    low = [i for i in ok if cuts[i] > 0]
    if not low:
        return
    eps = float(cuts[low[int(c["eps"] ** 2 * (len(low) - 1))]])
    est = TimeSeriesDBSCAN(eps=eps, min_ts=c["min_ts"], metric=c["metric"],
                           metric_params=c["kw"], n_jobs=c["jobs"])
    data = X
    if c["metric"] == "precomputed":
        data = D
    est.fit(data)
    core, comp, allowed = expected(D, eps, c["min_ts"])
    lab = np.asarray(est.labels_)
    t.ok(lab.shape == (len(X),), "shape of labels_")
    t.equal(est.core_ts_indices_, np.nonzero(core)[0], "core series")
    for i in range(len(X)):
        if core[i]:
            t.ok(lab[i] == comp[i], "label of a core series", i=i, labels=lab,
                 want=comp, distances=D, eps=eps)
        else:
            t.ok(lab[i] in allowed[i], "label of a border or noise series",
                 i=i, labels=lab, allowed=allowed[i], distances=D, eps=eps)
    if core.any() and c["metric"] != "precomputed":
        t.equal(est.components_, X[core], "components_")
    est2 = TimeSeriesDBSCAN(eps=eps, min_ts=c["min_ts"], metric=c["metric"],
                            metric_params=c["kw"])
    t.equal(est2.fit_predict(data), lab, "fit_predict")
    border = any(not core[i] and -1 not in allowed[i] for i in range(len(X)))
    t.label(c["metric"])
    t.label("border", border)
    t.label("noise", (lab < 0).any())
    t.label("several clusters", lab.max() > 0)
    t.nt(border or lab.max() > 0 or ((lab < 0).any() and core.any()))


@sub(cases(), quick=30)
def refusals(c, t):
    X = gen.bulk(dict(c["p"], variable=False))[0]
    t.raises(ValueError, lambda: TimeSeriesDBSCAN(metric="nope").fit(X),
             "metric")
    X[0, -1] = np.nan
    t.raises(ValueError, lambda: TimeSeriesDBSCAN(metric="euclidean").fit(X),
             "missing values")
    t.nt()


@sub(st.tuples(cases(), gen.UNITS), quick=120)
def units(c, t):
    """Labels are the same in any unit of the series and of eps."""
    c, k = c
    if c["metric"] not in ("dtw", "frechet", "euclidean"):
        return
    s = 2.0 ** k
    X = gen.bulk(c["p"])[0]
    eps = 3.0 * c["eps"] + 0.01
    a, b = (TimeSeriesDBSCAN(eps=e, min_ts=c["min_ts"], metric=c["metric"],
                             metric_params=c["kw"]) for e in (eps, s * eps))
    t.equal(b.fit(s * X).labels_, a.fit(X).labels_, "labels in another unit")
    t.nt(len(set(a.labels_)) > 1)
