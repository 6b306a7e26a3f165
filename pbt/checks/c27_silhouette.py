"""C27: the silhouette score follows its definition for the chosen metric."""
import numpy as np
from hypothesis import strategies as st

import tslearn.metrics as M
from tslearn.clustering import silhouette_score

from .. import gen, ref
from ..core import sub

PROPERTY = "C27"
RULE = ("Seeded datasets of 3-12 series (2-7 timestamps, 1-5 features, "
        "different lengths where the metric allows) and labels with 2 to n-1 "
        "values, every metric with parameters given either way, a function as "
        "metric, subsampling. Non-trivial: a cluster with several series.")

WARM = ["definition"]


def absolute(x, y):
    """A metric of the user's own, for which every value has its place."""
    def total(z):
        z = np.asarray(z, dtype=float).reshape(len(z), -1)
        return float(np.sum(z * np.cos(np.arange(z.size)).reshape(z.shape)))
    return abs(total(x) - total(y)) + abs(len(x) - len(y))


@st.composite
def cases(draw):
    m = draw(st.sampled_from([None, "dtw", "dtw", "softdtw", "euclidean",
                              "precomputed", "callable", "callable"]))
    p = draw(gen.seeded(3, 12, 2, 7, variable=False))
    p["variable"] = (m not in ("euclidean", "precomputed", "callable")
                     and draw(st.booleans()))
    kw = {}
    if m in (None, "dtw"):
        kw = draw(gen.constraint(itakura=False))
    elif m == "softdtw":
        kw = {"gamma": draw(st.sampled_from([0.1, 1.0, 3.0]))}
    k = draw(st.integers(2, p["n"] - 1))
    labels = list(range(k)) + [draw(st.integers(0, k - 1))
                               for _ in range(p["n"] - k)]
    return {"p": p, "metric": m, "kw": kw, "labels": draw(
        st.permutations(labels)), "names": draw(st.sampled_from([
            "int", "offset", "str"])), "as_kwargs": draw(st.booleans()),
        "form": draw(st.sampled_from(["array", "array", "list"])),
        "jobs": draw(st.sampled_from([None] * 7 + [2])),
        "sample": draw(st.booleans()), "seed": draw(st.integers(0, 99))}


def distances(c, A):
    m, kw = c["metric"], c["kw"]
    D = np.zeros((len(A), len(A)))
    for i, a in enumerate(A):
        for j, b in enumerate(A):
            if i == j:
                continue
            if m in (None, "dtw"):
                D[i, j] = ref.dtw(a, b, kw)
            elif m == "softdtw":
                s = [ref.soft_dtw(ref.sqcost(x, y), kw["gamma"])
                     for x, y in ((a, b), (a, a), (b, b))]
                D[i, j] = s[0] - (s[1] + s[2]) / 2
            elif m == "callable":
                D[i, j] = absolute(a, b)
            else:
                D[i, j] = np.sqrt(((a - b) ** 2).sum())
    return D


def score(D, lab):
    n = len(D)
    s = np.zeros(n)
    for i in range(n):
        own = [j for j in range(n) if lab[j] == lab[i] and j != i]
        if not own:
            continue
        a = np.mean([D[i, j] for j in own])
        b = min(np.mean([D[i, j] for j in range(n) if lab[j] == v])
                for v in set(lab) if v != lab[i])
        s[i] = (b - a) / max(a, b) if max(a, b) > 0 else 0.0
    return s.mean()


@sub(cases(), quick=900, shards=4)
def definition(c, t):
    X = gen.bulk(c["p"])[0]
    A = ref.ts_list(X)
    n = len(A)
    lab = np.array(c["labels"])
    names = {"int": lab, "offset": 7 - 3 * lab,
             "str": np.array(list("abcdefghijkl"))[lab]}[c["names"]]
    D = distances(c, A)
    data = X if c["form"] == "array" else [a.tolist() for a in A]
    metric = c["metric"]
    if metric == "precomputed":
        data = D
    elif metric == "callable":
        metric = absolute
    kw = {}
    if c["kw"]:
        kw = dict(c["kw"]) if c["as_kwargs"] else {
            "metric_params": dict(c["kw"])}
    params = kw.get("metric_params")
    before = None if params is None else dict(params)
    got = silhouette_score(data, names, metric=metric, n_jobs=c["jobs"], **kw)
    want = score(D, lab)
    t.ok(np.ndim(got) == 0, "not a number", got=got)
    t.close(got, want, "silhouette", rtol=1e-6, atol=1e-7, metric=c["metric"])
    t.ok(-1 - 1e-9 <= got <= 1 + 1e-9, "out of [-1, 1]", got=got)
    t.ok(params == before, "metric_params changed", now=params)
    if c["sample"]:
        kw["sample_size"] = n - 1
        rng = np.random.RandomState(c["seed"])
        i = rng.permutation(n)[:n - 1]
        if 1 < len(set(lab[i])) < n - 1:
            t.close(silhouette_score(data, names, metric=metric,
                                     random_state=c["seed"], **kw),
                    score(D[np.ix_(i, i)], lab[i]), "subsample", rtol=1e-6,
                    atol=1e-7)
            t.label("subsample")
    t.label(str(c["metric"]))
    t.nt()


@sub(cases(), quick=60)
def refusals(c, t):
    """One cluster, or one per series, has no silhouette."""
    X = gen.bulk(c["p"])[0]
    for lab in (np.zeros(len(X), dtype=int), np.arange(len(X))):
        t.raises(ValueError, lambda: silhouette_score(X, lab, metric="dtw"),
                 "number of labels")
    t.nt()


@sub(st.tuples(cases(), gen.UNITS), quick=150)
def units(c, t):
    """The score does not depend on the unit of the series."""
    c, k = c
    if c["metric"] in ("precomputed", "callable", "softdtw"):
        return
    X = gen.bulk(c["p"])[0]
    kw = dict(metric=c["metric"], metric_params=dict(c["kw"]) or None)
    want = silhouette_score(X, c["labels"], **kw)
    t.close(silhouette_score(2.0 ** k * X, c["labels"], **kw), want,
            "score in another unit")
    t.nt(want != 0)
