"""C22: barycenters do what they announce with respect to their objective."""
import itertools

import numpy as np
from hypothesis import strategies as st

from tslearn.barycenters import (dtw_barycenter_averaging,
                                 dtw_barycenter_averaging_petitjean,
                                 dtw_barycenter_averaging_subgradient,
                                 euclidean_barycenter, softdtw_barycenter)
from tslearn.preprocessing import TimeSeriesResampler

from .. import gen, ref
from ..core import sub

PROPERTY = "C22"
RULE = ("Datasets of 1-5 series (2-8 timestamps, 1-3 features, same or "
        "different lengths), uniform or random weights, every constraint "
        "form, default or given initial barycenter of another length, "
        "successive iteration counts. Non-trivial: the barycenter moved from "
        "its initial value.")

WARM = ["dba", "soft"]


@st.composite
def cases(draw, min_n=1, max_n=5, max_sz=8, variable=None, itakura=True):
    p = draw(gen.seeded(2, max(2, max_n), 2, max_sz, variable=draw(
        st.booleans()) if variable is None else variable))
    p["kind"] = draw(st.sampled_from(["normal", "walk", "offset"]))
    p["n"] = max(p["n"], 2)
    return {"p": p, "n": draw(st.integers(min_n, p["n"])),
            "w": draw(st.sampled_from([None, None, "random"])),
            "kw": draw(gen.constraint(itakura)),
            "init": draw(st.sampled_from([None, None, "same", "other"])),
            "size": draw(st.sampled_from([None, None, None, 2, 5, 9])),
            "iters": draw(st.integers(1, 5)),
            "jobs": draw(st.sampled_from([None, None, None, 2])),
            "seed": draw(st.integers(0, 9999))}


def setup(c):
    """(X padded, list of series, weights or None, init or None)."""
    X = gen.bulk(c["p"])[0][:c["n"]]
    A = ref.ts_list(X)
    A = [a if len(a) else np.zeros((1, X.shape[2])) for a in A]
    X = gen.pad(A)
    rng = np.random.RandomState(c["seed"])
    w = None if c["w"] is None else rng.uniform(0.1, 3.0, len(A))
    init = None
    if c["init"] is not None:
        m = X.shape[1] if c["init"] == "same" else 1 + c["seed"] % 9
        init = A[0].mean(axis=0) + rng.standard_normal((m, X.shape[2]))
    return X, A, w, init


def masks(B, A, kw):
    """Admissible cells for each series, or None when there is no such."""
    out = []
    for a in A:
        M, N = ref.mask(len(B), len(a), kw), ref.mask(len(a), len(B), kw)
        if M is None or N is None or (M != N.T).any() or not \
                np.isfinite(ref.dtw_table(np.ones(M.shape), M)[-1, -1]):
            return None
        out.append(M)
    return out


def default_init(X, size):
    B = np.nanmean(X, axis=0)
    if size is None or size == len(B):
        return B
    u = np.linspace(0, len(B) - 1, size)
    i = np.minimum(np.floor(u).astype(int), len(B) - 2)
    return B[i] + (u - i)[:, None] * (B[i + 1] - B[i])


def path(C, M):
    """An optimal path, and whether it is clearly the only one."""
    D = ref.dtw_table(C, M)
    i, j = C.shape[0] - 1, C.shape[1] - 1
    p, clear = [(i, j)], True
    while i or j:
        cand = sorted((D[a, b], a, b) for a, b in
                      ((i - 1, j - 1), (i - 1, j), (i, j - 1))
                      if a >= 0 and b >= 0)
        if len(cand) > 1 and cand[1][0] - cand[0][0] < 1e-7 * (
                1 + abs(cand[0][0])):
            clear = False
        _, i, j = cand[0]
        p.append((i, j))
    return p[::-1], clear, D[-1, -1]


def cost(B, A, w, kw):
    M = masks(B, A, kw)
    return sum(wi * ref.dtw_table(ref.sqcost(B, a), m)[-1, -1]
               for wi, a, m in zip(w, A, M)) / sum(w)


def dba_step(B, A, w, kw):
    num, den, clear = np.zeros(B.shape), np.zeros((len(B), 1)), True
    for wi, a, M in zip(w, A, masks(B, A, kw)):
        p, ok, _ = path(ref.sqcost(B, a), M)
        clear &= ok
        for i, j in p:
            num[i] += wi * a[j]
            den[i] += wi
    return num / den, clear


@sub(cases(), quick=260, shards=4)
def dba(c, t):
    X, A, w, init = setup(c)
    kw, size = c["kw"], c["size"] if c["init"] is None else None
    if X.shape[1] < 2:
        return
    B = default_init(X, size) if init is None else init
    if masks(B, A, kw) is None:
        t.label("no admissible path")
        return
    ww = np.ones(len(A)) if w is None else w
    k = dict(init_barycenter=init, barycenter_size=size, tol=0., weights=w,
             metric_params=kw or None, n_jobs=c["jobs"])
    start = cost(B, A, ww, kw)
    E, clear = B, True
    for _ in range(c["iters"]):
        E, ok = dba_step(E, A, ww, kw)
        clear &= ok
    for f in (dtw_barycenter_averaging, dtw_barycenter_averaging_petitjean):
        got = f(X, max_iter=c["iters"], **k)
        t.ok(got.shape == B.shape, "shape", got=got.shape, want=B.shape)
        now = cost(got, A, ww, kw)
        t.ok(now <= start * (1 + 1e-9) + 1e-9, "cost increased", f=f.__name__,
             before=start, after=now)
        nxt = cost(f(X, max_iter=c["iters"] + 1, **k), A, ww, kw)
        t.ok(nxt <= now * (1 + 1e-9) + 1e-9, "cost increased with one more "
             "iteration", f=f.__name__, before=now, after=nxt)
        if clear:
            t.close(got, E, "iterated averaging " + f.__name__, rtol=1e-6,
                    atol=1e-7)
    t.label("constrained", kw != {})
    t.label("unique paths", clear)
    t.nt(np.any(np.abs(E - B) > 1e-9))


@sub(cases(), quick=150, shards=2)
def stopping(c, t):
    """The averaging stops once the cost decreased by less than the tolerance
    from one iteration to the next."""
    X, A, w, init = setup(c)
    kw, size = c["kw"], c["size"] if c["init"] is None else None
    if X.shape[1] < 2:
        return
    B = default_init(X, size) if init is None else init
    if masks(B, A, kw) is None:
        return
    ww = np.ones(len(A)) if w is None else w
    k = dict(init_barycenter=init, barycenter_size=size, weights=w,
             metric_params=kw or None)
    for f in (dtw_barycenter_averaging, dtw_barycenter_averaging_petitjean):
        runs = [B] + [f(X, max_iter=j, tol=0., **k) for j in range(1, 7)]
        costs = [cost(b, A, ww, kw) for b in runs]
        tol = [0.3, 0.05, 0.01][c["seed"] % 3] * (costs[0] - costs[-1])
        if tol < 1e-6 * (1 + costs[0]):
            continue
        drops = [a - b for a, b in zip(costs, costs[1:])]
        if min(abs(d - tol) for d in drops) < 1e-7 * (1 + costs[0]):
            continue
        stop = next((j + 2 for j, d in enumerate(drops) if d < tol), 6)
        t.close(f(X, max_iter=6, tol=tol, **k), runs[min(stop, 6)],
                "barycenter with a tolerance", f=f.__name__, rtol=1e-7,
                atol=1e-7, costs=costs, tol=tol)
        t.nt(stop < 6)


@sub(cases(max_n=4), quick=200, shards=2)
def weights_are_repetitions(c, t):
    """An integer weight is that many copies of the series."""
    X, A, w, init = setup(c)
    kw = c["kw"]
    if X.shape[1] < 2 or masks(default_init(X, None) if init is None else init,
                               A, kw) is None:
        return
    if init is None:
        init = default_init(X, c["size"])
        if masks(init, A, kw) is None:
            return
    times = np.random.RandomState(c["seed"]).randint(1, 4, len(A))
    R = np.repeat(X, times, axis=0)
    k = dict(init_barycenter=init, max_iter=1, metric_params=kw or None)
    for f in (dtw_barycenter_averaging, dtw_barycenter_averaging_petitjean):
        t.close(f(X, weights=times.astype(float), **k), f(R, **k),
                f.__name__, rtol=1e-9, atol=1e-9)
        t.close(f(X, weights=times * 0.5, **k), f(R, **k),
                f.__name__ + " scaled", rtol=1e-9, atol=1e-9)
    t.nt(len(set(times)) > 1)


@sub(cases(max_n=3), quick=200, shards=2)
def subgradient(c, t):
    """One epoch visits every series once, in some order."""
    X, A, w, init = setup(c)
    A = A[:3]
    X, w = X[:3], None if w is None else w[:3]
    kw, size = c["kw"], c["size"] if c["init"] is None else None
    if X.shape[1] < 2:
        return
    B = default_init(X, size) if init is None else init
    if masks(B, A, kw) is None:
        return
    e0, e1 = 0.01 + (c["seed"] % 7) / 70, 0.004
    ww = np.ones(len(A)) if w is None else w
    k = dict(init_barycenter=None if init is None else init.copy(),
             barycenter_size=size, weights=w, metric_params=kw or None,
             initial_step_size=e0, final_step_size=e1,
             random_state=c["seed"])
    f = dtw_barycenter_averaging_subgradient
    t.close(f(X, max_iter=0, **k), B, "initial barycenter", rtol=1e-12,
            atol=1e-12)
    got = f(X, max_iter=1, **k)
    t.equal(f(X, max_iter=1, **k), got, "same seed, other result")
    wants, clear = [], True
    for order in itertools.permutations(range(len(A))):
        E, eta = B.copy(), e0
        for i in order:
            M = masks(E, [A[i]], kw)[0]
            p, ok, _ = path(ref.sqcost(E, A[i]), M)
            clear &= ok
            G = np.zeros(E.shape)
            for a, b in p:
                G[a] += 2 * (E[a] - A[i][b])
            E = E - eta * ww[i] / ww.max() * G
            eta -= (e0 - e1) / len(A)
        wants.append(E)
    t.ok(got.shape == B.shape, "shape")
    if clear:
        t.ok(any(np.allclose(got, E, rtol=1e-7, atol=1e-8) for E in wants),
             "one epoch of subgradient descent", got=got, orders=wants)
        t.nt()


@sub(cases(max_sz=9), quick=300)
def euclidean(c, t):
    X, A, w, _ = setup(dict(c, p=dict(c["p"], variable=False)))
    ww = np.ones(len(A)) if w is None else w
    want = sum(wi * a for wi, a in zip(ww, A)) / ww.sum()
    t.close(euclidean_barycenter(X, weights=w), want, "weighted mean",
            rtol=1e-9, atol=1e-9)
    t.close(euclidean_barycenter([a.tolist() for a in A], weights=w), want,
            "weighted mean of lists", rtol=1e-9, atol=1e-9)
    t.nt(len(A) > 1)


def objective(B, A, w, gamma, kw):
    return sum(wi * ref.soft_dtw(ref.sqcost(B, a), gamma, M)
               for wi, a, M in zip(w, A, masks(B, A, kw)))


@sub(cases(max_n=4, max_sz=6), quick=150, shards=4)
def soft(c, t):
    X, A, w, init = setup(c)
    if init is not None:
        init = init[:6]
    kw = c["kw"]
    gamma = [0.01, 0.1, 1.0, 10.0][c["seed"] % 4]
    ww = np.ones(len(A)) if w is None else w
    k = dict(gamma=gamma, weights=w, init=init, **kw)
    f = softdtw_barycenter
    if init is None:
        R = X if not np.isnan(X).any() else \
            TimeSeriesResampler().fit_transform(X)
        B = sum(wi * a for wi, a in zip(ww, R)) / ww.sum()
    else:
        B = init
    if masks(B, A, kw) is None:
        return
    t.close(f(X, max_iter=0, **k), B, "initial barycenter", rtol=1e-9,
            atol=1e-9)
    start = objective(B, A, ww, gamma, kw)
    scale = 1 + abs(start)
    short = f(X, max_iter=2, **k)
    t.ok(short.shape == B.shape, "shape")
    v2 = objective(short, A, ww, gamma, kw)
    t.ok(v2 <= start + 1e-7 * scale, "objective increased", before=start,
         after=v2)
    long = f(X, max_iter=300, tol=1e-10, n_jobs=c["jobs"], **k)
    v3 = objective(long, A, ww, gamma, kw)
    t.ok(v3 <= v2 + 1e-6 * scale, "objective increased with iterations",
         before=v2, after=v3)
    # Stationary: no single step along a numerical gradient gains much.
    G = np.zeros(long.size)
    for i in range(long.size):
        e = np.zeros(long.size)
        e[i] = 1e-5
        e = e.reshape(long.shape)
        G[i] = (objective(long + e, A, ww, gamma, kw)
                - objective(long - e, A, ww, gamma, kw)) / 2e-5
    gain = 0.0
    for s in (1e-2, 1e-1):
        D = -s * G.reshape(long.shape) / ww.sum()
        gain = max(gain, v3 - objective(long + D, A, ww, gamma, kw))
    t.ok(gain <= 1e-3 * scale, "not a stationary point", gain=gain,
         value=v3, start=start, grad=np.abs(G).max())
    t.nt(v3 < start - 1e-9 * scale)


@sub(st.fixed_dictionaries({
    "seed": st.integers(0, 9999), "n": st.integers(2, 5),
    "sz": st.integers(6, 14), "d": st.integers(1, 2),
    "kw": gen.constraint(), "init": st.booleans(),
    "f": st.sampled_from(["mm", "petitjean", "soft"]),
    "w": st.booleans()}), quick=200, shards=2, thorough=5000)
def jobs(c, t):
    """Work spread over threads gives what one thread gives."""
    rng = np.random.RandomState(c["seed"])
    X = np.cumsum(rng.standard_normal((c["n"], c["sz"], c["d"])), axis=1)
    kw = c["kw"]
    if masks(X[0], list(X), kw) is None:
        return
    w = rng.uniform(.1, 3, c["n"]) if c["w"] else None
    init = X[0] + .1 if c["init"] else None
    if c["f"] == "soft":
        def f(jobs):
            return softdtw_barycenter(X, max_iter=3, weights=w, init=init,
                                      n_jobs=jobs, **kw)
    else:
        g = {"mm": dtw_barycenter_averaging,
             "petitjean": dtw_barycenter_averaging_petitjean}[c["f"]]

        def f(jobs):
            return g(X, max_iter=3, weights=w, init_barycenter=init,
                     metric_params=kw or None, n_jobs=jobs)
    one = f(None)
    for n in (1, 2, -1):
        t.close(f(n), one, "%s with n_jobs=%d" % (c["f"], n), rtol=1e-7,
                atol=1e-8)
    t.label(c["f"])
    t.nt(kw != {} or w is not None)


@sub(st.tuples(cases(), gen.UNITS), quick=120, shards=2)
def units(c, t):
    """Barycenters are in the unit of the series."""
    c, k = c
    s = 2.0 ** k
    X, A, w, init = setup(c)
    if init is not None and masks(init, A, c["kw"]) is None or masks(
            X[0] if c["size"] is None else np.zeros((c["size"], 1)), A,
            c["kw"]) is None:
        return
    for f, more in ((dtw_barycenter_averaging, {}),
                    (dtw_barycenter_averaging_petitjean, {}),
                    (dtw_barycenter_averaging_subgradient,
                     {"random_state": c["seed"]})):
        kw = dict(more, weights=w, max_iter=c["iters"], tol=0.0,
                  metric_params=c["kw"])
        size = None if init is not None else c["size"]
        want = s * f(X, barycenter_size=size, init_barycenter=init, **kw)
        got = f(s * X, barycenter_size=size,
                init_barycenter=None if init is None else s * init, **kw)
        t.close(got, want, f.__name__ + " in another unit",
                **gen.unit_tol(want))
    want = s * euclidean_barycenter(X, w) if not np.isnan(X).any() else None
    if want is not None:
        t.close(euclidean_barycenter(s * X, w), want, "mean in another unit",
                **gen.unit_tol(want))
    t.nt(len(A) > 1)
