"""When a clustering stops: at the first iteration whose inertia differs from
that of the one before by less than the tolerance."""
import numpy as np


def check(t, make, X, limit, part, seed, before=None):
    """make(max_iter=, tol=, random_state=) builds the model, with one
    initialisation.  A fit of j iterations knows the inertia of the j-th one,
    or that of the next one when `before` gives that of the first.

    Returns the model with the tolerance, the number of iterations it should
    have made, whether it should have stopped there, and the models of 1, 2...
    iterations; None where a cluster became empty or the tolerance is met
    only just."""
    def fit(n, tol):
        rng = np.random.RandomState(seed)
        m = make(max_iter=n, tol=tol, random_state=rng).fit(X)
        return m, rng.randint(1 << 30)

    last, draw = fit(limit, 0.0)
    if last._X_fit is None:
        t.label("empty cluster")
        return None
    runs, inertia = {}, [] if before is None else [before]
    for j in range(1, last.n_iter_ + 1):
        m, d = fit(j, 0.0)
        if d != draw or m._X_fit is None:
            t.label("empty cluster")
            return None
        t.equal(m.n_iter_, j, "n_iter_ without tolerance")
        runs[j] = m
        inertia.append(m.inertia_)
    tol = part * abs(inertia[0]) + 1e-12
    want, stopped = limit, False
    for j in range(2, len(runs) + 1):
        drop = abs(inertia[j - 2] - inertia[j - 1])
        if drop and abs(drop - tol) < 1e-9 * (1 + tol):
            return None
        if drop < tol:
            want, stopped = j, True
            break
    m, d = fit(limit, tol)
    if d != draw or m._X_fit is None:
        return None
    t.equal(m.n_iter_, want, "n_iter_", tol=tol, inertia=inertia)
    t.label("stopped early", want < limit)
    return m, want, stopped, runs


def best(t, make, X, seed, same):
    """Three initialisations give what the best of the three runs gives, which
    draw from the same stream one after the other."""
    many = make(n_init=3, random_state=np.random.RandomState(seed)).fit(X)
    rng = np.random.RandomState(seed)
    runs = [make(n_init=1, random_state=rng).fit(X) for _ in range(3)]
    if many._X_fit is None or any(r._X_fit is None for r in runs):
        return False
    low = min(r.inertia_ for r in runs)
    if abs(low - many.inertia_) > 1e-9 * (1 + abs(low)):
        t.label("other runs")  # an empty cluster was drawn again
        return False
    ok = [r for r in runs if r.inertia_ <= low + 1e-7 * (1 + abs(low))]
    t.ok(many.n_iter_ in {r.n_iter_ for r in ok},
         "n_iter_ is not that of the best run", n=many.n_iter_,
         runs=[(r.inertia_, r.n_iter_) for r in runs])
    t.ok(any(same(many, r) for r in ok),
         "the clusters are not those of the best run")
    t.label("last is best", runs[-1] in ok)
    return len(ok) < 3


def chain(t, make, X, limit):
    """Fits of one iteration, each from the centers of the one before; None
    where a cluster became empty."""
    out, init = [], {}
    for _ in range(limit):
        m = make(max_iter=1, tol=0.0, **init).fit(X)
        if m._X_fit is None:
            t.label("empty cluster")
            return None
        out.append(m)
        init = {"init": m.cluster_centers_.copy()}
    return out
