"""C32: VARIMA forecasts continue what the model says; order selection."""
import contextlib
import io
import warnings
from math import comb

import numpy as np
from hypothesis import strategies as st
from sklearn.exceptions import NotFittedError

from ..core import sub

PROPERTY = "C32"
RULE = ("the model has a lag, a difference or a season, and more than one "
        "timestamp is forecast")
WARM = ["compiled"]


def _models():
    warnings.filterwarnings("ignore")
    from tslearn.forecasting import VARIMA, AutoVARIMA
    return VARIMA, AutoVARIMA


@st.composite
def orders(draw, max_q=2):
    return {"p": draw(st.integers(0, 3)), "d": draw(st.integers(0, 3)),
            "q": draw(st.integers(0, max_q)) if max_q < 2
            else draw(st.sampled_from([0, 0, 1, 1, 2, 2, 3, 4])),
            "with_constant": draw(st.booleans()),
            "seasonal_period": draw(st.sampled_from([None, None, 0, 1, 2, 3,
                                                     5]))}


def need(o):
    return o["p"] + o["q"] + o["d"] + 1 + (o["seasonal_period"] or 0)


@st.composite
def fit_case(draw, max_q=2):
    o = draw(orders(max_q))
    n = draw(st.integers(1, 4))
    extra = [draw(st.integers(0, 14)) for _ in range(n)]
    return {"o": o, "f": draw(st.sampled_from([1, 1, 2, 3])), "extra": extra,
            "ragged": draw(st.booleans()), "seed": draw(st.integers(0, 10**6)),
            "kind": draw(st.sampled_from(["normal", "walk", "walk", "ints"])),
            "n": draw(st.integers(1, 5)), "it": draw(st.sampled_from(
                [1, 2, 5, 20]))}


def series(c):
    rng = np.random.RandomState(c["seed"])
    e = c["extra"] if c["ragged"] else [c["extra"][0]] * len(c["extra"])
    out = []
    for k in e:
        x = rng.standard_normal((need(c["o"]) + k, c["f"]))
        if c["kind"] != "normal":
            x = np.cumsum(x, axis=0)
        out.append(np.round(2 * x) if c["kind"] == "ints" else x)
    return out


def stack(S):
    X = np.full((len(S), max(map(len, S)), S[0].shape[1]), np.nan)
    for i, s in enumerate(S):
        X[i, :len(s)] = s
    return X


def seasonal(x, m):
    return x[m:] - x[:-m] if m else x


def step(hist, res, A, M, b):
    """One forecast from the past values and errors of a VARMA process."""
    v = np.zeros(hist.shape[1]) if len(b) == 0 else np.array(b, dtype=float)
    for k in range(len(A)):
        v = v + hist[len(hist) - 1 - k] @ A[k]
    for k in range(len(M)):  # the last matrix goes with the last error
        v = v + res[len(res) - len(M) + k] @ M[k]
    return v


def errors(z, A, M, b):
    p, q = len(A), len(M)
    start = max(p, q)
    res = [np.zeros(z.shape[1]) for _ in range(start)]
    for t in range(start, len(z)):
        res.append(z[t] - step(z[:t], res, A, M, b))
    return res


def forecast(x, o, A, M, b, n):
    """Reference: recursion on the differenced series, then integration."""
    m, d = o["seasonal_period"] or 0, o["d"]
    w = seasonal(x, m)
    z = np.diff(w, n=d, axis=0)
    res = errors(z, A, M, b)
    x, w = list(x), list(w)
    out = []
    for _ in range(n):
        nz = step(z, res, A, M, b)
        z = np.vstack([z, nz])
        res.append(np.zeros(len(nz)))
        nw = nz - sum((-1) ** k * comb(d, k) * w[len(w) - k]
                      for k in range(1, d + 1))
        w.append(nw)
        nx = nw + x[len(x) - m] if m else nw
        x.append(nx)
        out.append(nx)
    return np.array(out)


def magnitude(o, A, M, b, S, n):
    """Size of the terms that forecasts are sums of, to scale rounding."""
    best = 1.0
    absA, absM = [np.abs(a) for a in A], [np.abs(a) for a in M]
    for x in S:
        w = seasonal(x, o["seasonal_period"] or 0)
        z = np.abs(np.diff(w, n=o["d"], axis=0))
        r = np.abs(errors(np.diff(w, n=o["d"], axis=0), A, M, b))
        v = z.max()
        gain = 1 + sum(a.sum() for a in absA)
        tot = v
        for _ in range(n):
            v = v * gain + np.abs(b).sum() + (
                r.max() * sum(a.sum() for a in absM) if len(M) and len(r)
                else 0)
            tot += v
        best = max(best, tot * (1 + n) ** (o["d"] + 1)
                   + np.abs(x).max() * (2 + n) ** o["d"])
    return best


@sub(st.just(0), quick=1, thorough=1)
def compiled(c, t):
    VARIMA, _ = _models()
    X = np.random.RandomState(0).standard_normal((2, 12, 2))
    for o in ((1, 0, 1), (1, 1, 0), (0, 0, 1)):
        for const in (True, False):
            m = VARIMA(*o, with_constant=const, max_iter=1).fit(X)
            t.ok(m.predict(n=2).shape == (2, 2, 2), "shape")
    t.nt()


@sub(fit_case(), quick=500, thorough=8000, shards=4)
def model(c, t):
    """Forecasts are those of the fitted coefficients, however asked for."""
    VARIMA, _ = _models()
    o, n = c["o"], c["n"]
    S = series(c)
    X = stack(S)
    keep = X.copy()
    est = VARIMA(max_iter=c["it"], **o)
    t.ok(est.fit(X) is est, "fit returns the estimator")
    t.equal(X, keep, "fit modified its data")
    A, M, b = est.ar_coeffs_, est.ma_coeffs_, est.intercept_
    f = c["f"]
    t.ok(A.shape == (o["p"], f, f) and M.shape == (o["q"], f, f)
         and b.shape == ((f,) if o["with_constant"] else (0,)), "shapes",
         ar=A.shape, ma=M.shape, intercept=b.shape)
    tol = 1e-11 * magnitude(o, A, M, b, S, n)
    if not tol < 1e-2:  # explosive coefficients
        return
    got = est.predict(n=n)
    want = np.array([forecast(s, o, A, M, b, n) for s in S])
    t.close(got, want, "forecast", rtol=1e-9, atol=tol)
    t.close(est.predict(n=n), got, "asked again", rtol=0, atol=0)
    t.close(est.predict(X, n=n), got, "of the fitted data", rtol=1e-9,
            atol=tol)
    t.equal(X, keep, "predict modified its data")
    k = 1 + c["seed"] % n
    t.close(est.predict(n=k), got[:, :k], "shorter horizon", rtol=1e-9,
            atol=tol)
    t.close(est.fit_predict(X, n=n), got, "fit_predict", rtol=1e-9, atol=tol)
    est2 = VARIMA(max_iter=c["it"], **o).fit(X)
    # other data, each series on its own or next to longer ones
    Q = series(dict(c, seed=c["seed"] + 1, ragged=True, kind="walk"))
    tol = 1e-11 * magnitude(o, A, M, b, Q, n)
    if not tol < 1e-2:
        return
    want = np.array([forecast(s, o, A, M, b, n) for s in Q])
    t.close(est.predict(stack(Q), n=n), want, "other data", rtol=1e-9,
            atol=tol)
    t.close(est.predict(Q[-1][None], n=n), want[-1:], "one series",
            rtol=1e-9, atol=tol)
    t.close(est.predict(n=n), est2.predict(n=n), "fitted data after others",
            rtol=1e-9, atol=1e-9)
    t.label("ragged", c["ragged"])
    t.label("moving average", o["q"])
    t.nt(n > 1 and o["p"] + o["d"] + (o["seasonal_period"] or 0) > 0)


@sub(fit_case(max_q=0), quick=400, thorough=6000, shards=2)
def coefficients(c, t):
    """Without moving average: least squares per series, then averaged."""
    VARIMA, _ = _models()
    o, f, p = c["o"], c["f"], c["o"]["p"]
    c = dict(c, extra=[k + p * f + 2 for k in c["extra"]])
    S = series(c)
    est = VARIMA(**o).fit(stack(S))
    As, bs = [], []
    for s in S:
        z = np.diff(seasonal(s, o["seasonal_period"] or 0), n=o["d"], axis=0)
        rows = [np.concatenate([[1.0] * o["with_constant"]]
                               + [z[i - k] for k in range(1, p + 1)])
                for i in range(p, len(z))]
        Z = np.array(rows)
        if Z.shape[1] and np.linalg.cond(Z) > 1e4:
            return
        B = np.linalg.pinv(Z) @ z[p:] if Z.shape[1] else np.zeros((0, f))
        bs.append(B[:1].ravel() if o["with_constant"] else np.zeros(0))
        As.append(B[int(o["with_constant"]):].reshape(p, f, f))
    t.close(est.intercept_, np.mean(bs, axis=0), "intercept", rtol=1e-6,
            atol=1e-7)
    t.close(est.ar_coeffs_, np.mean(As, axis=0), "coefficients", rtol=1e-6,
            atol=1e-7)
    t.nt(p > 0)


@st.composite
def exact_case(draw):
    o = draw(orders(0))
    o["p"] = draw(st.integers(0, 2))
    return {"o": o, "f": draw(st.sampled_from([1, 2, 3])),
            "k": draw(st.integers(1, 3)), "n": draw(st.integers(1, 5)),
            "seed": draw(st.integers(0, 10 ** 6)),
            "cut": draw(st.integers(0, 3))}


@sub(exact_case(), quick=300, thorough=5000, shards=2)
def continuation(c, t):
    """A series that follows such a model without noise is continued."""
    VARIMA, _ = _models()
    o, f, n, p, d = c["o"], c["f"], c["n"], c["o"]["p"], c["o"]["d"]
    m = o["seasonal_period"] or 0
    rng = np.random.RandomState(c["seed"])
    A = [np.linalg.qr(rng.standard_normal((f, f)))[0] * (.9 if p == 1 else .55)
         for _ in range(p)]
    b = rng.standard_normal(f) if o["with_constant"] else np.zeros(0)
    sz = p * (f + 1) + d + m + 6
    S = []
    for i in range(c["k"]):
        x = 3 * rng.standard_normal((p + d + m, f))
        L = sz - (c["cut"] if i else 0)
        if len(x) < L + n:
            more = forecast(x, o, A, [], b, L + n - len(x)) \
                if len(x) else np.zeros((0, f))
            if not len(x):
                more = np.tile(b if len(b) else np.zeros(f), (L + n, 1))
            x = np.vstack([x, more])
        S.append(x)
        z = np.diff(seasonal(x[:L], m), n=d, axis=0)
        Z = np.array([np.concatenate([[1.0] * o["with_constant"]]
                                     + [z[j - k] for k in range(1, p + 1)])
                      for j in range(p, len(z))])
        if Z.shape[1] and np.linalg.cond(Z) > 1e5:
            return
    lens = [len(x) - n for x in S]
    got = VARIMA(**o).fit(stack([x[:L] for x, L in zip(S, lens)])).predict(n=n)
    want = np.array([x[L:] for x, L in zip(S, lens)])
    size = max(np.abs(x).max() for x in S)
    t.close(got, want, "continuation", rtol=1e-6, atol=1e-7 * size)
    t.nt(n > 1 and p + d + m > 0)


@sub(fit_case(), quick=120, thorough=2000)
def likelihood(c, t):
    """The moving-average search improves what it reports."""
    VARIMA, _ = _models()
    o = dict(c["o"], q=max(1, c["o"]["q"]))
    c = dict(c, o=o, f=1, extra=[k + 6 for k in c["extra"]])
    S = series(c)
    X = stack(S)
    start = max(o["p"], o["q"])
    seen = []
    for it in (1, 10, 40):
        est = VARIMA(max_iter=it, **o).fit(X)
        z = [np.diff(seasonal(s, o["seasonal_period"] or 0), n=o["d"], axis=0)
             for s in S]
        r = np.concatenate([errors(v, est.ar_coeffs_, est.ma_coeffs_,
                                   est.intercept_)[start:] for v in z])
        N = sum(map(len, z))
        var = (r ** 2).sum() / (N - len(S) * start)
        t.close(est.lle_, -N * (np.log(2 * np.pi) + np.log(var) + 1) / 2,
                "log-likelihood", rtol=1e-7, atol=1e-7)
        seen.append(est.lle_)
    t.ok(seen[0] <= seen[1] + 1e-8 and seen[1] <= seen[2] + 1e-8,
         "a longer search found a worse model", lle=seen)
    t.nt()


@sub(fit_case(), quick=100, thorough=1000)
def refusals(c, t):
    VARIMA, _ = _models()
    o = c["o"]
    S = series(dict(c, extra=[4 + k for k in c["extra"]], ragged=False))
    X = stack(S)
    t.raises(NotFittedError, lambda: VARIMA(**o).predict(X), "not fitted")
    if need(o) > 1:
        short = X[:, :need(o) - 1]
        t.raises(ValueError, lambda: VARIMA(**o).fit(short), "too short")
        one = X.copy()
        one[-1, need(o) - 1:] = np.nan
        t.raises(ValueError, lambda: VARIMA(**o).fit(one), "one too short")
    est = VARIMA(max_iter=1, **o).fit(X)
    before = est.predict(n=2)
    if need(o) > 1:
        t.raises(ValueError, lambda: est.predict(short), "too short to predict")
        t.raises(ValueError, lambda: est.predict(one), "one too short")
    t.raises(ValueError, lambda: est.predict(np.concatenate([X, X], axis=2)),
             "other features")
    t.close(est.predict(n=2), before, "after refusals", rtol=0, atol=0)
    t.nt()


@st.composite
def auto_case(draw):
    return {"max_p": draw(st.integers(0, 3)), "max_q": draw(
        st.integers(0, 2)), "max_d": draw(st.integers(0, 2)),
        "default": draw(st.sampled_from([None, 0, 0, 1])),
        "m": draw(st.sampled_from([None, None, 2, 4])),
        "k": draw(st.integers(1, 3)), "f": draw(st.sampled_from([1, 1, 2])),
        "sz": draw(st.integers(24, 60)), "cut": draw(st.integers(0, 8)),
        "phi": draw(st.sampled_from([0.0, 0.6, -0.7, 1.0])),
        "theta": draw(st.sampled_from([0.0, 0.0, 0.8])),
        "seed": draw(st.integers(0, 10 ** 6)), "n": draw(st.integers(1, 4))}


@sub(auto_case(), quick=64, thorough=800, shards=4)
def selection(c, t):
    """AutoVARIMA: limits, local optimum of the criterion, same forecasts."""
    from statsmodels.tsa.stattools import kpss
    VARIMA, AutoVARIMA = _models()
    rng = np.random.RandomState(c["seed"])
    S = []
    for i in range(c["k"]):
        e = rng.standard_normal((c["sz"] + 1, c["f"]))
        e = e[1:] + c["theta"] * e[:-1]
        x = np.zeros_like(e)
        for j in range(len(e)):
            x[j] = e[j] + (c["phi"] * x[j - 1] if j else 0)
        if c["m"]:
            x += 3 * np.cos(2 * np.pi * np.arange(len(x)) / c["m"])[:, None]
        S.append(x[:len(x) - (c["cut"] if i else 0)])
    X = stack(S)
    keep = X.copy()
    m = c["m"] or 0
    d = 0
    while d <= c["max_d"]:
        z = [np.diff(seasonal(s, m), n=d, axis=0) for s in S]
        if all(kpss(v[:, k], regression="c")[1] > 0.05 for v in z
               for k in range(c["f"])):
            break
        d += 1
    auto = AutoVARIMA(max_p=c["max_p"], max_d=c["max_d"], max_q=c["max_q"],
                      default_d_for_non_stationarity=c["default"],
                      seasonal_period=c["m"], max_iter=8)
    if d > c["max_d"]:
        if c["default"] is None:
            t.raises(ValueError, lambda: auto.fit(X), "not made stationary")
            return
        d = c["default"]
    with contextlib.redirect_stdout(io.StringIO()):
        auto.fit(X)
    t.equal(X, keep, "fit modified its data")
    best = auto.best_estimator_
    t.ok(best.p <= c["max_p"] and best.q <= c["max_q"], "orders", p=best.p,
         q=best.q)
    t.ok(best.d == d, "order of differencing", got=best.d, want=d)
    t.ok((best.seasonal_period or 0) == m, "season")
    got = auto.predict(n=c["n"])

    def fit(p, q, const):
        return VARIMA(p, d, q, const, c["m"], max_iter=8).fit(X)

    def aic(e):
        return 2 * (e.p + e.q + (2 if e.with_constant else 1) - e.lle_)
    same = fit(best.p, best.q, best.with_constant)
    t.close(got, same.predict(n=c["n"]), "forecast of the selected model",
            rtol=1e-9, atol=1e-9)
    t.close(auto.predict(X, n=c["n"]), got, "of the fitted data", rtol=1e-9,
            atol=1e-9)
    t.close(auto.fit_predict(X, n=c["n"]), got, "fit_predict", rtol=1e-9,
            atol=1e-9)
    start = [(0, 0, d < 2), (1, 0, d < 2), (0, 1, d < 2)]
    if d <= 1:
        start.append((0, 0, False))
    if min(c["max_p"], c["max_q"]) > 1:
        start.append((2, 2, d < 2))
    near = [(best.p + i, best.q + j, best.with_constant)
            for i in (-1, 0, 1) for j in (-1, 0, 1)]
    near.append((best.p, best.q, not best.with_constant))
    have = aic(same)
    for p, q, const in near + start:
        if 0 <= p <= c["max_p"] and 0 <= q <= c["max_q"]:
            other = aic(fit(p, q, const))
            t.ok(not other < have - 1e-6, "a better model was next to it",
                 best=(best.p, best.q, best.with_constant, have),
                 other=(p, q, const, other))
    t.label("differenced", d)
    t.nt(best.p + best.q > 0 or d > 0)
