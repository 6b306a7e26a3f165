"""C21: PAA, SAX and 1d-SAX words, distances and reconstructions."""
import numpy as np
from hypothesis import strategies as st
from scipy.special import ndtri

from tslearn.piecewise import (OneD_SymbolicAggregateApproximation,
                               PiecewiseAggregateApproximation,
                               SymbolicAggregateApproximation)

from .. import gen
from ..core import sub

PROPERTY = "C21"
RULE = ("Datasets of 2-4 series (1-14 timestamps, 1-3 features), 1 to "
        "shortest-length segments, alphabets of 2-9 symbols, slope scales, "
        "with or without scaling, applied to the fitted and to another "
        "dataset. Non-trivial: two series with different representations and "
        "a segment of more than one timestamp.")


@st.composite
def cases(draw, variable=False):
    d = draw(st.integers(1, 3))
    kind = draw(gen.KIND_S)
    var = variable and draw(st.booleans())
    A = draw(gen.dataset(2, 4, 1, 14, d, kind, var, large=50))
    sz = max(map(len, A))
    B = draw(gen.dataset(1, 3, len(A[0]) if not var else 1, len(A[0]) if
                         not var else 14, d, kind, var))
    if draw(st.integers(0, 5)) == 0:
        v = draw(gen.FLOATS)
        for a in A:
            a[:, 0] = v
    m = draw(st.integers(1, min(len(a) for a in A + B)))
    return {"A": A, "B": B, "m": m, "sz": sz, "k": draw(st.integers(2, 9)),
            "ks": draw(st.integers(2, 9)), "scale": draw(st.booleans()),
            "sl": draw(st.sampled_from([None, 1.0, 0.3, 0.05]))}


def ref_paa(A, m):
    out = []
    for a in A:
        L = len(a) // m
        out.append([a[i * L:(i + 1) * L].mean(axis=0) for i in range(m)])
    return np.array(out)


def quantiles(k, scale=1.0):
    return ndtri(np.arange(1, k) / k) * scale


def medians(k, scale=1.0):
    return ndtri(np.arange(1, 2 * k, 2) / (2 * k)) * scale


def check_symbols(t, sym, val, bps, name):
    """The bin of each value, leaving values on a border to either side."""
    t.ok(sym.shape == val.shape, name + " shape")
    t.ok(((sym >= 0) & (sym <= len(bps))).all(), name + " outside alphabet")
    lo = np.concatenate([[-np.inf], bps])[sym]
    hi = np.concatenate([bps, [np.inf]])[sym]
    t.ok(((val >= lo - 1e-9) & (val <= hi + 1e-9)).all(), name + " bin",
         val=val, sym=sym, bps=bps)


def unscale(c, A):
    """(mean, std) of the fitted data per feature, if scaling is on."""
    d = A[0].shape[1]
    if not c["scale"]:
        return np.zeros(d), np.ones(d)
    F = np.concatenate(A)
    mu = F.mean(axis=0)
    sd = np.sqrt(((F - mu) ** 2).mean(axis=0))
    const = F.min(axis=0) == F.max(axis=0)
    return mu, np.where(const, 1.0, sd)


def expand(P, sz):
    n, m, d = P.shape
    out = np.zeros((n, sz, d))
    L = sz // m
    for i in range(m):
        out[:, i * L:(i + 1) * L] = P[:, i:i + 1]
    return out


def nontrivial(t, R, c):
    t.nt(np.any(R[0] != R[1]) and c["sz"] > c["m"])


@sub(cases(variable=True), quick=500, shards=2)
def paa(c, t):
    A, B, m = c["A"], c["B"], c["m"]
    sz = c["sz"]
    est = PiecewiseAggregateApproximation(n_segments=m)
    P = est.fit_transform(gen.pad(A))
    t.close(P, ref_paa(A, m), "PAA", rtol=1e-9, atol=1e-9)
    t.close(est.transform(gen.pad(A)), P, "transform", rtol=0, atol=0)
    t.close(est.transform(gen.pad(B)), ref_paa(B, m), "PAA of other data",
            rtol=1e-9, atol=1e-9)
    I = est.inverse_transform(P)
    t.close(I, expand(P, sz), "inverse PAA", rtol=1e-12, atol=1e-12)
    t.close(est.transform(I), P, "PAA of its inverse", rtol=1e-9, atol=1e-9)
    want = np.sqrt(((P[0] - P[1]) ** 2).sum() * sz / m)
    t.close(est.distance_paa(P[0], P[1]), want, "PAA distance", rtol=1e-9)
    a, b = A[0], A[1]
    if len(a) == len(b):
        t.close(est.distance(a, b), want, "PAA distance of series",
                rtol=1e-9)
        if len(a) == sz and sz % m == 0:
            t.ok(want <= np.linalg.norm(a - b) * (1 + 1e-9) + 1e-9,
                 "PAA lower bound")
    nontrivial(t, P, c)


@sub(cases(variable=True), quick=500, shards=2)
def sax(c, t):
    A, B, m, k, sz = c["A"], c["B"], c["m"], c["k"], c["sz"]
    est = SymbolicAggregateApproximation(n_segments=m, alphabet_size_avg=k,
                                         scale=c["scale"])
    S = est.fit_transform(gen.pad(A))
    t.ok(S.dtype.kind == "i", "integer symbols")
    mu, sd = unscale(c, A)
    bps = quantiles(k)
    t.close(est.breakpoints_avg_, bps, "breakpoints", rtol=1e-9)
    for D, got in ((A, S), (B, est.transform(gen.pad(B)))):
        check_symbols(t, got, ref_paa([(a - mu) / sd for a in D], m), bps,
                      "SAX")
    t.equal(est.transform(gen.pad(A)), S, "transform")
    I = est.inverse_transform(S)
    want = expand(medians(k)[S], sz) * sd + mu
    t.close(I, want, "inverse SAX", rtol=1e-9, atol=1e-9)
    if not c["scale"] or (sd > 1e-9).all():
        t.equal(est.transform(I), S, "SAX of its inverse")
    gap = np.zeros(S[0].shape)
    hi, lo = np.maximum(S[0], S[1]), np.minimum(S[0], S[1])
    far = hi - lo > 1
    gap[far] = bps[hi[far] - 1] - bps[lo[far]]
    want = np.sqrt((gap ** 2).sum() * sz / m)
    got = est.distance_sax(S[0], S[1])
    t.close(got, want, "SAX distance", rtol=1e-9)
    t.close(est.distance_sax(S[1], S[0]), want, "symmetry", rtol=1e-9)
    a, b = A[0], A[1]
    if len(a) == len(b):
        t.close(est.distance(a, b), want, "SAX distance of series", rtol=1e-9)
        if len(a) == sz and sz % m == 0:
            t.ok(got <= np.linalg.norm((a - b) / sd) * (1 + 1e-7) + 1e-7,
                 "SAX lower bound")
    nontrivial(t, S, c)


def slopes(A, m):
    out = np.zeros((len(A), m, A[0].shape[1]))
    for i, a in enumerate(A):
        L = len(a) // m
        u = np.arange(L) - (L - 1) / 2
        for s in range(m):
            if L > 1:
                out[i, s] = (u[:, None] * a[s * L:(s + 1) * L]).sum(
                    axis=0) / (u ** 2).sum()
    return out


@sub(cases(), quick=160, shards=4)
def one_d_sax(c, t):
    A, B, m, k, ks, sz = (c[x] for x in ("A", "B", "m", "k", "ks", "sz"))
    X, Z = gen.pad(A), gen.pad(B)
    est = OneD_SymbolicAggregateApproximation(
        n_segments=m, alphabet_size_avg=k, alphabet_size_slope=ks,
        sigma_l=c["sl"], scale=c["scale"])
    S = est.fit_transform(X)
    n, d = len(A), X.shape[2]
    L = sz // m
    mu, sd = unscale(c, A)
    sl = np.sqrt(0.03 / L) if c["sl"] is None else c["sl"]
    t.close(est.breakpoints_slope_, quantiles(ks, sl), "slope breakpoints",
            rtol=1e-9, atol=1e-12)
    for D, got in ((A, S), (B, est.transform(Z))):
        t.ok(got.shape == (len(D), m, 2 * d) and got.dtype.kind == "i",
             "1d-SAX shape")
        D = [(a - mu) / sd for a in D]
        check_symbols(t, got[..., :d], ref_paa(D, m), quantiles(k), "average")
        check_symbols(t, got[..., d:], slopes(D, m), quantiles(ks, sl),
                      "slope")
    t.equal(est.transform(X), S, "transform")
    I = est.inverse_transform(S)
    R = expand(medians(k)[S[..., :d]], sz)
    R[:, :L * m] += expand(medians(ks, sl)[S[..., d:]], sz)[:, :L * m] * (
        np.arange(L * m) % L - (L - 1) / 2)[None, :, None]
    t.close(I, R * sd + mu, "inverse 1d-SAX", rtol=1e-9, atol=1e-9)
    if L > 1 and (sd > 1e-9).all() and (np.abs(mu) < 1e5 * sd).all():
        back = est.transform(I)
        t.equal(back[..., :d], S[..., :d], "average symbols of the inverse")
        # (an odd alphabet has a median at 0, never on a border)
        t.equal(back[..., d:], S[..., d:], "slope symbols of the inverse")
    want = np.linalg.norm(R[0] - R[1])
    t.close(est.distance_1d_sax(S[0], S[1]), want, "1d-SAX distance",
            rtol=1e-9)
    t.close(est.distance(A[0], A[1]), want, "1d-SAX distance of series",
            rtol=1e-9)
    nontrivial(t, S, c)


@sub(cases(), quick=60)
def refusals(c, t):
    X = gen.pad(c["A"])
    W = np.concatenate([X, X], axis=2)
    for cls in (PiecewiseAggregateApproximation,
                SymbolicAggregateApproximation,
                OneD_SymbolicAggregateApproximation):
        est = cls(n_segments=c["m"]).fit(X)
        t.raises(ValueError, lambda: est.transform(W), "number of features")
    t.nt()


@sub(st.tuples(cases(), gen.UNITS), quick=120)
def units(c, t):
    """Words do not depend on the unit of the series once scaled; means do."""
    c, k = c
    s = 2.0 ** k
    A, B = np.array(c["A"]), np.array(c["B"])
    kw = dict(n_segments=c["m"])
    p, q = (PiecewiseAggregateApproximation(**kw) for _ in range(2))
    p.fit(A)
    q.fit(s * A)
    want = s * p.transform(B)
    t.close(q.transform(s * B), want, "means in another unit",
            **gen.unit_tol(want))
    if (np.ptp(A.reshape(-1, A.shape[2]), axis=0) == 0).any():
        return  # a constant feature has no scale
    kw = dict(kw, alphabet_size_avg=c["k"], scale=True)
    for cls, more in ((SymbolicAggregateApproximation, {}),
                      (OneD_SymbolicAggregateApproximation,
                       {"alphabet_size_slope": c["ks"]})):
        p, q = cls(**kw, **more), cls(**kw, **more)
        p.fit(A)
        q.fit(s * A)
        t.equal(q.transform(s * B), p.transform(B),
                cls.__name__ + " words in another unit")
        want = s * p.inverse_transform(p.transform(B))
        t.close(q.inverse_transform(q.transform(s * B)), want,
                cls.__name__ + " reconstruction in another unit",
                **gen.unit_tol(want))
    t.nt(len(np.unique(A)) > 1)
