"""C20: feature synchronisation aligns every feature on the reference."""
import numpy as np
from hypothesis import strategies as st

from tslearn.preprocessing import TimeSeriesFeatureSynchronizer

from .. import gen
from ..core import sub

PROPERTY = "C20"
RULE = ("Datasets of 1-4 series with 1-3 features, each feature of its own "
        "length 1-7, any reference feature, without or with (increasing "
        "datetime64) timestamps. Non-trivial: some feature is shorter or "
        "longer than the reference in the same series.")


@st.composite
def cases(draw):
    d = draw(st.integers(1, 3))
    n = draw(st.integers(1, 4))
    feats, stamps = [], []
    for _ in range(n):
        fs, ss = [], []
        for _ in range(d):
            m = draw(st.integers(1, 7))
            fs.append(draw(gen.series(m, m, 1, "float"))[:, 0])
            steps = draw(st.lists(st.integers(1, 4), min_size=m, max_size=m))
            ss.append(draw(st.integers(-3, 20000)) + np.cumsum(steps))
        feats.append(fs)
        stamps.append(ss)
    return {"f": feats, "s": stamps, "ref": draw(st.integers(0, d - 1)),
            "ts": draw(st.booleans()), "extra": draw(st.integers(0, 1)),
            "unit": draw(st.sampled_from(["D", "h", "s", "ns"]))}


def table(feats, sz, fill=np.nan):
    n, d = len(feats), len(feats[0])
    X = np.full((n, sz, d), fill)
    for i, fs in enumerate(feats):
        for k, f in enumerate(fs):
            X[i, :len(f), k] = f
    return X


def lin(u, xs, ys):
    if u <= xs[0]:
        return ys[0]
    if u >= xs[-1]:
        return ys[-1]
    j = int(np.searchsorted(xs, u, side="right")) - 1
    w = (u - xs[j]) / (xs[j + 1] - xs[j])
    return (1 - w) * ys[j] + w * ys[j + 1]


@sub(cases(), quick=1200, shards=2)
def synchronize(c, t):
    F, S, r = c["f"], c["s"], c["ref"]
    sz = max(len(f) for fs in F for f in fs)
    X = table(F, sz + (0 if c["ts"] else c["extra"]))
    T = table([[np.array(u, "int64").astype("datetime64[%s]" % c["unit"])
                for u in ss] for ss in S], sz,
              np.datetime64("nat", c["unit"]))
    est = TimeSeriesFeatureSynchronizer(reference_feature_index=r)
    kw = {"timestamps": T.copy()} if c["ts"] else {}
    got = est.fit_transform(X.copy(), **kw)
    t.ok(est.n_features_in_ == X.shape[2], "n_features_in_")
    ref_n = [len(fs[r]) for fs in F]
    want = np.full((len(F), max(ref_n), X.shape[2]), np.nan)
    for i, fs in enumerate(F):
        n = ref_n[i]
        at = S[i][r] if c["ts"] else np.linspace(0, 1, n)
        for k, f in enumerate(fs):
            on = S[i][k] if c["ts"] else np.linspace(0, 1, len(f))
            want[i, :n, k] = [lin(u, on, f) for u in at]
    t.close(got, want, "synchronised", rtol=1e-9, atol=1e-9)
    for i, fs in enumerate(F):
        t.equal(got[i, :ref_n[i], r], fs[r], "reference feature changed")
    if not c["ts"]:
        t.close(est.transform(got), got, "idempotent", rtol=1e-9, atol=1e-9)
    else:
        bad = T.copy()
        if len(F[0][0]) > 1:
            bad[0, 1, 0] = bad[0, 0, 0] - np.timedelta64(1, c["unit"])
            t.raises(ValueError, lambda: est.transform(X, timestamps=bad),
                     "decreasing timestamps")
        t.raises(ValueError, lambda: est.transform(
            X, timestamps=np.concatenate([T, T], axis=2)), "shape mismatch")
    t.nt(any(len(f) != ref_n[i] for i, fs in enumerate(F) for f in fs))
