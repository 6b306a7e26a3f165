"""C18: resampling is linear interpolation onto the requested length."""
import numpy as np
from hypothesis import strategies as st

from tslearn.preprocessing import TimeSeriesResampler

from .. import gen
from ..core import sub

PROPERTY = "C18"
RULE = ("Ragged datasets of 1-5 series (1-9 timestamps, 1-3 features), as list "
        "or padded array, target length 1-20 or the default. Non-trivial: a "
        "target length that differs from that of some series of length >= 2.")


def interp(x, sz):
    """Linear interpolation of x at sz points equally spaced over its span."""
    n = len(x)
    out = np.empty((sz, x.shape[1]))
    for k in range(sz):
        u = k * (n - 1) / (sz - 1)
        i = min(int(np.floor(u + 1e-12)), n - 1)
        f = u - i
        out[k] = x[i] if i == n - 1 else (1 - f) * x[i] + f * x[i + 1]
    return out


@sub(st.fixed_dictionaries({
    "A": gen.dataset(1, 5, 1, 9, large=60), "B": st.integers(0, 10 ** 6),
    "sz": st.sampled_from([-1, 1, 2, 3, 4, 5, 7, 9, 10, 20]),
    "form": st.sampled_from(["list", "pad", "more"])}), quick=1200, shards=2)
def resample(c, t):
    A, sz = c["A"], c["sz"]
    d = A[0].shape[1]

    def offer(A):
        return [a.copy() for a in A] if c["form"] == "list" else gen.pad(
            A, max(map(len, A)) + (2 if c["form"] == "more" else 0))
    rng = np.random.RandomState(c["B"])
    B = [rng.randn(n, d) for n in rng.randint(1, 8, 3)]
    est = TimeSeriesResampler(sz=sz).fit(offer(A))
    for D in (A, B):
        got = est.transform(offer(D))
        n = max(map(len, D)) if sz == -1 else sz
        t.ok(got.shape == (len(D), n, d), "shape", got=got.shape)
        for a, g in zip(D, got):
            if n == 1:
                want = a.mean(axis=0, keepdims=True)
            elif len(a) == 1:
                want = np.repeat(a, n, axis=0)
            else:
                want = interp(a, n)
            t.close(g, want, "resampled", rtol=1e-9, atol=1e-9 * (
                1 + np.abs(a).max()))
            if n > 1:
                t.close(g[[0, -1]], a[[0, -1]], "end points kept")
            if n == len(a):
                t.close(g, a, "same length is the identity", rtol=1e-12,
                        atol=1e-12)
    t.close(TimeSeriesResampler(sz=sz).fit_transform(offer(A)),
            est.transform(offer(A)), "fit_transform")
    t.raises(ValueError, lambda: est.transform(np.zeros((2, 3, d + 1))),
             "other number of features")
    t.nt(any(len(a) > 1 and len(a) != sz for a in A))
