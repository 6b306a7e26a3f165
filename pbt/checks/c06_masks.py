"""C06: global constraint regions."""
import numpy as np
from hypothesis import strategies as st

from tslearn.metrics import compute_mask, itakura_mask, sakoe_chiba_mask

from .. import gen, ref
from ..core import sub, _arr

PROPERTY = "C06"
RULE = ("Pairs of lengths 1-30 (equal, close, or very different), a radius "
        "0-12 or a slope in [1, 12] (round or arbitrary), both backends, sizes "
        "or series as arguments. Non-trivial: both lengths >= 3 and the region "
        "is neither full nor refused.")

LEN = st.integers(1, 30)


@st.composite
def lengths(draw):
    a = draw(LEN)
    b = draw(st.one_of(st.just(a), LEN,
                       st.integers(max(1, a - 4), min(30, a + 4))))
    return a, b


@sub(st.fixed_dictionaries({"l": lengths(), "r": st.integers(0, 12),
                            "be": gen.BACKENDS}), quick=600)
def sakoe(c, t):
    (n, m), r, be = c["l"], c["r"], c["be"]
    M = _arr(sakoe_chiba_mask(n, m, radius=r, be=be))
    t.equal(M, ref.sakoe_mask(n, m, r), "Sakoe-Chiba band")
    t.ok(M[0, 0] and M[-1, -1], "corners excluded")
    t.equal(M, _arr(sakoe_chiba_mask(m, n, radius=r, be=be)).T, "transpose")
    wider = _arr(sakoe_chiba_mask(n, m, radius=r + 1, be=be))
    t.ok(np.all(wider | ~M), "a wider radius removes cells")
    t.ok(feasible(M), "no admissible path in the band")
    t.ok(sakoe_chiba_mask(n, m, radius=n + m, be=be).all(), "wide band")
    t.nt(n >= 3 and m >= 3 and not M.all())


def feasible(M):
    n, m = M.shape
    C = np.zeros((n, m))
    return np.isfinite(ref.dtw_table(C, M)[-1, -1])


@sub(st.fixed_dictionaries({
    "l": lengths(), "be": gen.BACKENDS,
    "s": st.one_of(gen.SLOPES, st.floats(1, 12),
                   st.integers(100, 900).map(lambda v: v / 100.))}),
    quick=900, shards=2)
def itakura(c, t):
    (n, m), s, be = c["l"], c["s"], c["be"]
    try:
        M = _arr(itakura_mask(n, m, max_slope=s, be=be))
    except RuntimeWarning:
        M = None
    # The parallelogram, with a margin for the 2-decimal rounding of its edges
    i, j = np.mgrid[0:n, 0:m].astype(float)
    hi, lo = s * n / m, n / (s * m)
    low = np.maximum(lo * j, (n - 1) - hi * (m - 1) + hi * j)
    up = np.minimum(hi * j, (n - 1) - lo * (m - 1) + lo * j)
    eps = 0.0101
    # cells on an edge (the corners at least) belong to the region
    surely_in = (((i >= low + eps) | (abs(i - low) < 1e-9)) &
                 ((i <= up - eps) | (abs(i - up) < 1e-9)))
    surely_out = (i < low - eps) | (i > up + eps)
    if M is None:
        poss = ~surely_out
        # refused: some row or column must (up to rounding) be empty
        t.ok(not (surely_in.any(0).all() and surely_in.any(1).all()),
             "refused although every row and column has admissible cells")
        t.label("refused")
        t.label("refused_clear", not (poss.any(0).all() and poss.any(1).all()))
        return
    t.ok(np.all(M | ~surely_in), "cell inside the parallelogram excluded")
    t.ok(np.all(~M | ~surely_out), "cell outside the parallelogram allowed")
    t.ok(M[0, 0] and M[-1, -1], "corners excluded", M=M)
    t.ok(feasible(M), "accepted region without an admissible path", M=M)
    if n == m:
        t.ok(np.all(M == M[::-1, ::-1]) or np.any(~(surely_in | surely_out)),
             "parallelogram is not centrally symmetric", M=M)
    t.nt(n >= 3 and m >= 3 and not M.all())


@sub(st.fixed_dictionaries({
    "l": lengths(), "be": gen.BACKENDS, "gc": st.sampled_from([0, 1, 2]),
    "r": st.one_of(st.none(), st.integers(0, 12)),
    "s": st.one_of(st.none(), gen.SLOPES),
    "form": st.sampled_from(["int", "series", "mixed"])}), quick=600)
def dispatch(c, t):
    (n, m), be, gc, r, s = c["l"], c["be"], c["gc"], c["r"], c["s"]
    if c["form"] == "int":
        a, b = n, m
    else:
        a, b = np.zeros((n, 2)), np.zeros((m, 2))
        if c["form"] == "mixed":
            a, b = np.zeros(n), np.zeros((m, 1))

    def call():
        return compute_mask(a, b, gc, sakoe_chiba_radius=r,
                            itakura_max_slope=s, be=be)
    if gc == 0 and r is not None and s is not None:
        t.raises(RuntimeWarning, call, "ambiguous constraint")
        return
    if gc == 2 or (gc == 0 and r is not None):
        want = ref.sakoe_mask(n, m, 1 if r is None else r)
        t.label("sakoe")
    elif gc == 1 or (gc == 0 and s is not None):
        want = ref.itakura(n, m, 2.0 if s is None else s)
        t.label("itakura")
        if want is None:
            t.raises(RuntimeWarning, call, "unfeasible Itakura")
            return
    else:
        want = np.ones((n, m), dtype=bool)
        t.label("none")
    t.equal(call(), want, "mask")
    t.nt(n >= 3 and m >= 3 and not want.all())
