"""C31: shapelet transform, locations, classes, training step, refits."""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..core import sub

PROPERTY = "C31"
RULE = "at least two shapelets and a series with several possible positions"

WARM = ["initial"]  # imports keras; no training before the fork

_S = None


def _shp():
    global _S
    if _S is None:
        import warnings
        warnings.filterwarnings("ignore")
        import tslearn.shapelets.shapelets as S
        f = getattr(S, "_kmeans_init_shapelets", None)
        if getattr(f, "__defaults__", None) == (10000,):
            f.__defaults__ = (40,)  # initial draws: only speed
        _S = S
    return _S


LABELS = {"int": [0, 1, 2], "neg": [-1, 1, 7], "str": ["b", "a", "c"],
          "float": [5.0, 2.0, -1.0]}


@st.composite
def model(draw, it=st.sampled_from([0, 1, 1, 2]), auto=False, d=None):
    p = draw(gen.seeded(min_n=3, max_n=8, min_sz=3, max_sz=10, d=d,
                        variable=True))
    p["nc"] = draw(st.sampled_from([2, 2, 3]))
    shortest = min(gen.lens(gen.bulk(p)[0]))
    sizes = draw(st.lists(st.integers(1, shortest), min_size=1, max_size=3,
                          unique=True))
    return {"p": p,
            "shp": [[s, draw(st.integers(1, 3))] for s in sizes],
            "it": draw(it), "seed": draw(st.integers(0, 50)),
            "labels": draw(st.sampled_from(sorted(LABELS))),
            "scale": draw(st.sampled_from([False, False, True])),
            "extra": draw(st.sampled_from([None, None, 0, 3])),
            "batch": draw(st.sampled_from([256, 2]))}


def data(p, labels="int"):
    X, _ = gen.bulk(p)
    y = np.array([LABELS[labels][(i * 7 + p["seed"]) % p["nc"]]
                  if i >= p["nc"] else LABELS[labels][i]
                  for i in range(len(X))])
    return X, y


def build(c, **kw):
    X, _ = data(c["p"])
    args = dict(n_shapelets_per_size={s: k for s, k in c["shp"]},
                max_iter=c["it"], batch_size=c["batch"], scale=c["scale"],
                max_size=None if c["extra"] is None
                else X.shape[1] + c["extra"], random_state=c["seed"])
    args.update(kw)
    return _shp().LearningShapelets(**args)


def minmax(X):
    lo = np.nanmin(X, axis=1, keepdims=True)
    hi = np.nanmax(X, axis=1, keepdims=True)
    return (X - lo) / (hi - lo)


def windows(x, L):
    n = gen.lens([x])[0]
    return [x[i:i + L] for i in range(n - L + 1)]


def ref_transform(X, shapelets):
    """(min distances, all distances, absolute tolerance)."""
    out, full = [], []
    scale = 1.0
    for x in X:
        row, frow = [], []
        for s in shapelets:
            L = len(s)
            dist = []
            for w in windows(x, L):
                if np.isnan(w).any():
                    dist.append(np.inf)
                    continue
                dist.append(((w - s) ** 2).sum() / L)
                scale = max(scale, ((w ** 2).sum() + (s ** 2).sum()) / L)
            row.append(min(dist))
            frow.append(np.array(dist))
        out.append(row)
        full.append(frow)
    return np.array(out), full, 1e-5 * scale


def proba(tr, W, b):
    z = tr.astype(float) @ W.astype(float) + b
    if z.shape[1] == 1:
        p = 1 / (1 + np.exp(-z))
        return np.hstack([1 - p, p])
    e = np.exp(z - z.max(axis=1, keepdims=True))
    return e / e.sum(axis=1, keepdims=True)


@st.composite
def transform_case(draw):
    c = draw(model())
    longest = max(s for s, _ in c["shp"])
    top = c["p"]["sz"] + (c["extra"] or 0)
    c["q"] = draw(gen.seeded(min_n=1, max_n=4, min_sz=longest, max_sz=top,
                             d=c["p"]["d"], variable=True))
    c["q"]["min_sz"] = max(longest, 2)
    c["q"]["sz"] = max(c["q"]["sz"], min(top, 2))
    c["w"] = draw(st.sampled_from([None, 0, 1, 2]))
    c["hole"] = draw(st.sampled_from([None, None, 0.2, 0.5, 0.8]))
    return c


def query(c):
    q = dict(c["q"], min_sz=max(max(s for s, _ in c["shp"]), 1), nc=2)
    Q, _ = gen.bulk(q) if q["n"] > 1 else gen.bulk(dict(q, n=2))
    return Q


@sub(transform_case(), quick=120, thorough=1500, shards=3)
def transform(c, t):
    X, y = data(c["p"], c["labels"])
    m = build(c)
    m.fit(X, y)
    sizes = [s for s, k in c["shp"] for _ in range(k)]
    if c["w"] is not None:
        rng = np.random.RandomState(c["w"])
        for i, (s, k) in enumerate(c["shp"]):
            m.set_weights([np.round(2 * rng.standard_normal(
                (k, s, X.shape[2])), 2).astype(np.float32)],
                layer_name="shapelets_%d" % i)
        Wc = [0.3 * rng.standard_normal(w.shape).astype(np.float32)
              for w in m.get_weights("classification")]
        m.set_weights(Wc, layer_name="classification")
        for a, b in zip(m.get_weights("classification"), Wc):
            t.equal(a, b, "weights read back")
    shp = [np.asarray(s, float) for s in m.shapelets_]
    t.equal([len(s) for s in shp], sizes, "sizes of the shapelets")
    t.ok(all(s.shape[1] == X.shape[2] for s in shp), "shapelet features")
    k0 = 0
    for i, (s, k) in enumerate(c["shp"]):
        w, = m.get_weights("shapelets_%d" % i)
        t.equal(w, np.array([m.shapelets_[k0 + j] for j in range(k)]),
                "layer weights are the shapelets")
        k0 += k
    ts = m.shapelets_as_time_series_
    t.equal(ts, gen.pad([np.asarray(s, float) for s in m.shapelets_],
                        max(sizes)), "shapelets as time series")
    W, b = m.get_weights("classification")

    Q = query(c)
    if c["hole"] is not None and not c["scale"]:
        i = int(c["hole"] * (gen.lens(Q)[0] - 1))
        H = Q.copy()
        H[0, i, int(c["w"] or 0) % Q.shape[2]] = np.nan
        if gen.lens(H)[0] == gen.lens(Q)[0] and all(
                any(not np.isnan(w).any() for w in windows(H[0], s))
                for s in sizes):
            Q = H
            t.label("missing value inside a series")
    for D in (X, Q):
        R = minmax(D) if c["scale"] else D
        if not np.isfinite(R).any(axis=(1, 2)).all() or np.isinf(R).any():
            continue
        want, full, tol = ref_transform(R, shp)
        if np.isnan(want).any():
            continue  # scaling a constant feature: see the scaler property
        tr = m.transform(D)
        t.close(tr, want, "shapelet transform", rtol=1e-4, atol=tol)
        loc = m.locate(D)
        t.ok(np.asarray(loc).dtype.kind == "i", "integer locations")
        t.equal(np.asarray(loc).shape, want.shape, "shape of the locations")
        for i in range(len(D)):
            for j, dist in enumerate(full[i]):
                t.ok(0 <= loc[i, j] < len(dist) and
                     dist[loc[i, j]] <= want[i, j] + 2 * tol + 1e-4 *
                     abs(want[i, j]), "the location is the best match",
                     series=i, shapelet=j, loc=loc[i, j], dist=dist)
        pr = m.predict_proba(D)
        pw = proba(np.asarray(tr), W, b)
        z = 1e-5 + 1e-5 * (np.abs(tr) @ np.abs(W)).max()
        t.close(pr, pw, "class probabilities", rtol=1e-4, atol=z)
        lab = m.predict(D)
        top = np.sort(pr, axis=1)
        for i in range(len(D)):
            if top[i, -1] - top[i, -2] > 1e-3 + 4 * z:
                t.ok(lab[i] == np.unique(y)[pr[i].argmax()],
                     "predicted class", got=lab[i], proba=pr[i])
        if len(D) > 1:  # one series alone, cut to its own length
            n = gen.lens(D)[-1]
            one = D[-1:, :n]
            t.close(m.transform(one), tr[-1:], "transform of a series alone",
                    rtol=1e-4, atol=tol)
            t.close(m.predict_proba(one), pr[-1:],
                    "probabilities of a series alone", rtol=1e-3, atol=2 * z)
    t.nt(len(sizes) > 1 and min(sizes) < X.shape[1])
    t.label("three classes", c["p"]["nc"] == 3)
    t.label("variable lengths", len(set(gen.lens(X))) > 1)
    t.label("scaled", c["scale"])
    # refusals
    top = c["p"]["sz"] + (c["extra"] or 0)
    rng = np.random.RandomState(0)
    bad = [rng.standard_normal((1, top + 1, X.shape[2])),
           rng.standard_normal((1, top, X.shape[2] + 1))]
    if max(sizes) > 2:
        short = rng.standard_normal((2, max(sizes), X.shape[2]))
        short[1, max(sizes) - 1:] = np.nan
        bad.append(short)
    for B in bad:
        for f in (m.transform, m.locate, m.predict_proba, m.predict):
            t.raises(ValueError, lambda: f(B), "series that cannot be "
                     "matched are refused")


def torch_step(X, Y, shp, W, b, l2):
    """Loss and gradients of the documented objective, in double precision."""
    import torch
    S = [torch.tensor(np.asarray(s, float), requires_grad=True) for s in shp]
    Wt = torch.tensor(np.asarray(W, float), requires_grad=True)
    bt = torch.tensor(np.asarray(b, float), requires_grad=True)
    gap = np.inf
    feats = []
    for x in X:
        row = []
        for s in S:
            ds = torch.stack([((torch.tensor(w) - s) ** 2).sum() / len(s)
                              for w in windows(x, len(s))])
            o = np.sort(ds.detach().numpy())
            if len(o) > 1:
                gap = min(gap, o[1] - o[0])
            row.append(ds.min())
        feats.append(torch.stack(row))
    z = torch.stack(feats) @ Wt + bt
    if z.shape[1] == 1:
        p = torch.sigmoid(z)
        y = torch.tensor(Y[:, None].astype(float))
        ce = -(y * torch.log(p) + (1 - y) * torch.log(1 - p)).mean()
    else:
        p = torch.softmax(z, dim=1)
        ce = -torch.log(p[np.arange(len(Y)), Y]).mean()
    loss = ce + l2 * (Wt ** 2).sum()
    loss.backward()
    pn = p.detach().numpy()
    return (float(loss.detach()), [s.grad.numpy() for s in S],
            Wt.grad.numpy(), bt.grad.numpy(), gap,
            float(min(pn.min(), (1 - pn).min())))


@st.composite
def train_case(draw):
    c = draw(model(it=st.just(1)))
    c["scale"] = draw(st.sampled_from([True, True, False]))
    c["batch"] = 256
    c["l2"] = draw(st.sampled_from([0.0, 0.01, 0.5]))
    c["lr"] = draw(st.sampled_from([None, 0.1]))
    return c


@sub(train_case(), quick=80, thorough=800, shards=2)
def training(c, t):
    """One full-batch epoch of SGD: the gradient step on the documented loss."""
    X, y = data(c["p"], c["labels"])
    R = minmax(X) if c["scale"] else X
    if np.isnan(np.where(np.isnan(X), 0, R)).any() or np.isinf(R).any():
        return
    kw = {"weight_regularizer": c["l2"]}
    a = build(c, max_iter=0, **kw)
    a.fit(X, y)
    if c["lr"]:
        import keras
        kw["optimizer"] = keras.optimizers.SGD(learning_rate=c["lr"])
    b = build(c, **kw)
    b.fit(X, y)
    lr = c["lr"] or 0.01
    classes = np.unique(y)
    Y = np.array([int(np.flatnonzero(classes == v)[0]) for v in y])
    W, bias = a.get_weights("classification")
    loss, gs, gw, gb, gap, sat = torch_step(R, Y, a.shapelets_, W, bias,
                                            c["l2"])
    if gap < 1e-3 or sat < 1e-3:
        t.label("not judged: tied positions or saturated probabilities")
        return
    t.nt(len(a.shapelets_) > 1 and len(X) > 2)
    t.close(b.history_["loss"][0], loss, "training loss", rtol=1e-3, atol=1e-4)
    t.ok(b.n_iter_ == 1, "number of epochs")
    W1, b1 = b.get_weights("classification")
    top = max([1.0, np.abs(gw).max(), np.abs(gb).max()] +
              [np.abs(g).max() for g in gs])
    for w0, w1, g, name in ([(W, W1, gw, "weights"), (bias, b1, gb, "bias")] +
                            [(p, q, g, "shapelet") for p, q, g in
                             zip(a.shapelets_, b.shapelets_, gs)]):
        tol = 2e-3 * top + 3e-6 * max(1, np.abs(w0).max()) / lr
        t.close((w0 - w1) / lr, g, "gradient step of the " + name, rtol=1e-2,
                atol=tol)


@sub(model(it=st.just(0)), quick=80, thorough=600, shards=1)
def initial(c, t):
    """Initial shapelets average windows of the series; automatic sizes."""
    X, y = data(c["p"], c["labels"])
    n, sz, nc = len(X), min(gen.lens(X)), c["p"]["nc"]
    R = minmax(X) if c["scale"] else X
    if np.isnan(np.where(np.isnan(X), 0, R)).any():
        return
    for auto in (False, True):
        kw = {}
        want = dict(c["shp"])
        if auto:
            r = 1 + c["seed"] % 3
            f = [0.15, 0.2, 0.33][c["seed"] // 3 % 3]
            kw = dict(n_shapelets_per_size=None, shapelet_length=f,
                      total_lengths=r)
            base = max(1, int(f * sz))
            want = {}
            for i in range(1, min(r, sz) + 1):
                if sz - i * base + 1 < 1:
                    return
                k = n * (sz - i * base + 1) * (nc - 1)
                want[i * base] = max(1, int(np.log10(k)))
        m = build(c, **kw)
        m.fit(X, y)
        t.ok(dict(m.n_shapelets_per_size_) == want, "shapelets per size",
             got=m.n_shapelets_per_size_, want=want)
        for s in m.shapelets_:
            w = np.array([w for x in R for w in windows(x, len(s))])
            lo, hi = w.min(axis=0), w.max(axis=0)
            e = 1e-5 * max(1.0, np.abs(w).max())
            t.ok(np.isfinite(s).all() and (s >= lo - e).all() and
                 (s <= hi + e).all(), "a mean of windows lies between them",
                 shapelet=s, lo=lo, hi=hi)
        if auto and max(want) > 1:
            Q = np.random.RandomState(0).standard_normal(
                (1, max(want) - 1, X.shape[2]))
            t.raises(ValueError, lambda: m.transform(Q),
                     "series shorter than a shapelet")
        t.nt(len(want) > 1 or sz > max(want))


@st.composite
def history_case(draw):
    a = draw(model(it=st.sampled_from([0, 1])))
    steps = []
    for _ in range(draw(st.integers(1, 3))):
        k = draw(st.sampled_from(["fit", "fit", "fit_other", "refused_fit",
                                  "refused_query", "query", "params"]))
        steps.append([k, draw(model(it=st.sampled_from([0, 1]),
                                    d=None))])
    return {"a": a, "steps": steps,
            "opt": draw(st.sampled_from(["sgd", "adam", "object"])),
            "auto": draw(st.booleans())}


@sub(history_case(), quick=60, thorough=600, shards=2)
def history(c, t):
    """A model answers as a fresh one fitted on the last data."""
    sizes = {}
    if c["auto"]:
        sizes = {"n_shapelets_per_size": None, "shapelet_length": .5,
                 "total_lengths": 1}

    def make(cur):
        opt = c["opt"]
        if opt == "object":
            import keras
            opt = keras.optimizers.Adam(learning_rate=0.05)
        return build(cur, optimizer=opt, **sizes)
    cur = c["a"]
    m = make(cur)
    X, y = data(cur["p"], cur["labels"])
    m.fit(X, y)

    def agree(msg):
        f = make(cur)
        f.fit(X, y)
        t.equal([np.shape(s) for s in m.shapelets_],
                [np.shape(s) for s in f.shapelets_], msg + ": shapelets")
        for u, v in zip(m.get_weights(), f.get_weights()):
            t.close(u, v, msg + ": weights", rtol=1e-5, atol=1e-6)
        t.close(m.predict_proba(X), f.predict_proba(X), msg + ": probabilities",
                rtol=1e-4, atol=1e-5)
        t.close(m.transform(X), f.transform(X), msg + ": transform", rtol=1e-4,
                atol=1e-5 * max(1, np.nanmax(np.abs(X)) ** 2))
        t.equal(m.locate(X).shape, f.locate(X).shape, msg + ": locations")
    for kind, s in c["steps"]:
        if kind == "fit":
            m.fit(X, y)
        elif kind == "query":
            m.transform(X)
            m.predict(X)
        elif kind == "refused_query":
            Q = np.zeros((1, 2, X.shape[2] + 1))
            t.raises(ValueError, lambda: m.predict(Q), "other features")
        elif kind == "refused_fit":
            if c["auto"]:
                continue
            Q = np.zeros((2, max(k for k, _ in cur["shp"]) - 1, X.shape[2]))
            if Q.shape[1] < 1:
                continue
            t.raises(ValueError, lambda: m.fit(Q, [0, 1]), "short series")
            n = gen.lens(X)[0]
            t.equal(m.transform(X[:1, :n]).shape,
                    (1, sum(k for _, k in cur["shp"])),
                    "usable after a refused fit")
            m.fit(X, y)
        else:
            cur = s
            m.set_params(**{k: v for k, v in make(cur).get_params().items()
                            if k != "optimizer"})
            X, y = data(cur["p"], cur["labels"])
            m.fit(X, y)
        t.nt()
        t.label(kind)
        agree("after " + kind)
