"""C02: calls read their arguments and nothing else: no hidden effects."""
import contextlib
import copy
import io
import warnings

import numpy as np
from hypothesis import strategies as st

from .. import estimators as est
from .. import functions as fun
from ..core import sub

PROPERTY = "C02"
RULE = ("Every public function and estimator of the catalogues on seeded "
        "arguments, given as contiguous, Fortran-ordered, strided, read-only "
        "or integer arrays, nested lists or tensors. Non-trivial: another "
        "representation than a contiguous float array, or several calls.")

FORMS = ["plain", "fortran", "strided", "reversed", "integer", "list",
         "tensor", "readonly"]
NAMES = sorted(fun.TABLE)


def reshape_memory(a, form):
    """The same values laid out in another way."""
    if form == "fortran":
        return np.asfortranarray(a)
    if form == "strided":
        big = np.full(tuple(2 * s for s in a.shape), 7.25)
        view = big[tuple(slice(1, None, 2) for _ in a.shape)]
        view[...] = a
        return view
    if form == "reversed":
        return a[::-1].copy()[::-1]
    if form == "integer":
        return a.astype(int)
    if form == "list":
        return a.tolist()
    if form == "tensor":
        import torch
        return torch.from_numpy(a.copy())
    b = a.copy()
    if form == "readonly":
        b.flags.writeable = False
    return b


def snapshot(a):
    if isinstance(a, list):
        return copy.deepcopy(a)
    if type(a).__module__.startswith("torch"):
        return a.clone()
    return a.copy()


def same(a, b):
    if isinstance(a, list):
        return (str(a) == str(b))
    if type(a).__module__.startswith("torch"):
        a, b = a.numpy(), b.numpy()
    return np.array_equal(a, b, equal_nan=a.dtype.kind == "f")


def scribble(v):
    """Overwrite every array of a result."""
    if isinstance(v, (tuple, list)):
        for w in v:
            scribble(w)
    elif isinstance(v, dict):
        for w in v.values():
            scribble(w)
    elif isinstance(v, np.ndarray) and v.flags.writeable:
        v[...] = 77
    elif type(v).__module__.startswith("torch"):
        v.detach().fill_(77)


def compare(t, got, want, tol, what):
    got, want = fun.flat(got), fun.flat(want)
    t.ok(len(got) == len(want), what + ": number of results")
    for g, w in zip(got, want):
        if tol:
            t.close(g, w, what, rtol=tol, atol=tol)
        else:
            t.equal(g, w, what)


def functions(c, t):
    warnings.filterwarnings("ignore")
    fn = fun.TABLE[c["fn"]]
    form = c["form"]
    if (form == "tensor" and not fn.be) or (form == "list" and not fn.lists) \
            or (form == "integer" and not fn.ints):
        form = "plain"
    ctx = fun.Ctx(c["seed"], form == "integer")
    call, plain = fn(ctx)
    if form == "integer" and any(np.isnan(a).any() for a in plain):
        form = "plain"
    t.label(form)
    t.label(c["fn"])
    t.nt(form != "plain")
    args = [reshape_memory(a, "plain" if form == "list" and i >= fn.lists
                           else form) for i, a in enumerate(plain)]
    before = [snapshot(a) for a in args]
    out = call(*args)
    what = "%s of %s arguments" % (c["fn"], form)
    for i, (a, b) in enumerate(zip(args, before)):
        t.ok(same(a, b), what + " changed argument %d" % i, now=a, was=b)
    # the values alone decide
    ref = call(*[a.copy() for a in plain])
    tol = max(fn.tol, 1e-6 if form == "tensor" else 1e-9)
    compare(t, out, ref, tol, what)
    # the outcome belongs to the caller
    keep = [np.array(v) for v in fun.flat(out)]
    scribble(out)
    for i, (a, b) in enumerate(zip(args, before)):
        t.ok(same(a, b), "result of %s shares memory with argument %d"
             % (what, i), now=a, was=b)
    compare(t, fun.flat(call(*args)), keep, fn.tol or 1e-12,
            "second " + what)


# group -> quick cases
WEIGHTS = {"piecewise": 60, "kmeans": 60, "kshape": 30, "neighbors": 80,
           "kernels": 80, "others": 100, "shapelets": 3, "selection": 3}


@contextlib.contextmanager
def aloud(m, t):
    """The messages of a verbose model are no part of what it computes."""
    if "verbose" in m.get_params():
        m.set_params(verbose=1)
        t.label("verbose")
    with contextlib.redirect_stdout(io.StringIO()), \
            contextlib.redirect_stderr(io.StringIO()):
        yield


def estimators(c, t):
    warnings.filterwarnings("ignore")
    e = est.CATALOG[c["c"]["est"]]
    t.label(c["c"]["est"])
    t.nt()
    m = est.build(c["c"])
    params = m.get_params()
    held = {k: copy.deepcopy(v) for k, v in params.items()}
    X, y = est.data(c["c"])
    Q = est.data(c["c"], {"few": 3, "one": 1, "many": 2 * c["c"]["n"] + 1}[
        c["size"]], 1)[0]
    t.label(c["size"])
    form = c["form"]
    args = [reshape_memory(X, form), reshape_memory(Q, form)]
    before = [snapshot(a) for a in args]
    y0 = None if y is None else y.copy()

    def unchanged(when):
        for a, b, n in zip(args, before, ("X", "query")):
            t.ok(same(a, b), "%s changed %s" % (when, n), now=a, was=b)
        t.ok(y is None or np.array_equal(y, y0), when + " changed y")
        now = m.get_params()
        for k, v in held.items():
            t.ok(now[k] is params[k], when + " replaced parameter " + k)
            t.ok(str(now[k]) == str(v), when + " changed parameter " + k,
                 now=now[k], was=v)

    np.random.seed(3)
    got = est.fit(c["c"], m, args[0], y)
    t.ok(got is m, "fit does not return the estimator")
    unchanged("fit of %s %s" % (e.cls_name, form))
    out = e.observe(m, args[1])
    unchanged("query of %s %s" % (e.cls_name, form))
    keep = {k: v.copy() for k, v in out.items()}
    for k, v in out.items():
        if k not in e.attrs and v.flags.writeable:
            v.fill("z" if v.dtype.kind == "U" else 77)
    unchanged("writing into results of %s" % e.cls_name)
    again = e.observe(m, args[1])
    for k, v in keep.items():
        t.equal(again[k], v, "%s after writing into results" % k,
                est=e.cls_name)
    # the values alone decide
    ref = est.build(c["c"])
    np.random.seed(3)
    with aloud(ref, t):
        est.fit(c["c"], ref, X.copy(), y)
    want = e.observe(ref, Q.copy())
    for k, v in want.items():
        if v.dtype.kind == "f":
            t.close(keep[k], v, "%s of %s data" % (k, form), rtol=1e-6,
                    atol=1e-6, est=e.cls_name)
        else:
            t.equal(keep[k], v, "%s of %s data" % (k, form), est=e.cls_name)


def register():
    for i in range(6):
        def body(c, t):
            functions(c, t)
        body.__name__ = "functions_%d" % i
        sub(st.fixed_dictionaries({
            "fn": st.sampled_from(NAMES[i::6]),
            "form": st.sampled_from(FORMS),
            "seed": st.integers(0, 10 ** 6)}), quick=150, thorough=4000)(body)
    for g, n in WEIGHTS.items():
        def body(c, t):
            estimators(c, t)
        body.__name__ = "estimators_" + g
        sub(st.tuples(est.case(est.GROUPS[g]), st.sampled_from(
            ["plain", "fortran", "strided", "reversed", "list", "readonly"]),
            st.sampled_from(["few", "many", "many", "one"])).map(
                lambda x: {"c": x[0], "form": x[1], "size": x[2]}), quick=n,
            thorough=n * (12 if g == "shapelets" else 25),
            shrink=g not in ("shapelets", "selection"))(body)


register()
