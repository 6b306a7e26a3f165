"""C35: saved models are restored as they were."""
import copy
import os
import pickle
import tempfile
import warnings

import numpy as np
from hypothesis import strategies as st

from .. import estimators as est
from ..core import sub

PROPERTY = "C35"
RULE = ("A fitted model with its observations on unseen series; several "
        "formats in a chain; dictionaries: nested, with arrays. Non-trivial: "
        "the chain has two steps, or parameters or attributes that are "
        "dictionaries, text or missing.")

# group -> quick cases of saved and of pickled models
WEIGHTS = {"piecewise": (50, 30), "kmeans": (50, 30), "kshape": (40, 20),
           "neighbors": (60, 40), "kernels": (50, 50), "others": (0, 40),
           "shapelets": (3, 2), "selection": (6, 3)}


def chain(names):
    return st.tuples(est.case(names), st.lists(
        st.sampled_from(est.ALL), min_size=1, max_size=3)).map(
            lambda x: {"c": x[0], "formats": x[1]})


def same_param(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)
                and np.array_equal(a, b))
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(
            same_param(a[k], b[k]) for k in a)
    return a == b


def same_params(t, m, want, where):
    got = m.get_params()
    t.ok(got.keys() == want.keys(), "parameter names", where=where)
    for k in want:
        t.ok(same_param(got[k], want[k]), "parameter " + k, got=got[k],
             want=want[k], where=where)


def same_obs(t, e, m, want, Q, where):
    got = e.observe(m, Q)
    for k, w in want.items():
        t.equal(got[k], w, k, where=where)
        t.ok(got[k].dtype.kind == w.dtype.kind, "kind of %s" % k,
             got=got[k].dtype, want=w.dtype, where=where)


def save_load(m, f, folder, i=0):
    path = os.path.join(folder, "%d.%s" % (i, f))
    getattr(m, "to_" + f)(path)
    return path, getattr(type(m), "from_" + f)(path)


def roundtrip(c, t):
    warnings.filterwarnings("ignore")
    e = est.CATALOG[c["c"]["est"]]
    m = est.build(c["c"])
    X, y = est.data(c["c"])
    Q = est.data(c["c"], 3, 1)[0]
    t.label(c["c"]["est"])
    with tempfile.TemporaryDirectory() as folder:
        for f in e.saves:
            try:
                getattr(m, "to_" + f)(os.path.join(folder, "u"))
            except ValueError:       # includes NotFittedError
                pass
            else:
                t.ok(False, "a model that is not fitted was saved", f=f)
        est.fit(c["c"], m, X, y)
        params = {k: copy.deepcopy(v) for k, v in m.get_params().items()}
        want = {k: v.copy() for k, v in e.observe(m, Q).items()}
        t.nt(len(c["formats"]) > 1)
        for i, f in enumerate(c["formats"]):
            if f not in e.saves:
                continue
            t.label(f)
            path, new = save_load(m, f, folder, i)
            where = "%s: %s" % (c["c"]["est"], c["formats"][:i + 1])
            t.ok(type(new) is type(m), "class", where=where)
            same_params(t, new, params, where)
            same_obs(t, e, new, want, Q, where)
            # saving changed nothing, and the file can be read again
            same_params(t, m, params, "after saving, " + where)
            same_obs(t, e, m, want, Q, "after saving, " + where)
            again = getattr(type(m), "from_" + f)(path)
            same_obs(t, e, again, want, Q, "read twice, " + where)
            if f == "hdf5":
                before = open(path, "rb").read()
                try:
                    m.to_hdf5(path)
                except FileExistsError:
                    pass
                else:
                    t.ok(False, "to_hdf5 wrote over a file")
                t.ok(open(path, "rb").read() == before,
                     "the refused file was changed")
            m = new
        if c["c"]["est"] == "Shapelets":
            try:
                m.to_hdf5(os.path.join(folder, "m"))
            except NotImplementedError:
                pass
            else:
                t.ok(False, "to_hdf5 of shapelets is documented to refuse")


def pickled(c, t):
    """The standard pickle and deepcopy, for every estimator."""
    warnings.filterwarnings("ignore")
    e = est.CATALOG[c["c"]["est"]]
    m = est.build(c["c"])
    X, y = est.data(c["c"])
    Q = est.data(c["c"], 3, 1)[0]
    dup = copy.deepcopy if c["copy"] else (
        lambda v: pickle.loads(pickle.dumps(v)))
    blank = dup(m)
    same_params(t, blank, m.get_params(), "before fit")
    np.random.seed(1)        # the automatic gamma of SVMs is sampled
    est.fit(c["c"], m, X, y)
    want = e.observe(m, Q)
    new = dup(m)
    t.nt()
    t.label(c["c"]["est"])
    same_params(t, new, m.get_params(), c["c"]["est"])
    same_obs(t, e, new, want, Q, c["c"]["est"])
    # fitting the copy leaves the original alone
    X2, y2 = est.data(c["c"], None, 9)
    est.fit(c["c"], new, X2, y2)
    e.observe(new, Q)
    same_obs(t, e, m, want, Q, "the copy was fitted again")
    np.random.seed(1)
    est.fit(c["c"], blank, X, y)
    same_obs(t, e, blank, want, Q, "a copy taken before fit, then fitted")


def register():
    for g, (n_saved, n_pickled) in WEIGHTS.items():
        names = est.GROUPS[g]
        saves = [k for k in names if est.CATALOG[k].saves]
        many = 12 if g == "shapelets" else 25
        if saves:
            def body(c, t):
                roundtrip(c, t)
            body.__name__ = "saved_" + g
            sub(chain(saves), quick=n_saved, thorough=many * n_saved,
                shrink=g not in ("shapelets", "selection"))(body)

        def body(c, t):
            pickled(c, t)
        body.__name__ = "pickled_" + g
        sub(st.tuples(est.case(names), st.booleans()).map(
            lambda x: {"c": x[0], "copy": x[1]}), quick=n_pickled,
            thorough=many * n_pickled,
            shrink=g not in ("shapelets", "selection"))(body)


register()


# --- dictionaries in HDF5 files

NAMES = st.text("abcdefgh_XYZ012", min_size=1, max_size=5)


@st.composite
def arrays(draw):
    shape = draw(st.lists(st.integers(0, 3), max_size=3))
    dt = draw(st.sampled_from(["float64", "float32", "int64", "int32", "bool",
                               "<U3", "complex128", "uint8"]))
    return {"array": shape, "dtype": dt, "seed": draw(st.integers(0, 999))}


LEAF = st.one_of(
    st.integers(-2 ** 60, 2 ** 60), st.floats(allow_nan=False),
    st.text(st.characters(min_codepoint=1, blacklist_categories=["Cs"]),
            max_size=6), st.booleans(), arrays())
TREE = st.dictionaries(NAMES, st.recursive(
    LEAF, lambda v: st.dictionaries(NAMES, v, max_size=3).map(
        lambda d: {"dict": d}), max_leaves=6), max_size=4)


def plain(v):
    if isinstance(v, dict) and "dict" in v and isinstance(v["dict"], dict):
        return {k: plain(w) for k, w in v["dict"].items()}
    if isinstance(v, dict) and "seed" in v and "array" in v:
        rng = np.random.RandomState(v["seed"])
        a = rng.randint(0, 3, v["array"])
        if v["dtype"] == "<U3":
            return np.array(["", "aé", "xyz"])[np.atleast_1d(a)]
        return np.asarray(a * 1.1).astype(v["dtype"])
    return v


def compare(t, got, want, where):
    if isinstance(want, dict):
        t.ok(isinstance(got, dict) and got.keys() == want.keys(), "keys",
             where=where, got=got, want=want)
        for k in want:
            compare(t, got[k], want[k], where + "/" + k)
    elif isinstance(want, np.ndarray):
        t.ok(np.shape(got) == want.shape and np.asarray(got).dtype
             == want.dtype, "array", where=where, got=got, want=want)
        t.ok(np.array_equal(got, want), "values", where=where, got=got)
    else:
        if isinstance(got, bytes):
            got = got.decode("utf-8")
        t.ok(got == want, "value", where=where, got=got, want=want)


@sub(st.tuples(TREE, NAMES).map(lambda x: {"tree": x[0], "group": x[1]}),
     quick=150, thorough=3000)
def dictionaries(c, t):
    from tslearn import hdftools
    tree = {k: plain(v) for k, v in c["tree"].items()}
    if not tree:
        return
    t.nt(any(isinstance(v, (dict, np.ndarray)) for v in tree.values()))
    with tempfile.TemporaryDirectory() as folder:
        path = os.path.join(folder, "f")
        hdftools.save_dict(tree, path, c["group"])
        compare(t, hdftools.load_dict(path, c["group"]), tree, "")
        try:
            hdftools.save_dict(tree, path, c["group"])
        except FileExistsError:
            pass
        else:
            t.ok(False, "save_dict wrote over a file")
        compare(t, hdftools.load_dict(path, c["group"]), tree, "")
        other = os.path.join(folder, "g")
        bad = dict(tree, zzz=[1, 2])     # lists are not supported
        try:
            hdftools.save_dict(bad, other, c["group"])
        except TypeError:
            pass
        else:
            t.ok(False, "an unsupported entry was accepted")
        third = os.path.join(folder, "h")
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            hdftools.save_dict(bad, third, c["group"], raise_type_fail=False)
        t.ok(len(w) >= 1, "no warning for an entry stored as text")
        got = hdftools.load_dict(third, c["group"])
        compare(t, got, dict(tree, zzz="[1, 2]"), "text")
