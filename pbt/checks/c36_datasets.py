"""C36: generators, bundled data, and the cache of the UCR/UEA archive.

The archive is a stand-in: an opener that answers the requests of urllib from
memory, with injected faults.  Everything is written in scratch folders, and
the calls that delete files refuse any other place.
"""
import contextlib
import email.message
import io
import os
import pathlib
import shutil
import tempfile
import urllib.error
import urllib.request
import urllib.response
import warnings
import zipfile
import zlib

import numpy as np
from hypothesis import strategies as st

from ..core import sub

PROPERTY = "C36"
RULE = ("generators: several series and timestamps; cache: a history with a "
        "dataset loaded at least twice or a failure")


# --- generators

@st.composite
def gen_case(draw):
    f = st.floats(-5, 5).map(lambda v: round(v, 3))
    return {"n": draw(st.integers(1, 5)), "sz": draw(st.integers(1, 9)),
            "d": draw(st.integers(1, 3)), "blobs": draw(st.integers(1, 4)),
            "seed": draw(st.integers(0, 2 ** 31 - 1)), "mu": draw(f),
            "std": abs(draw(f)), "noise": abs(draw(f)),
            "how": draw(st.sampled_from(["int", "state", "global"]))}


def state(c):
    if c["how"] == "int":
        return c["seed"]
    if c["how"] == "state":
        return np.random.RandomState(c["seed"])
    np.random.seed(c["seed"])
    return None


@sub(gen_case(), quick=500, thorough=10000)
def generators(c, t):
    from tslearn.generators import random_walk_blobs, random_walks
    n, sz, d = c["n"], c["sz"], c["d"]
    X = random_walks(n, sz, d, c["mu"], c["std"], state(c))
    t.ok(X.shape == (n, sz, d), "shape", got=X.shape)
    U = random_walks(n_ts=n, sz=sz, d=d, random_state=state(c))
    # same draws: the steps of the one are mu + std * those of the other
    s, u = (np.diff(V, axis=1, prepend=0) for V in (X, U))
    t.close(s, c["mu"] + c["std"] * u, "steps", rtol=1e-9, atol=1e-9)
    t.ok(len(np.unique(np.round(u, 9))) == u.size, "repeated steps")
    t.close(random_walks(n, sz, d, c["mu"], c["std"], state(c)), X, "seed",
            rtol=0, atol=0)
    k = c["blobs"]
    B, y = random_walk_blobs(n, sz, d, k, c["noise"], state(c))
    t.ok(B.shape == (n * k, sz, d) and len(y) == n * k, "shape of blobs")
    t.equal(np.asarray(y), np.repeat(np.arange(k), n), "labels of blobs")
    Z, _ = random_walk_blobs(n, sz, d, k, 0.0, state(c))
    for i in range(k):
        t.close(Z[i * n:(i + 1) * n], np.repeat(Z[i * n:i * n + 1], n, axis=0),
                "blob without noise", rtol=0, atol=0)
    V, _ = random_walk_blobs(n, sz, d, k, 1.0, state(c))
    t.close(B, Z + c["noise"] * (V - Z), "noise", rtol=1e-9, atol=1e-9)
    noise = np.round((V - Z).ravel(), 9)
    t.ok(len(np.unique(noise)) == noise.size, "repeated noise")
    C, z = random_walk_blobs(n, sz, d, k, c["noise"], state(c))
    t.close(C, B, "seed", rtol=0, atol=0)
    t.nt(n > 1 and sz > 1 and c["std"] > 0)


@sub(st.integers(0, 10 ** 6), quick=12, thorough=200, shrink=False)
def moments(seed, t):
    """Steps and noise are normal with the moments asked for (6 sigma)."""
    from tslearn.generators import random_walk_blobs, random_walks
    rng = np.random.RandomState(seed)
    mu, std = rng.uniform(-3, 3), rng.uniform(.1, 3)
    s = np.diff(random_walks(40, 60, 2, mu, std, seed), axis=1, prepend=0)
    B, y = random_walk_blobs(30, 60, 2, 2, std, seed)
    Z, _ = random_walk_blobs(30, 60, 2, 2, 0.0, seed)
    for v, m, sd in ((s, mu, std), (B - Z, 0.0, std),
                     (np.diff(Z[::30], axis=1, prepend=0), 0.0, 1.0)):
        v = v.ravel()
        t.ok(abs(v.mean() - m) < 6 * sd / np.sqrt(v.size), "mean",
             got=v.mean(), want=m)
        t.ok(abs(v.std() - sd) < 6 * sd / np.sqrt(2 * v.size), "deviation",
             got=v.std(), want=sd)
    t.nt()


# --- the archive

NAMES = {"Alpha": "Alpha", "Beta2": "Beta2", "StarlightCurves":
         "StarLightCurves", "AtrialFibrillation": "AtrialFibrilation",
         "MixedShapes": "MixedShapesRegularTrain"}
PUBLIC = {"Alpha", "Beta2", "StarLightCurves", "AtrialFibrilation"}
FAULTS = ["none", "none", "none", "404", "offline", "cut", "badzip", "nofile",
          "badtext"]


def table(rng, kind):
    n, sz = rng.randint(1, 4), rng.randint(2, 6)
    d = 1 if kind != "multi" else rng.randint(2, 4)
    X = rng.standard_normal((n, sz, d))
    y = rng.randint(1, 4, size=n)
    return X, y


def as_text(X, y):
    return "\n".join(" ".join([repr(float(lab))] + [repr(float(v)) for v in
                                                    x[:, 0]])
                     for x, lab in zip(X, y)) + "\n"


def as_arff(X, y):
    n, sz, d = X.shape
    out = ["@relation R", ""]
    if d == 1:
        out += ["@attribute att%d numeric" % i for i in range(sz)]
    else:
        out += ["@attribute input relational"]
        out += ["  @attribute t%d numeric" % i for i in range(sz)]
        out += ["@end input"]
    out += ["@attribute target {1,2,3}", "", "@data"]
    for x, lab in zip(X, y):
        if d == 1:
            out.append(",".join(repr(float(v)) for v in x[:, 0])
                       + ",%d" % lab)
        else:
            out.append('"' + "\\n".join(",".join(repr(float(v)) for v in
                                                 x[:, k]) for k in range(d))
                       + '",%d' % lab)
    return "\n".join(out) + "\n"


class Archive(urllib.request.BaseHandler):
    """What the web site would answer."""
    handler_order = 1

    def __init__(self):
        self.version, self.fault, self.asked = {}, "none", []
        self.escaped = []  # deletions refused

    def content(self, name):
        """(files, expected result) of a version of a dataset."""
        v = self.version.get(name, 0)
        rng = np.random.RandomState(zlib.crc32(b"%s %d" % (name.encode(), v)))
        kind = ["txt", "arff", "multi", "both"][(len(name) + v) % 4]
        tr, te = table(rng, kind), table(rng, kind)
        files = {}
        for part, (X, y) in (("TRAIN", tr), ("TEST", te)):
            if kind in ("txt", "both"):
                files["%s_%s.txt" % (name, part)] = as_text(X, y)
            if kind == "both":  # the text files are preferred
                X = X + 1
            if kind != "txt":
                files["%s_%s.arff" % (name, part)] = as_arff(X, y)
        lab = int if kind in ("txt", "both") else str
        return files, (tr[0], tr[1].astype(lab), te[0], te[1].astype(lab))

    def https_open(self, req):
        url = req.full_url
        self.asked.append(url)
        if self.fault == "offline":
            raise urllib.error.URLError("no route to host")
        name = url.rsplit("/", 1)[1]
        if name == "summaryMultivariate.csv":
            return self.answer(b"Problem,x\nAtrialFibrillation,1\n", url)
        if name == "summaryUnivariate.csv":
            return self.answer(b"problem,x\nAlpha,1\nBeta2,2\n"
                               b"StarlightCurves,3\nCinCECGtorso,4\n", url)
        name = name[:-4]
        if self.fault == "404" or name not in NAMES.values():
            raise urllib.error.HTTPError(url, 404, "Not Found", None, None)
        files, _ = self.content(name)
        if self.fault == "nofile":
            files.pop(sorted(files)[0])
            files = {k: v for k, v in files.items() if "TRAIN" not in k}
        if self.fault == "badtext":
            files = {k: "@relation\nx y\n1 a\n" for k in files}
        buf = io.BytesIO()
        with zipfile.ZipFile(buf, "w") as z:
            for k in sorted(files):
                z.writestr(k, files[k])
        data = buf.getvalue()
        if self.fault == "badzip":
            data = b"<html>not here</html>"
        return self.answer(data, url, cut=self.fault == "cut")

    http_open = https_open

    def answer(self, data, url, cut=False):
        h = email.message.Message()
        h["Content-Length"] = str(len(data))
        r = urllib.response.addinfourl(
            io.BytesIO(data[:len(data) // 2] if cut else data), h, url, 200)
        r.msg = "OK"
        return r


@contextlib.contextmanager
def sandbox():
    """Scratch folders, the stand-in archive, and guarded deletions."""
    root = os.path.realpath(tempfile.mkdtemp(prefix="verif-c36-"))
    archive = Archive()
    old_env = {k: os.environ.get(k) for k in ("HOME", "XDG_DATA_HOME",
                                              "TMPDIR")}
    old = (shutil.rmtree, pathlib.Path.unlink, os.unlink, os.remove,
           tempfile.tempdir, urllib.request._opener)

    def inside(p):
        p = os.path.realpath(os.fspath(p))
        if not p.startswith(root + os.sep):
            archive.escaped.append(p)
            raise PermissionError("outside of the scratch folder: " + p)

    def rmtree(path, *a, **k):
        inside(path)
        shutil.rmtree, saved = old[0], shutil.rmtree
        pathlib.Path.unlink, os.unlink, os.remove = old[1:4]
        try:
            return old[0](path, *a, **k)
        finally:
            shutil.rmtree = saved
            pathlib.Path.unlink, os.unlink, os.remove = unlink, osu, osr

    def unlink(self, *a, **k):
        inside(self)
        return old[1](self, *a, **k)

    def osu(path, *a, **k):
        inside(path)
        return old[2](path, *a, **k)

    def osr(path, *a, **k):
        inside(path)
        return old[3](path, *a, **k)
    try:
        for d in ("home", "xdg", "tmp", "other"):
            os.mkdir(os.path.join(root, d))
        os.environ["HOME"] = os.path.join(root, "home")
        os.environ.pop("XDG_DATA_HOME", None)
        os.environ["TMPDIR"] = tempfile.tempdir = os.path.join(root, "tmp")
        urllib.request.install_opener(urllib.request.build_opener(archive))
        shutil.rmtree, pathlib.Path.unlink = rmtree, unlink
        os.unlink, os.remove = osu, osr
        yield root, archive
    finally:
        shutil.rmtree, pathlib.Path.unlink, os.unlink, os.remove = old[:4]
        tempfile.tempdir, urllib.request._opener = old[4:]
        for k, v in old_env.items():
            os.environ.pop(k, None)
            if v is not None:
                os.environ[k] = v
        shutil.rmtree(root, ignore_errors=True)


@st.composite
def cache_case(draw):
    """A history, mostly about one or two datasets."""
    names = st.sampled_from(draw(st.lists(
        st.sampled_from(sorted(NAMES)), min_size=1, max_size=2)))
    load = st.tuples(st.just("load"), names, st.sampled_from(FAULTS))
    op = st.one_of(
        load, load, load, load, st.tuples(st.just("publish"), names),
        st.tuples(st.just("object"), st.sampled_from([True, True, False]),
                  st.sampled_from(["none", "offline"])),
        st.tuples(st.just("spoil"), names,
                  st.sampled_from(["TRAIN", "TEST", "", "file"])),
        st.tuples(st.just("unknown")), st.tuples(st.just("list")),
        st.tuples(st.just("all"), st.sampled_from(["none", "offline"])))
    return {"where": draw(st.sampled_from(["root", "root", "path", "xdg",
                                           "home"])),
            "ops": draw(st.lists(op, min_size=3, max_size=12))}


@sub(cache_case(), quick=400, thorough=5000, shards=2)
def cache(c, t):
    """Histories of loads, new versions, failures against a model."""
    from tslearn.datasets import UCR_UEA_datasets
    with sandbox() as (root, web), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        arg, place = None, os.path.join(root, "other", "UCR_UEA")
        if c["where"] == "root":
            arg = os.path.join(root, "other")
        elif c["where"] == "path":
            arg = pathlib.Path(root, "other")
        elif c["where"] == "xdg":
            os.environ["XDG_DATA_HOME"] = os.path.join(root, "xdg")
            place = os.path.join(root, "xdg", "tslearn", "UCR_UEA")
        else:
            place = os.path.join(root, "home", ".tslearn", "datasets",
                                 "UCR_UEA")

        def new(use, fault):
            web.fault = fault
            return UCR_UEA_datasets(use_cache=use, root_dir=arg)
        obj, use, had_list = new(True, "none"), True, True
        have = {}       # cached name -> what a load gives
        loads = failures = 0
        for op in c["ops"]:
            web.asked = []
            if op[0] == "publish":
                n = NAMES[op[1]]
                web.version[n] = web.version.get(n, 0) + 1
            elif op[0] == "object":
                obj, use = new(op[1], op[2]), op[1]
            elif op[0] == "spoil":  # what an interrupted process leaves
                n = NAMES[op[1]]
                if spoil(os.path.join(place, n), op[2]):
                    have.pop(n, None)
            elif op[0] == "all":
                web.fault = op[1]
                obj.cache_all()
                for n in sorted(set(NAMES.values()) & PUBLIC):
                    if use and n in have:
                        continue
                    have.pop(n, None)
                    if op[1] == "none":
                        have[n] = web.content(n)[1]
            elif op[0] == "unknown":
                web.fault = "none"
                got = fails(obj, "Unheard", t)
                t.ok(got == (None,) * 4, "unknown dataset", got=got)
            elif op[0] == "list":
                web.fault = "offline"
                t.equal(sorted(obj.list_univariate_datasets()),
                        ["Alpha", "Beta2", "CinCECGTorso", "StarLightCurves"],
                        "univariate datasets")
                t.equal(obj.list_multivariate_datasets(),
                        ["AtrialFibrillation"], "multivariate datasets")
                t.equal(sorted(obj.list_datasets()), sorted(
                    obj.list_univariate_datasets()
                    + obj.list_multivariate_datasets()), "all datasets")
            else:
                loads += 1
                n = NAMES[op[1]]
                web.fault = op[2]
                kept = have.get(n) if use else None
                if kept is not None and kept != "unreadable":
                    got = obj.load_dataset(op[1])
                    same(t, got, kept, "from the cache")
                    t.equal(web.asked, [], "asked the archive")
                elif kept == "unreadable":
                    got = fails(obj, op[1], t)
                elif op[2] == "none":
                    have[n] = web.content(n)[1]
                    same(t, obj.load_dataset(op[1]), have[n], "downloaded")
                else:
                    failures += 1
                    got = fails(obj, op[1], t)
                    t.ok(got == (None,) * 4, "result of a failure", got=got)
                    have.pop(n, None)
                    if op[2] == "badtext":
                        have[n] = "unreadable"
            left = sorted(os.listdir(os.path.join(root, "tmp")))
            t.equal(left, [], "left in the temporary folder")
            listed = obj.list_cached_datasets()
            for n in have:
                t.ok(n in listed and os.path.isdir(os.path.join(place, n)),
                     "not in the cache", name=n)
            t.ok(set(listed) <= set(NAMES.values()), "listed", got=listed)
        for other in {"home", "xdg", "other"} - {
                "home" if c["where"] == "home" else
                "xdg" if c["where"] == "xdg" else "other"}:
            t.equal(os.listdir(os.path.join(root, other)), [],
                    "written elsewhere")
        t.equal(web.escaped, [], "deleted elsewhere")
        t.label("failures", failures)
        t.nt(loads > 1 or failures)


def spoil(path, how):
    """Only some of the files, or no folder: not a cached dataset."""
    if not os.path.isdir(path):
        return False
    if how == "file":
        shutil.rmtree(path)
        with open(path, "w") as f:
            f.write("x")
        return True
    for f in os.listdir(path):
        if how in f:
            os.unlink(os.path.join(path, f))
    return True


def fails(obj, name, t):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        got = obj.load_dataset(name)
    t.ok(any(issubclass(x.category, (RuntimeWarning, UserWarning))
             for x in w), "no warning")
    return tuple(got)


def same(t, got, want, msg):
    t.ok(len(got) == 4 and all(g is not None for g in got), msg)
    for g, w in zip(got, want):
        t.equal(np.asarray(g), w, msg)


@sub(st.tuples(st.integers(0, 10 ** 6), st.integers(1, 5), st.integers(2, 6),
               st.integers(1, 3), st.booleans()), quick=150, thorough=3000)
def files(c, t):
    """The files of the archive are read as they are written."""
    from tslearn.utils import _load_arff_uea, _load_txt_uea
    seed, n, sz, d, text = c
    rng = np.random.RandomState(seed)
    X = rng.standard_normal((n, sz, 1 if text else d)) \
        * 10.0 ** rng.randint(-8, 9)
    y = rng.randint(-3 if text else 1, 4, size=n)
    with tempfile.TemporaryDirectory(prefix="verif-c36-") as tmp:
        path = os.path.join(tmp, "A_TRAIN." + ("txt" if text else "arff"))
        with open(path, "w") as f:
            f.write((as_text if text else as_arff)(X, y))
        gx, gy = (_load_txt_uea if text else _load_arff_uea)(path)
    t.equal(gx, X, "series")
    t.equal(gy, y if text else y.astype(str), "labels")
    t.nt(n > 1)


@sub(st.lists(st.sampled_from(["Adiac", "Beef", "Trace", "Coffee", "Nope"]),
              max_size=4, unique=True), quick=30, thorough=100)
def bundled(c, t):
    """Trace and the baseline scores that come with the package."""
    import csv
    from tslearn.datasets import CachedDatasets, UCR_UEA_datasets
    ds = CachedDatasets()
    names = ds.list_datasets()
    t.ok("Trace" in names, "Trace", got=names)
    for name in names:
        a = ds.load_dataset(name)
        b = ds.load_dataset(name)
        for u, v in zip(a, b):
            t.equal(u, v, "loaded twice")
        for X, y in (a[:2], a[2:]):
            t.ok(X.ndim == 3 and len(X) == len(y) and np.isfinite(X).all(),
                 "bundled data")
    t.raises(IOError, lambda: ds.load_dataset("Nope"), "unknown")
    X = ds.load_dataset("Trace")
    t.ok(X[0].shape == X[2].shape == (100, 275, 1)
         and set(X[1]) == set(X[3]) == {1, 2, 3, 4}, "Trace")
    with sandbox() as (root, web), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        web.fault = "offline"
        obj = UCR_UEA_datasets(root_dir=os.path.join(root, "other"))
        full = obj.baseline_accuracy()
        path = os.path.join(os.path.dirname(ds.path), ".cached_datasets",
                            "singleTrainTest.csv")
        with open(path) as f:
            rows = list(csv.reader(f, delimiter=";"))
        head = rows[0]
        want = {r[0]: {h: float(v) for h, v in zip(head[1:], r[1:]) if v}
                for r in rows[1:]}
        t.ok(full == want, "scores")
        some = obj.baseline_accuracy(list_datasets=c, list_methods=["C45"])
        t.ok(some == {k: {"C45": want[k]["C45"]} for k in c if k in want},
             "selected scores", got=some)
    t.nt(len(c) > 1)
