"""Runner: Hypothesis-driven sub-checks, counted, sharded over processes.

A property module registers sub-checks with ``@sub(strategy, quick=.., ..)``.
Each sub-check is a function ``body(case, t)`` of plain data drawn by the
strategy, so that a shrunk failing case can be written to a file and replayed
without Hypothesis.
"""
import faulthandler
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import select
import shutil
import signal
import sys
import tempfile
import time
import traceback

import numpy as np

from . import codec

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LEVEL = "exploration"
HANG = 120  # seconds on one case, twice, before it counts as non-terminating


class Violation(AssertionError):
    """The property is broken on this case."""


class NotJudged(Exception):
    """The case falls outside the property (counted under its reason)."""


class HarnessError(Exception):
    """The machinery itself failed: no verdict."""


class Sub:
    def __init__(self, fn, strategy, quick, thorough, shards, name, shrink):
        self.fn, self.strategy = fn, strategy
        self.quick, self.thorough, self.shards = quick, thorough, shards
        self.name, self.shrink = name, shrink


_REGISTRY = {}


def sub(strategy, quick=100, thorough=None, shards=1, shrink=True):
    def deco(fn):
        reg = _REGISTRY.setdefault(fn.__module__, [])
        reg.append(Sub(fn, strategy, quick,
                       thorough if thorough is not None else quick * 10,
                       shards, fn.__name__, shrink))
        return fn
    return deco


class Tracker:
    """Counts what was generated and offers assertion helpers."""

    def __init__(self):
        self.evaluations = 0
        self.nontrivial = set()
        self.labels = {}
        self.samples = []
        self.excluded = {}
        self._case = None
        self._digest = None
        self.trace = None

    def begin(self, case):
        self.evaluations += 1
        self._case = codec.dumps(case)
        self._digest = hashlib.sha1(self._case.encode()).digest()[:10]

    def nt(self, cond=True):
        """Mark the current case as non-trivial (by the module's RULE)."""
        if cond:
            if (self._digest not in self.nontrivial and len(self.samples) < 3
                    and len(self._case) < 4000):
                self.samples.append(json.loads(self._case))
            self.nontrivial.add(self._digest)

    def label(self, name, cond=True):
        if cond:
            self.labels[name] = self.labels.get(name, 0) + 1

    def exclude(self, finding):
        """The case falls in a recorded known finding: counted, not judged."""
        self.excluded[finding] = self.excluded.get(finding, 0) + 1

    # -- assertion helpers -------------------------------------------------
    def ok(self, cond, msg="", **info):
        if not bool(cond):
            raise Violation("%s %s" % (msg, " ".join(
                "%s=%s" % (k, _short(v)) for k, v in info.items())))

    def close(self, got, want, msg="", rtol=1e-8, atol=1e-9, equal_nan=True,
              **info):
        g, w = _arr(got), _arr(want)
        if g.shape != w.shape:
            raise Violation("%s: shape %s, expected %s %s" % (
                msg, g.shape, w.shape, _info(info)))
        if not np.allclose(g, w, rtol=rtol, atol=atol, equal_nan=equal_nan):
            raise Violation("%s: got %s, expected %s %s" % (
                msg, _short(g), _short(w), _info(info)))

    def equal(self, got, want, msg="", **info):
        g, w = _arr(got), _arr(want)
        if g.shape != w.shape:
            raise Violation("%s: shape %s, expected %s %s" % (
                msg, g.shape, w.shape, _info(info)))
        same = (g == w)
        if g.dtype.kind == "f" and w.dtype.kind == "f":
            same = same | (np.isnan(g) & np.isnan(w))
        if not np.all(same):
            raise Violation("%s: got %s, expected %s %s" % (
                msg, _short(g), _short(w), _info(info)))

    def raises(self, exc, fn, msg=""):
        try:
            r = fn()
        except exc:
            return
        raise Violation("%s: expected %s, got result %s" % (
            msg, exc, _short(r)))


def _arr(x):
    if hasattr(x, "detach"):
        x = x.detach().cpu().numpy()
    return np.asarray(x)


def _short(v):
    s = np.array2string(np.asarray(v), precision=17, threshold=60) \
        if isinstance(v, np.ndarray) else repr(v)
    return s if len(s) < 900 else s[:900] + "..."


def _info(info):
    return " ".join("%s=%s" % (k, _short(v)) for k, v in info.items())


def _seed_for(seed, prop, name, shard):
    h = hashlib.sha256(("%d/%s/%s/%d" % (seed, prop, name, shard)).encode())
    return int.from_bytes(h.digest()[:8], "big")


def evaluate(s, case, tracker):
    """Run one case.  Returns None or (kind, message)."""
    tracker.begin(case)
    if tracker.trace:  # lets the parent see a case that never returns
        with open(tracker.trace, "w") as f:
            f.write(tracker._case)
    try:
        with np.errstate(all="ignore"):
            s.fn(case, tracker)
        return None
    except NotJudged as e:
        tracker.label("not judged: %s" % e)
        return None
    except Violation as e:
        return ("violation", str(e) or traceback.format_exc(limit=-3))
    except (ImportError, MemoryError, HarnessError, KeyboardInterrupt) as e:
        raise HarnessError("%s: %s\n%s" % (type(e).__name__, e,
                                           traceback.format_exc()))
    except Exception as e:
        if type(e).__module__.startswith("hypothesis"):
            raise
        return ("violation", "unexpected %s: %s\n%s" % (
            type(e).__name__, e, traceback.format_exc(limit=-6)))


def run_sub(prop, s, seed, n, shard, trace=None):
    """Explore one sub-check.  Returns a plain dict of results."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, settings
    import hypothesis.internal.conjecture.engine as engine
    engine.MAX_SHRINKING_SECONDS = 45
    t = Tracker()
    t.trace = trace
    last = {}
    fails = {"n": 0, "t": None}

    class Found(Exception):
        pass

    def test(case):
        r = evaluate(s, case, t)
        if r is not None:
            if fails["n"] == 0:
                last["first"] = codec.dumps(case)
            fails["n"] += 1
            last["case"], last["msg"] = codec.dumps(case), r[1]
            raise Found(r[1][:200])

    phases = [Phase.generate] + ([Phase.shrink] if s.shrink else [])
    wrapped = hypothesis.seed(_seed_for(seed, prop, s.name, shard))(
        settings(max_examples=n, deadline=None, database=None,
                 derandomize=False, phases=phases, print_blob=False,
                 report_multiple_bugs=False,
                 suppress_health_check=[HealthCheck.too_slow,
                                        HealthCheck.data_too_large,
                                        HealthCheck.large_base_example])(
            hypothesis.given(s.strategy)(test)))
    t0 = time.time()
    harness = None
    try:
        wrapped()
    except Found:
        pass
    except HarnessError as e:
        harness = str(e)
    except BaseException as e:  # Flaky, FailedHealthCheck, Unsatisfiable...
        if not (last and "lak" in type(e).__name__):
            harness = "%s: %s\n%s" % (type(e).__name__, e,
                                      traceback.format_exc(limit=-8))
    return {"sub": s.name, "shard": shard, "evaluations": t.evaluations,
            "nontrivial": sorted(x.hex() for x in t.nontrivial),
            "labels": t.labels, "samples": t.samples, "excluded": t.excluded,
            "fail": {k: last[k] for k in ("case", "msg")} if last else None,
            "harness": harness, "wall": time.time() - t0}


def _worker(modname, prop, sub_idx, seed, n, shard, trace, conn):
    try:
        import random
        random.seed(0)
        np.random.seed(0)
        faulthandler.enable()
        s = _REGISTRY[modname][sub_idx]
        conn.send(run_sub(prop, s, seed, n, shard, trace))
    except BaseException as e:
        conn.send({"sub": str(sub_idx), "shard": shard, "evaluations": 0,
                   "nontrivial": [], "labels": {}, "samples": [],
                   "excluded": {}, "fail": None, "wall": 0,
                   "harness": "%s: %s\n%s" % (type(e).__name__, e,
                                              traceback.format_exc())})
    finally:
        conn.close()
        sys.stdout.flush()
        os._exit(0)


def _run_parallel(modname, prop, jobs, seed, limit):
    ctx = mp.get_context("fork")
    workers = int(os.environ.get("VERIF_JOBS") or min(8, os.cpu_count() or 4))
    pending = list(jobs)
    live, results = [], []
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        return _loop(ctx, workers, pending, live, results, t0, tmp, modname,
                     prop, seed, limit)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _loop(ctx, workers, pending, live, results, t0, tmp, modname, prop, seed,
          limit):
    while pending or live:
        while pending and len(live) < workers:
            idx, n, shard = pending.pop(0)
            r, w = ctx.Pipe(duplex=False)
            trace = os.path.join(tmp, "%d-%d" % (idx, shard))
            p = ctx.Process(target=_worker,
                            args=(modname, prop, idx, seed, n, shard, trace,
                                  w))
            p.start()
            w.close()
            live.append((p, r, idx, shard, time.time()))
        ready = mp.connection.wait([x[1] for x in live], timeout=1.0)
        nxt = []
        for p, r, idx, shard, ts in live:
            name = _REGISTRY[modname][idx].name
            base = {"sub": name, "shard": shard, "evaluations": 0,
                    "nontrivial": [], "labels": {}, "samples": [],
                    "excluded": {}, "fail": None, "wall": time.time() - ts}
            if r in ready:
                try:
                    results.append(r.recv())
                except EOFError:
                    p.join(5)
                    results.append(dict(base, **_died(
                        _REGISTRY[modname][idx], p.exitcode,
                        os.path.join(tmp, "%d-%d" % (idx, shard)))))
                p.join(5)
                if p.is_alive():
                    p.kill()
            elif time.time() - t0 > limit:
                p.kill()
                results.append(dict(base, harness="time limit: no verdict"))
            elif _stuck(os.path.join(tmp, "%d-%d" % (idx, shard))):
                p.kill()
                if any(x["fail"] for x in results):
                    continue
                with open(os.path.join(tmp, "%d-%d" % (idx, shard))) as f:
                    case = f.read()
                out = _isolated(_REGISTRY[modname][idx], codec.loads(case),
                                HANG)
                if out is not None and "no answer within" in out[1]:
                    results.append(dict(base, fail={"case": case, "msg": (
                        "does not terminate: %s (twice; cases of this "
                        "sub-check take milliseconds to seconds)" % out[1])}))
                else:
                    results.append(dict(base, harness="slow case, no verdict"))
            else:
                nxt.append((p, r, idx, shard, ts))
        live = nxt
        if any(x["fail"] for x in results) and not os.environ.get("VERIF_ALL"):
            # One reproduction is enough for a verdict; do not start more.
            pending = []
    return results


def _died(s, code, trace):
    """A worker ended without an answer: a crash of the code under test if the
    case it was on crashes again on its own, otherwise no verdict."""
    if code is not None and code < 0 and code != -9 and os.path.exists(trace):
        with open(trace) as f:
            case = f.read()
        try:
            out = _isolated(s, codec.loads(case), HANG)
        except HarnessError as e:
            if "child died" in str(e):
                return {"fail": {"case": case, "msg": (
                    "the process is killed by signal %d (twice)" % -code)}}
            out = None
        if out is not None:
            return {"fail": {"case": case, "msg": out[1]}}
    return {"harness": "worker died (exit code %s)" % code}


def _stuck(trace):
    try:
        return time.time() - os.stat(trace).st_mtime > HANG
    except OSError:
        return False


def load_findings(prop):
    path = os.path.join(VERIF, "known_findings.json")
    with open(path) as f:
        data = json.load(f)
    return [x for x in data["findings"] if x["property"] == prop]


def main(modname, argv):
    """Modules with WARM run those sub-checks on a few cases first, so that
    the worker processes inherit what numba compiled.  This happens in a child
    that is given up (and done without) if it crashes or hangs."""
    mod = importlib.import_module(modname)
    if not getattr(mod, "WARM", ()) or "--replay" in argv:
        return _main(mod, argv)
    for names in (mod.WARM, ()):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            rc = 2
            try:
                _warm(mod, names)
                os.write(w, b"x")
                os.close(w)
                rc = _main(mod, argv)
            except BaseException:
                traceback.print_exc()
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(rc)
        os.close(w)
        ready = select.select([r], [], [], 90)[0] and os.read(r, 1)
        os.close(r)
        if not ready:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            continue
        return os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1]) % 256
    raise HarnessError("cannot start")


def _warm(mod, names):
    for s in _REGISTRY[mod.__name__]:
        if s.name in names:
            try:
                run_sub(mod.PROPERTY, Sub(s.fn, s.strategy, 1, 1, 1, s.name,
                                          False), 0, 20, 0)
            except BaseException:
                pass


def _main(mod, argv):
    t0 = time.time()
    modname, prop = mod.__name__, mod.PROPERTY
    subs = _REGISTRY[modname]
    by_name = {s.name: s for s in subs}
    if len(by_name) != len(subs):
        raise HarnessError("duplicate sub-check names")
    if argv[:1] == ["--replay"]:
        with open(argv[1]) as f:
            rec = json.load(f)
        s = by_name[rec["sub"]]
        r = evaluate(s, codec.dec(rec["case"]), Tracker())
        if r is None:
            print("replay: property=%s sub=%s holds on this case" % (
                prop, s.name))
            return 0
        print(r[1])
        print("VIOLATION property=%s replay=%s" % (prop, argv[1]))
        return 1
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick") or "quick"
    if "--thorough" in argv:
        tier = "thorough"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    only = [a for a in argv if not a.startswith("--")]
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    limit = 800 if tier == "quick" else 6 * 3600
    jobs = []
    for i, s in enumerate(subs):
        if only and s.name not in only:
            continue
        n = s.quick if tier == "quick" else s.thorough
        n = max(1, int(n * scale))
        shards = s.shards if tier == "quick" else max(s.shards, 4)
        for k in range(shards):
            jobs.append((i, max(1, n // shards), k))
    findings = load_findings(prop)
    results = _run_parallel(modname, prop, jobs, seed, limit)
    # Known findings: shown to be still there, each from its recorded case.
    known = []
    if not only:
        for fd in findings:
            s = by_name[fd["sub"]]
            out = _isolated(s, codec.dec(fd["case"]), 120)
            if out is not None:
                known.append(fd)
                print("KNOWN-FINDING: property=%s %s" % (prop, fd["what"]))
            else:
                print("note: known finding %s no longer fails" % fd["id"])
    fails = [r for r in results if r["fail"]]
    harness = [r for r in results if r.get("harness")]
    rc = 0
    for r in fails:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        name = "%s-%s-%d-%d.json" % (prop, r["sub"], seed, r["shard"])
        path = os.path.join(VERIF, "replays", name)
        with open(path, "w") as f:
            json.dump({"property": prop, "sub": r["sub"],
                       "case": json.loads(r["fail"]["case"]),
                       "message": r["fail"]["msg"]}, f, indent=1)
        print("--- %s / %s\n%s\ncase: %s" % (
            prop, r["sub"], r["fail"]["msg"], r["fail"]["case"][:3000]))
        print("VIOLATION property=%s replay=%s" % (
            prop, os.path.relpath(path, VERIF)))
        rc = 1
    if not fails and harness:
        rc = 2
    for r in harness:
        print("HARNESS %s/%s: %s" % (prop, r["sub"], r["harness"]),
              file=sys.stderr)
    nontriv = set()
    per_sub = {}
    for r in results:
        for h in r["nontrivial"]:
            nontriv.add((r["sub"], h))
        d = per_sub.setdefault(r["sub"], {
            "evaluations": 0, "distinct_nontrivial": 0, "labels": {},
            "wall_s": 0.0})
        d["evaluations"] += r["evaluations"]
        d["wall_s"] = round(d["wall_s"] + r["wall"], 2)
        for k, v in r["labels"].items():
            d["labels"][k] = d["labels"].get(k, 0) + v
        for k, v in r["excluded"].items():
            e = d.setdefault("excluded_known_findings", {})
            e[k] = e.get(k, 0) + v
    for name, h in nontriv:
        per_sub[name]["distinct_nontrivial"] += 1
    samples = []
    for r in results:
        for x in r["samples"][:1]:
            if len(samples) < 12:
                samples.append({"sub": r["sub"], "case": x})
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": LEVEL,
        "coverage": {
            "evaluations": sum(r["evaluations"] for r in results),
            "distinct_nontrivial": len(nontriv),
            "rule": mod.RULE,
            "samples": samples,
            "sub_checks": per_sub,
            "known_findings_shown": [k["id"] for k in known],
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(fails),
    }
    if not only:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(evidence, f, indent=1)
    print("%s: %d evaluations, %d distinct non-trivial, %.1fs, rc=%d" % (
        prop, evidence["coverage"]["evaluations"], len(nontriv),
        evidence["wall_s"], rc))
    if os.environ.get("VERIF_STATS"):
        print(json.dumps(per_sub, indent=1))
    return rc


def _isolated(s, case, limit):
    """Evaluate one case in a forked child (it may hang).  None if it holds."""
    ctx = mp.get_context("fork")
    r, w = ctx.Pipe(duplex=False)

    def child():
        try:
            w.send(evaluate(s, case, Tracker()))
        except BaseException as e:
            w.send(("harness", repr(e)))
        os._exit(0)
    p = ctx.Process(target=child)
    p.start()
    w.close()
    out = ("violation", "no answer within %ds" % limit)
    if r.poll(limit):
        try:
            out = r.recv()
        except EOFError:
            out = ("harness", "child died")
    p.kill()
    p.join()
    if out is not None and out[0] == "harness":
        raise HarnessError(out[1])
    return out
