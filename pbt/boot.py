"""Bootstrap: environment, Hypothesis lookup, and the tslearn under test.

The interpreter is /opt/venv/bin/python (where tslearn's dependencies live).
It has no Hypothesis; the pre-installed verification venv has one for the same
Python version.  A meta-path finder resolves Hypothesis' own top-level modules
(and nothing else) from there, so every other package stays tslearn's own.
"""
import importlib.machinery
import os
import sys

ENV = {
    "PYTHONHASHSEED": "0",
    "PYTHONDONTWRITEBYTECODE": "1",
    "KERAS_BACKEND": "torch",
    "CUDA_VISIBLE_DEVICES": "",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "NUMBA_NUM_THREADS": "2",
    "PYTHONWARNINGS": "ignore",
    "TQDM_DISABLE": "1",
}
PYTHON = "/opt/venv/bin/python"
HYP_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
HYP_NAMES = (
    "hypothesis", "_hypothesis_pytestplugin", "_hypothesis_ftz_detector",
    "_hypothesis_globals", "sortedcontainers",
)


def reexec():
    """Re-execute under the right interpreter with a fixed environment."""
    if os.environ.get("VERIF_BOOTED") == "1":
        return
    env = dict(os.environ)
    env.update(ENV)
    env["VERIF_BOOTED"] = "1"
    env.pop("PYTHONPATH", None)
    src = os.environ.get("TSLEARN_SRC")  # development only: a scratch copy
    if src:
        env["PYTHONPATH"] = src
    os.execve(PYTHON, [PYTHON] + sys.argv, env)


class _HypothesisFinder:
    @classmethod
    def find_spec(cls, name, path=None, target=None):
        if name in HYP_NAMES:
            return importlib.machinery.PathFinder.find_spec(name, [HYP_SITE])
        return None


def install():
    if _HypothesisFinder not in sys.meta_path:
        sys.meta_path.append(_HypothesisFinder)
    import warnings
    warnings.filterwarnings("ignore")
    want = os.path.realpath(os.environ.get("TSLEARN_SRC") or "/repo")
    import tslearn
    got = os.path.realpath(os.path.dirname(os.path.dirname(tslearn.__file__)))
    if got != want:
        raise RuntimeError("tslearn imported from %s, expected %s" % (got, want))
    warnings.filterwarnings("ignore")
