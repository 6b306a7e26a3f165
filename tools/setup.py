"""Offline set-up check: interpreter, Hypothesis and tslearn can be imported."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from pbt import boot  # noqa: E402

boot.reexec()
boot.install()
import hypothesis  # noqa: E402
import numba  # noqa: E402
import numpy  # noqa: E402
import torch  # noqa: E402

print("python %s, hypothesis %s, numpy %s, numba %s, torch %s" % (
    sys.version.split()[0], hypothesis.__version__, numpy.__version__,
    numba.__version__, torch.__version__))
