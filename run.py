#!/usr/bin/env python3
"""run.py <PROPERTY> [--thorough] [sub ...]  |  run.py <PROPERTY> --replay FILE"""
import glob
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from pbt import boot  # noqa: E402

boot.reexec()


def run():
    prop = sys.argv[1]
    boot.install()
    from pbt import core
    files = glob.glob(os.path.join(HERE, "pbt", "checks",
                                   prop.lower() + "_*.py"))
    if len(files) != 1:
        raise core.HarnessError("no check for %s" % prop)
    name = "pbt.checks." + os.path.basename(files[0])[:-3]
    return core.main(name, sys.argv[2:])


try:
    rc = run()
except Exception:
    import traceback
    traceback.print_exc()
    rc = 2
sys.stdout.flush()
sys.stderr.flush()
os._exit(rc)
