#!/opt/venv/bin/python
"""Usage: check.py <property id> [--tier quick|thorough] [--replay FILE]"""
import argparse
import importlib
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from umon import env


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    a = ap.parse_args()
    env.setup()
    from umon import core
    try:
        import UnarySim.stream, UnarySim.kernel, UnarySim.metric.metric  # noqa
    except BaseException as e:
        import traceback
        traceback.print_exc()
        print("INCONCLUSIVE property=%s the code under test does not import" % a.pid)
        return 2
    mod = importlib.import_module("umon.props." + a.pid.lower())
    return core.run_property(mod, a.tier, a.seed, a.replay)


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)        # no exit handlers: a pool that would not stop must not hold the answer back
