#!/usr/bin/env python3
"""python3 run.py <property> [--tier quick|thorough]: analyses /repo's current source for one property."""
import argparse
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import threading


def go(res):
    from checks import common
    from checks import modules  # noqa: F401
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    a = ap.parse_args()
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    res.append(common.main(a.property, a.tier, seed))


if __name__ == "__main__":
    import resource
    try:
        resource.setrlimit(resource.RLIMIT_STACK, (512 * 1024 * 1024, resource.getrlimit(resource.RLIMIT_STACK)[1]))
    except (ValueError, OSError):
        pass
    r = []
    go(r)
    sys.exit(r[0] if r else 3)
