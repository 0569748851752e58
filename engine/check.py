#!/usr/bin/env python3
"""check.py <property> [quick|thorough] : decide one property on /repo's current tree."""
import importlib
import os
import sys
import time

if os.environ.get("PYTHONHASHSEED") != "0":
    # reproducible iteration order
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    import props
    rep = core.Report(prop, tier)
    try:
        s = core.Session()
    except core.factsmod.BuildError as e:
        print("the crate does not compile, no facts: %s" % e)
        return 2
    fn, level, expl = props.get(prop)
    fn(s, rep)
    return core.finish(rep, level, t0, expl)


if __name__ == "__main__":
    sys.exit(main())
