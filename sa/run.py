"""python3 -m sa.run <PROPERTY>: decides one property on the current source tree."""
from __future__ import annotations

import importlib
import os
import resource
import sys
import time
import traceback

from . import core
from .loader import AnalysisError, Program


def main(argv):
    if argv and argv[0] == "selfcheck":
        Program(core.REPO)
        print("ok")
        return 0
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    sys.setrecursionlimit(20000)
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, resource.RLIM_INFINITY))
    mod = importlib.import_module(f"sa.props.{pid.lower()}")
    rep = core.Report(pid)
    try:
        prog = Program(core.REPO)
        mod.check(prog, rep)
        floor = getattr(mod, "MIN_OBLIGATIONS", 1)
        if len(rep.obs) < floor and not any(o[2] is False for o in rep.obs):
            print(f"ERROR property={pid}: only {len(rep.obs)} obligations found, {floor} expected; "
                  "an anchor of the analysis has vanished")
            return 3
    except AnalysisError as e:
        if any(o[2] is False for o in rep.obs):
            print(f"  (analysis stopped early: {e})")
        else:
            print(f"ERROR property={pid}: {e}")
            return 3
    except Exception:
        traceback.print_exc()
        if not any(o[2] is False for o in rep.obs):
            return 4
    return core.finish(rep, mod.EXPLANATION, t0, tier, seed)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
