#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]  - run the check of a property
   check.py --setup                      - build everything once
   check.py --replay FILE                - run a recorded violation again"""
import os, sys, json, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vm import run, ctx as C

def main():
    a = sys.argv[1:]
    if a[0] == "--setup":
        run.build("all"); print("built"); return 0
    if a[0] == "--replay":
        return C.Ctx.replay(a[1])
    pid = a[0]; tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    import importlib
    mod = importlib.import_module("vm.props." + pid.lower())
    c = C.Ctx(pid, tier, seed)
    try:
        run.build(*getattr(mod, "TARGETS", ["sim-mpi"]))
        mod.check(c)
        return c.finish()
    except C.Found:
        c.finish(False); sys.stdout.flush(); os._exit(1)
    except Exception as e:
        if c.viol: return 1     # reported already
        print("BROKEN: " + "".join(traceback.format_exception(type(e), e, e.__traceback__))[-4000:], file=sys.stderr)
        return 2
sys.exit(main())
