#!/usr/bin/env python3
"""usage: check.py PROPERTY [quick|thorough] - decide one property against /repo's working tree"""
import importlib, os, sys, traceback
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "tools"))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
from vlib import Ctx, Broken
def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    from checks import CHECKS
    spec = CHECKS[pid]
    ctx = Ctx(pid, tier)
    try:
        spec["run"](ctx)
        rc = ctx.finish(spec["level"], spec["rule"], spec.get("assumptions", ()))
    except Broken as e:
        print("CHECK ERROR property=%s: %s" % (pid, e))
        rc = 2
        if ctx.fail:
            rc = ctx.finish(spec["level"], spec["rule"])
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        if os.environ.get("VERIF_KEEP"):
            print("kept", ctx.tmp)
        else:
            ctx.close()
    sys.stdout.flush()
    os._exit(rc)
main()
