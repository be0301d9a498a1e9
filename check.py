#!/usr/bin/env python3
"""check.py <property id>   (VERIF_SEED, VERIF_TIER from the environment)"""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import vf
def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    import checks
    c = vf.Check(pid, tier, seed)
    try:
        try:
            checks.CHECKS[pid](c)
        except vf.Unreadable:
            pass  # recorded as a rejected step
        rc = c.finish()
    except vf.Machinery as e:
        print("ERROR of the check: %s" % e)
        rc = 2
    finally:
        import shutil
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(c.scratch, ignore_errors=True)
    sys.exit(rc)
main()
