#!/opt/venv/bin/python
"""run.py C01 [quick|thorough] | replay FILE | setup | all"""
import os, sys
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, ROOT)
from harness import core

if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "_worker":
        import json
        core.worker(a[1], a[2], int(a[3]), [tuple(t) for t in json.loads(a[4])], a[5], float(a[6]))
        sys.stdout.flush(); os._exit(0)
    if a[0] == "setup":
        from harness import deps
        deps.ensure()
        import hypothesis
        print("hypothesis", hypothesis.__version__)
        sys.exit(0)
    if a[0] == "replay":
        if os.environ.get("VERIF_CHILD") != "1":
            e = core.env(); e["VERIF_CHILD"] = "1"
            os.execve(sys.executable, [sys.executable] + sys.argv, e)
        sys.exit(core.replay(a[1]))
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    for x in a[1:]:
        if x in ("quick", "thorough"): tier = x
        else: only = (only or []) + [x]
    try:
        rc = core.main(a[0].upper(), tier, only)
    except Exception as ex:
        import traceback; traceback.print_exc()
        rc = 2
    sys.exit(rc)
