#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough] [--only text]: decide one property on /repo's current source."""
import importlib
import os
import sys
import threading

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(60000)
threading.stack_size(512 * 1024 * 1024)


def main(argv, out):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    if "--only" in argv:
        only = argv[argv.index("--only") + 1]
    from vfa.oblig import Check
    mod = importlib.import_module("checks." + pid.lower())
    ck = Check(pid, tier, int(os.environ.get("VERIF_SEED", "1") or 1))
    ck.only = only
    mod.run(ck)
    rc = ck.finish(mod.TECHNIQUE)
    if "-v" in argv:
        for o in ck.obs:
            print("  %-14s %s %s" % (o["status"], o["name"], str(o.get("why", ""))[:200]))
    out.append(rc)


if __name__ == "__main__":
    out = []
    th = threading.Thread(target=main, args=(sys.argv[1:], out))
    th.start()
    th.join()
    sys.stdout.flush()
    os._exit(out[0] if out else 2)
