#!/usr/bin/env python3
"""run.py --setup | --property Cxx --tier quick|thorough"""
import argparse
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(100000)
import threading
threading.stack_size(512 * 1024 * 1024)


def main():
    a = argparse.ArgumentParser()
    a.add_argument("--setup", action="store_true")
    a.add_argument("--property")
    a.add_argument("--all", action="store_true")
    a.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    o = a.parse_args()
    from az import build
    if o.setup:
        build.azx()
        print(build.program())
        return 0
    from az import registry
    from az.check import Check
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if o.all:
        from az.ir import Program
        prog = Program()
        rc = 0
        for p in sorted(registry.CHECKS):
            c = Check(p, o.tier, seed, prog)
            try:
                registry.runner(p)(c)
                rc |= c.finish()
            except Exception:
                traceback.print_exc()
                print("ERROR", p)
                rc |= 2
        return rc
    c = Check(o.property, o.tier, seed)
    try:
        registry.runner(o.property)(c)
        return c.finish()
    except Exception as e:
        from az.interp import Budget, Unsupported
        from az.ir import Anchor
        lost = isinstance(e, (Budget, Unsupported)) or isinstance(e, Anchor) and c.undecided
        if c.viol or lost:
            # what was found before the analysis lost its way still stands; where it did is undecided
            if lost:
                c.undec("analysis", "%s: %s" % (type(e).__name__, e))
            c.notes.append("analysis incomplete: " + traceback.format_exc(limit=3)[-600:])
            c.need = {}
            return c.finish()
        traceback.print_exc()
        print("analysis error (no verdict)")
        return 3


if __name__ == "__main__":
    rc = [3]
    th = threading.Thread(target=lambda: rc.__setitem__(0, main()))
    th.start()
    th.join()
    sys.stdout.flush()
    os._exit(rc[0])
