#!/usr/bin/env python3
"""check.py <property-id>: run the static check that decides one property."""
import importlib, os, sys, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)


def main():
    pid = sys.argv[1]
    from tgsa.ir import AnalysisBroken
    try:
        mod = importlib.import_module("checks." + pid.lower())
        return mod.run()
    except AnalysisBroken as e:
        print("ANALYSIS BROKEN property=%s: %s" % (pid, e))
        return 3
    except Exception:
        traceback.print_exc()
        print("CHECK ERROR property=%s" % pid)
        return 4


sys.exit(main())
