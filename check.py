#!/usr/bin/env python3
"""check.py <property id>: decide one property from /repo's current sources"""
import sys, os, importlib, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
if 'PYTHONHASHSEED' not in os.environ:       # same exploration order on every run
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
from sa import ir, report


def main():
    pid = sys.argv[1]
    if len(sys.argv) > 2 and sys.argv[2] in ('quick', 'thorough'):
        os.environ['VERIF_TIER'] = sys.argv[2]
    sys.setrecursionlimit(10000)
    mod = importlib.import_module('checks.' + pid.lower())
    r = report.Report(pid)
    try:
        mod.run(r)
    except ir.Broken as e:
        print('ANALYSIS-BROKEN: %s' % e)
        return 2
    return report.finish(r, getattr(mod, 'LEVEL', 'other'), mod.EXPLANATION)


if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit:
        raise
    except Exception:
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    sys.exit(rc)
