#!/usr/bin/env python3-vt
"""usage: run.py <property> quick|thorough   — decide one property on /repo's working tree"""
import sys, os, importlib, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)


def main():
    if sys.argv[1] == '--setup':
        for d in ('evidence', 'replays'): os.makedirs(os.path.join(os.path.dirname(os.path.abspath(__file__)), d), exist_ok=True)
        return 0
    from vv.check import Check
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    chk = Check(pid, tier, seed)
    m = importlib.import_module('props.' + pid.lower())
    m.setup(chk)
    return chk.run()

if __name__ == '__main__': sys.exit(main())
