#!/usr/bin/env python3-vt
"""Check one property: run.py C01 [--tier quick|thorough] [--only SCENARIO] | run.py --replay FILE"""
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(6000)


def main():
    a = sys.argv[1:]
    if a and a[0] == '--replay':
        from sx import check
        return check.replay(a[1])
    pid = a[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a:
        tier = a[a.index('--tier') + 1]
    only = a[a.index('--only') + 1] if '--only' in a else None
    seed = int(os.environ.get('VERIF_SEED', '1'))
    from sx import check
    return check.run_property(pid, tier, seed, only, '-v' in a)


if __name__ == '__main__':
    sys.exit(main())
