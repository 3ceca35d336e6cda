#!/usr/bin/env python3
"""check.py <property> [--thorough] [--root DIR]: decides one property of /repo's current source."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)


def main():
    args = [a for a in sys.argv[1:]]
    root = '/repo'
    if '--root' in args:
        i = args.index('--root')
        root = args[i + 1]
        del args[i:i + 2]
    tier = 'thorough' if '--thorough' in args or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    args = [a for a in args if not a.startswith('--')]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    from pyan.checks import CHECKS
    from pyan.engine import run_check
    from pyan.src import AnchorError
    rc = 0
    for pid in args or sorted(CHECKS):
        c = CHECKS[pid]
        try:
            rc |= run_check(pid, c['fn'], tier, seed, root, meta=c)
        except AnchorError as e:
            print('%s: analysis broken: %s' % (pid, e))
            return 2
    return rc


if __name__ == '__main__':
    sys.exit(main())
