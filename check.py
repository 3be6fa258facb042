#!/usr/bin/env python3
"""check.py <property id> [quick|thorough]: analyse /repo's current tree for one property."""
import os, sys, importlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    from rhsa import report, build
    rule = importlib.import_module('rhsa.rules.' + pid.lower())
    return report.run(pid, tier, rule, build.load)


if __name__ == '__main__':
    if os.environ.get('PYTHONHASHSEED') != '0':
        os.environ['PYTHONHASHSEED'] = '0'      # same iteration order on every run
        os.execv(sys.executable, [sys.executable, os.path.abspath(__file__)] + sys.argv[1:])
    if len(sys.argv) > 1 and sys.argv[1] == '--all':
        import subprocess
        rc = 0
        ids = sorted(f[:-3].upper() for f in os.listdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'rhsa', 'rules')) if f[0] == 'c' and f.endswith('.py') and f[1:-3].isdigit())
        for i in sys.argv[2:] or ids:
            rc |= subprocess.call([sys.executable, os.path.abspath(__file__), i])
        sys.exit(rc)
    sys.exit(main())
