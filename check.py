#!/usr/bin/env python3
"""check.py <property id>|all : decide one property from the current source of /repo."""
import sys
import os
import warnings
warnings.simplefilter('ignore')
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sa import report, ctx          # noqa: E402
from sa.rules import REGISTRY       # noqa: E402


def run(pid):
    meta, rules = REGISTRY[pid]
    return report.main(pid, meta, rules, ctx.Ctx)


if __name__ == '__main__':
    if sys.argv[1:] == ['all']:
        rc = 0
        for pid in sorted(REGISTRY):
            try:
                rc = max(rc, run(pid))
            except Exception:
                import traceback
                traceback.print_exc()
                rc = 3
        sys.exit(rc)
    sys.exit(run(sys.argv[1]))
