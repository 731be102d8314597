#!/usr/bin/env python3
"""Lists the observables for which neither the code nor the reference has anything (possibly a vacuous row)."""
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from sa import report, spec     # noqa: E402
from sa.ctx import Ctx          # noqa: E402
from sa.rules import REGISTRY   # noqa: E402

ctx = Ctx()
for pid in sorted(REGISTRY):
    R = report.Report(pid)
    for f in REGISTRY[pid][1]:
        f(ctx, R, 'quick')
for v in spec.VACUOUS:
    print(*v)
