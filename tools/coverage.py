"""Functions of the package that no property reads.  Run: python3 tools/coverage.py"""
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
import warnings
warnings.simplefilter('ignore')
from sa import interp, report
from sa.ctx import Ctx
from sa.rules import REGISTRY

seen = {}
now = ['']
orig = interp.Interp.inline


def inline(self, fi, *a, **k):
    seen.setdefault(id(fi.node), set()).add(now[0])
    return orig(self, fi, *a, **k)


interp.Interp.inline = inline
ctx = Ctx()
for p in sorted(REGISTRY):
    if p == 'C29':
        continue
    now[0] = p
    R = report.Report(p)
    for f in REGISTRY[p][1]:
        f(ctx, R, 'quick')
P = ctx.p if hasattr(ctx, 'p') else ctx.project
import ast
for m in sorted(P.mods.values(), key=lambda m: m.name):
    if not m.name.startswith('do_mpc'):
        continue
    for n in ast.walk(m.tree):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and id(n) not in seen:
            print(m.name, n.name, n.lineno, n.end_lineno - n.lineno)
