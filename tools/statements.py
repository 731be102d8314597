"""Statements of the package that no property interprets (dead under the assumptions of the checks).  Run: python3 tools/statements.py"""
import ast
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
import warnings
warnings.simplefilter('ignore')
from sa import interp, report
from sa.ctx import Ctx
from sa.rules import REGISTRY

seen, entered = set(), set()
block, inline = interp.Interp.block, interp.Interp.inline
for k in dir(interp.Interp):
    if k.startswith('s_'):
        def wrap(f):
            def g(self, s, *a, **kw):
                seen.add(id(s))
                return f(self, s, *a, **kw)
            return g
        setattr(interp.Interp, k, wrap(getattr(interp.Interp, k)))


def inl(self, fi, *a, **k):
    entered.add(id(fi.node))
    return inline(self, fi, *a, **k)


interp.Interp.inline = inl
ctx = Ctx()
for p in sorted(REGISTRY):
    if p in ('C29', 'C30'):
        continue
    R = report.Report(p)
    for f in REGISTRY[p][1]:
        f(ctx, R, 'quick')
for m in sorted(ctx.p.mods.values(), key=lambda m: m.name):
    if not m.name.startswith('do_mpc'):
        continue
    for fn in ast.walk(m.tree):
        if isinstance(fn, ast.FunctionDef) and id(fn) in entered:
            for n in ast.walk(fn):
                if isinstance(n, ast.stmt) and n is not fn and id(n) not in seen and not isinstance(n, (ast.Pass, ast.FunctionDef)):
                    if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                        continue
                    print('%s:%d %s: %s' % (m.rel, n.lineno, fn.name, ast.unparse(n).split('\n')[0][:100]))
