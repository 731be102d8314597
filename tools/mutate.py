"""Mutation study of the checks: mutate.py FILE [FUNC regex] [--props C01,C02] [--rate 0.3] [--seed 1] [--out FILE]
Changes the syntax tree of one source file at one place at a time, runs the rules on the result and lists what nobody noticed."""
import argparse
import ast
import copy
import os
import random
import re
import shutil
import sys
import tempfile
from multiprocessing import Pool
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

CMP = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Pow: ast.Mult, ast.MatMult: ast.Add, ast.FloorDiv: ast.Mult, ast.Mod: ast.FloorDiv}
SWAP = [('lb', 'ub'), ('lower', 'upper'), ('_x', '_u'), ('_z', '_x'), ('_u', '_z'), ('_p', '_tvp'), ('_tvp', '_p'), ('x0', 'u0'), ('n_x', 'n_z'), ('n_u', 'n_x'), ('n_z', 'n_x'), ('n_y', 'n_x'), ('_rhs', '_alg'),
        ('lam_x', 'lam_g'), ('lam_g', 'lam_x'), ('_w', '_v'), ('_v', '_w'), ('child', 'parent'), ('min', 'max'), ('max', 'min')]


def sites(fn):
    """(description, function applying the change to a fresh copy) for one function; nodes are addressed by walk index"""
    nodes = list(ast.walk(fn))
    skip = set()
    for n in nodes:
        if isinstance(n, ast.Raise):
            for x in ast.walk(n):
                skip.add(x)
        if isinstance(n, ast.Assert) and n.msg is not None:
            for x in ast.walk(n.msg):
                skip.add(x)
        if isinstance(n, ast.Call):
            s = ast.unparse(n.func)
            if s in ('print', 'warnings.warn', 'time.sleep') or s.endswith('.format'):
                for x in ast.walk(n):
                    skip.add(x)
        if isinstance(n, ast.arguments):
            for x in n.args + n.kwonlyargs:
                if x.annotation is not None:
                    skip |= set(ast.walk(x.annotation))
    if fn.returns is not None:
        skip |= set(ast.walk(fn.returns))
    for x in fn.decorator_list:
        skip |= set(ast.walk(x))
    loc = sorted({n.id for n in nodes if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | {a.arg for a in fn.args.args if a.arg != 'self'})
    out = []
    for i, n in enumerate(nodes):
        if n in skip and not isinstance(n, ast.Raise):
            continue

        def add(kind, f, i=i, n=n):
            out.append(('%s@%d' % (kind, getattr(n, 'lineno', 0)), i, f))
        if isinstance(n, ast.Compare) and type(n.ops[0]) in CMP:
            add('cmp', lambda m: m.ops.__setitem__(0, CMP[type(m.ops[0])]()))
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            add('bin', lambda m: setattr(m, 'op', BIN[type(m.op)]()))
            if not isinstance(n.op, (ast.Add, ast.Mult)):
                def sw(m):
                    m.left, m.right = m.right, m.left
                add('swapop', sw)
        if isinstance(n, ast.AugAssign) and type(n.op) in BIN:
            add('aug', lambda m: setattr(m, 'op', BIN[type(m.op)]()))
        if isinstance(n, ast.BoolOp):
            add('bool', lambda m: setattr(m, 'op', ast.Or() if isinstance(m.op, ast.And) else ast.And()))
        if isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool):
                add('flip', lambda m: setattr(m, 'value', not m.value))
            elif isinstance(v, (int, float)):
                add('inc', lambda m: setattr(m, 'value', m.value + 1))
            elif isinstance(v, str):
                for a, b in SWAP:
                    if a in v and len(v) < 30:
                        add('str', lambda m, a=a, b=b: setattr(m, 'value', m.value.replace(a, b)))
                        break
        if isinstance(n, ast.Attribute):
            for a, b in SWAP:
                if a in n.attr:
                    add('attr', lambda m, a=a, b=b: setattr(m, 'attr', m.attr.replace(a, b)))
                    break
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in loc and len(loc) > 1:
            j = loc.index(n.id)
            add('name', lambda m, j=j: setattr(m, 'id', loc[(j + 1) % len(loc)]))
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            add('neg', lambda m: setattr(m, 'test', ast.UnaryOp(ast.Not(), m.test)))
            if isinstance(n, ast.If):
                add('iftrue', lambda m: setattr(m, 'test', ast.Constant(True)))
        if isinstance(n, ast.Call):
            if len(n.args) > 1:
                add('swaparg', lambda m: m.args.__setitem__(slice(0, 2), m.args[1::-1]))
            if len(n.args) > 1:
                add('droparg', lambda m: m.args.pop())
            if n.keywords and n.keywords[-1].arg:
                add('dropkw', lambda m: m.keywords.pop())
        if isinstance(n, (ast.List, ast.Tuple)) and len(n.elts) > 1 and isinstance(n.ctx, ast.Load):
            add('swapel', lambda m: m.elts.__setitem__(slice(0, 2), m.elts[1::-1]))
        if isinstance(n, ast.Slice):
            if n.lower is not None:
                add('slice', lambda m: setattr(m, 'lower', None))
            if n.upper is not None:
                add('slice', lambda m: setattr(m, 'upper', None))
        if isinstance(n, (ast.For, ast.If, ast.While, ast.FunctionDef, ast.With, ast.Try)):
            for f in ('body', 'orelse'):
                for k, s in enumerate(getattr(n, f, [])):
                    if isinstance(s, (ast.Pass, ast.Import, ast.ImportFrom)) or (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                        continue
                    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and ast.unparse(s.value.func) in ('print', 'warnings.warn', 'time.sleep'):
                        continue
                    if isinstance(s, ast.FunctionDef):
                        continue

                    def dele(m, f=f, k=k):
                        getattr(m, f)[k] = ast.Pass()
                    out.append(('del@%d' % s.lineno, i, dele))
                    nx = getattr(n, f)[k + 1:k + 2]
                    w = lambda q: {ast.unparse(x).split('[')[0] for x in ast.walk(q) if isinstance(x, (ast.Name, ast.Attribute, ast.Subscript)) and isinstance(x.ctx, ast.Store)}
                    rd = lambda q: {ast.unparse(x) for x in ast.walk(q) if isinstance(x, (ast.Name, ast.Attribute)) and isinstance(x.ctx, ast.Load)}
                    if nx and not isinstance(nx[0], (ast.FunctionDef, ast.Return)) and not isinstance(s, ast.Return) and (w(s) & (rd(nx[0]) | w(nx[0])) or w(nx[0]) & rd(s)):
                        def swp(m, f=f, k=k):
                            b = getattr(m, f)
                            b[k], b[k + 1] = b[k + 1], b[k]
                        out.append(('order@%d' % s.lineno, i, swp))
    return out


def functions(tree):
    def go(n, pre):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.ClassDef):
                yield from go(c, pre + c.name + '.')
            elif isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                yield pre + c.name, c
    return go(tree, '')


def run(job):
    root, path, src, props = job
    d = tempfile.mkdtemp(prefix='mut', dir='/tmp')
    try:
        shutil.copytree(os.path.join(root, 'do_mpc'), os.path.join(d, 'do_mpc'), ignore=shutil.ignore_patterns('*.pyc', '__pycache__'))
        with open(os.path.join(d, path), 'w') as f:
            f.write(src)
        from sa.ctx import Ctx
        from sa.rules import REGISTRY
        from sa import report
        bad, unk = [], []
        try:
            ctx = Ctx(d)
        except Exception as e:
            return [], ['ctx: %s' % e]
        for p in props:
            R = report.Report(p)
            for f in REGISTRY[p][1]:
                try:
                    f(ctx, R, 'quick')
                except Exception as e:
                    unk.append('%s %s' % (p, e))
            kn = report.known(p)
            if any(s == 'violation' and k not in kn for k, (s, _, _) in R.obl.items()):
                bad.append(p)
                break
            if R.count('undecided'):
                unk.append(p)
        return bad, unk
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('file')
    ap.add_argument('func', nargs='?', default='.')
    ap.add_argument('--props')
    ap.add_argument('--rate', type=float, default=1)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--root', default='/repo')
    ap.add_argument('--kinds')
    a = ap.parse_args()
    from sa.rules import REGISTRY
    props = a.props.split(',') if a.props else sorted(REGISTRY)
    rnd = random.Random(a.seed)
    src = open(os.path.join(a.root, a.file)).read()
    tree = ast.parse(src)
    jobs, meta = [], []
    base = ast.unparse(tree)
    for q, fn in functions(tree):
        if not re.search(a.func, q):
            continue
        for desc, i, f in sites(fn):
            if a.kinds and desc.split('@')[0] not in a.kinds.split(','):
                continue
            if rnd.random() > a.rate:
                continue
            t = copy.deepcopy(tree)
            g = dict((x, y) for x, y in functions(t) if y.lineno == fn.lineno).get(q)
            m = list(ast.walk(g))[i]
            try:
                f(m)
                new = ast.unparse(ast.fix_missing_locations(t))
                compile(new, 'm', 'exec')
            except Exception:
                continue
            if new == base:
                continue
            ch = [(x, y) for x, y in zip(base.splitlines(), new.splitlines()) if x != y][:1]
            jobs.append((a.root, a.file, new, props))
            meta.append((q, desc, ch))
    print('%d mutants' % len(jobs), flush=True)
    tot = {'killed': 0, 'undecided': 0, 'survived': 0}
    import sa.rules     # noqa: F401  loaded once, before the workers fork
    with Pool(8, maxtasksperchild=8) as ex:
        for (q, desc, ch), (bad, unk) in zip(meta, ex.imap(run, jobs, chunksize=1)):
            s = 'killed' if bad else 'undecided' if unk else 'survived'
            tot[s] += 1
            if s != 'killed':
                x, y = ch[0] if ch else ('', '')
                print('%s %s %s %s\n    - %s\n    + %s' % (s.upper(), q, desc, ','.join(u[:60] for u in unk), x.strip()[:200], y.strip()[:200]), flush=True)
    print(tot)


if __name__ == '__main__':
    main()
