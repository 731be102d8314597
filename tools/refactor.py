#!/usr/bin/env python3
"""Behaviour-preserving rewrites of the whole package, to see that the checks stay quiet.
usage: refactor.py KIND OUTDIR   (writes OUTDIR/do_mpc)   kinds: see KINDS"""
import ast
import os
import shutil
import sys

SRC = os.environ.get('VERIF_REPO', '/repo')


def names(node, ctx=None):
    return {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and (ctx is None or isinstance(n.ctx, ctx))}


def params(fn):
    a = fn.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]


def funcs(tree):
    return [n for n in ast.walk(tree) if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef))]


def top_funcs(tree):
    out = []
    for n in tree.body:
        if isinstance(n, ast.FunctionDef):
            out.append((None, n))
        elif isinstance(n, ast.ClassDef):
            out += [(n, m) for m in n.body if isinstance(m, ast.FunctionDef)]
    return out


def body_start(fn):
    b = fn.body
    return 1 if b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) and isinstance(b[0].value.value, str) else 0


def blocks(fn):
    """all statement lists below fn (not nested functions)"""
    out = []

    def go(n):
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                out.append(b)
                for s in b:
                    if not isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                        go(s)
        for h in getattr(n, 'handlers', []):
            go(h)
    go(fn)
    return out


def local_names(fn):
    loc = set(params(fn))
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            loc.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n is not fn:
            loc.add(n.name)
    return loc


def k_none(tree):
    pass


def k_rename(tree):
    for c, fn in top_funcs(tree):
        loc = local_names(fn) - set(params(fn))
        bad = set()
        for n in ast.walk(fn):
            if isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not fn:
                bad |= set(params(n))
                if isinstance(n, ast.FunctionDef):
                    bad.add(n.name)
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                bad |= set(n.names)
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                bad |= {x.asname or x.name for x in n.names}
            if isinstance(n, ast.ExceptHandler) and n.name:
                bad.add(n.name)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('locals', 'vars', 'eval', 'exec'):
                bad |= loc
        ren = loc - bad
        for n in ast.walk(fn):
            if isinstance(n, ast.Name) and n.id in ren:
                n.id = n.id + '_r'


def k_rettmp(tree):
    for fn in funcs(tree):
        for b in blocks(fn):
            for i, s in reversed(list(enumerate(b))):
                if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, ast.Name):
                    b[i:i + 1] = [ast.Assign([ast.Name('result_', ast.Store())], s.value), ast.Return(ast.Name('result_', ast.Load()))]


def k_invert(tree):
    for n in ast.walk(tree):
        if isinstance(n, ast.If) and n.orelse:
            n.test = ast.UnaryOp(ast.Not(), n.test)
            n.body, n.orelse = n.orelse, n.body


def k_argtmp(tree):
    for fn in funcs(tree):
        k = 0
        for b in blocks(fn):
            for i, s in reversed(list(enumerate(b))):
                v = s.value if isinstance(s, (ast.Assign, ast.Expr, ast.Return)) else None
                if isinstance(v, ast.Call) and v.args and not isinstance(v.args[0], (ast.Name, ast.Constant, ast.Starred, ast.GeneratorExp)):
                    k += 1
                    t = 'tmp%d_' % k
                    b.insert(i, ast.Assign([ast.Name(t, ast.Store())], v.args[0]))
                    v.args[0] = ast.Name(t, ast.Load())


def k_rhstmp(tree):
    """target[...] = expr  ->  value = expr; target[...] = value"""
    for fn in funcs(tree):
        for b in blocks(fn):
            for i, s in reversed(list(enumerate(b))):
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], (ast.Subscript, ast.Attribute)) and not isinstance(s.value, (ast.Name, ast.Constant)):
                    b[i:i + 1] = [ast.Assign([ast.Name('value_', ast.Store())], s.value), ast.Assign(s.targets, ast.Name('value_', ast.Load()))]


def k_augassign(tree):
    class T(ast.NodeTransformer):
        def visit_AugAssign(self, n):
            if isinstance(n.target, ast.Name):
                return ast.Assign([ast.Name(n.target.id, ast.Store())], ast.BinOp(ast.Name(n.target.id, ast.Load()), n.op, n.value))
            return n
    T().visit(tree)


def k_wrap(tree):
    """method body moved to a helper, the method only forwards"""
    for c in [n for n in tree.body if isinstance(n, ast.ClassDef)]:
        new = []
        for m in c.body:
            new.append(m)
            if not isinstance(m, ast.FunctionDef) or m.decorator_list or m.name.startswith('__') or any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(m)):
                continue
            a = m.args
            if a.kwonlyargs or a.posonlyargs or not a.args:
                continue
            h = ast.FunctionDef('_%s_impl' % (c.name.lower() + m.name), ast.arguments([], [ast.arg(x.arg) for x in a.args], a.vararg and ast.arg(a.vararg.arg), [], [], a.kwarg and ast.arg(a.kwarg.arg), []), m.body[body_start(m):] or [ast.Pass()], [], None)
            call = ast.Call(ast.Attribute(ast.Name(a.args[0].arg, ast.Load()), h.name, ast.Load()), [ast.Name(x.arg, ast.Load()) for x in a.args[1:]] + ([ast.Starred(ast.Name(a.vararg.arg, ast.Load()), ast.Load())] if a.vararg else []),
                            [ast.keyword(None, ast.Name(a.kwarg.arg, ast.Load()))] if a.kwarg else [])
            m.body = m.body[:body_start(m)] + [ast.Return(call)]
            new.append(h)
        c.body = new


def k_comp2loop(tree):
    for fn in funcs(tree):
        for b in blocks(fn):
            for i, s in reversed(list(enumerate(b))):
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.ListComp) and len(s.value.generators) == 1:
                    t = s.targets[0].id
                    g = s.value.generators[0]
                    if t in names(s.value) or names(g.target) & (local_names(fn) - names(g.target)):
                        continue
                    others = [n for n in ast.walk(fn) if isinstance(n, ast.Name) and n.id in names(g.target)]
                    inside = {id(n) for n in ast.walk(s.value)}
                    if any(id(n) not in inside for n in others) or set(params(fn)) & names(g.target):
                        continue
                    body = [ast.Expr(ast.Call(ast.Attribute(ast.Name(t, ast.Load()), 'append', ast.Load()), [s.value.elt], []))]
                    for c in reversed(g.ifs):
                        body = [ast.If(c, body, [])]
                    b[i:i + 1] = [ast.Assign([ast.Name(t, ast.Store())], ast.List([], ast.Load())), ast.For(g.target, g.iter, body, [])]


def k_dead(tree):
    for fn in funcs(tree):
        fn.body.insert(body_start(fn), ast.Assign([ast.Name('unused_', ast.Store())], ast.Constant(0)))


def k_deadend(tree):
    for fn in funcs(tree):
        for b in blocks(fn):
            if not isinstance(b[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break)):
                b.append(ast.Pass())
        k = len(fn.body) // 2
        fn.body.insert(max(k, body_start(fn)), ast.Expr(ast.Constant(0)))


def k_ifexp(tree):
    for fn in funcs(tree):
        for b in blocks(fn):
            for i, s in reversed(list(enumerate(b))):
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.IfExp):
                    b[i] = ast.If(s.value.test, [ast.Assign(s.targets, s.value.body)], [ast.Assign(s.targets, s.value.orelse)])


def k_ifstmt(tree):
    """if c: x = a else: x = b  ->  x = a if c else b"""
    for fn in funcs(tree):
        for b in blocks(fn):
            for i, s in enumerate(b):
                if isinstance(s, ast.If) and len(s.body) == len(s.orelse) == 1 and all(isinstance(q, ast.Assign) and len(q.targets) == 1 for q in s.body + s.orelse) and ast.dump(s.body[0].targets[0]) == ast.dump(s.orelse[0].targets[0]):
                    b[i] = ast.Assign(s.body[0].targets, ast.IfExp(s.test, s.body[0].value, s.orelse[0].value))


def k_early(tree):
    for fn in funcs(tree):
        s = fn.body[-1]
        if isinstance(s, ast.If) and not s.orelse:
            fn.body[-1:] = [ast.If(ast.UnaryOp(ast.Not(), s.test), [ast.Return(None)], [])] + s.body


def k_assert(tree):
    for fn in funcs(tree):
        for b in blocks(fn):
            for i, s in enumerate(b):
                if isinstance(s, ast.Assert):
                    b[i] = ast.If(ast.UnaryOp(ast.Not(), s.test), [ast.Raise(ast.Call(ast.Name('AssertionError', ast.Load()), [s.msg] if s.msg else [], []), None)], [])


def k_isinst(tree):
    class T(ast.NodeTransformer):
        def visit_Call(self, n):
            self.generic_visit(n)
            if isinstance(n.func, ast.Name) and n.func.id == 'isinstance' and isinstance(n.args[1], ast.Tuple) and len(n.args[1].elts) > 1:
                return ast.BoolOp(ast.Or(), [ast.Call(n.func, [n.args[0], e], []) for e in n.args[1].elts])
            return n
    T().visit(tree)


def k_while(tree):
    for fn in funcs(tree):
        for b in blocks(fn):
            for i, s in reversed(list(enumerate(b))):
                if (isinstance(s, ast.For) and isinstance(s.target, ast.Name) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == 'range' and len(s.iter.args) == 1
                        and not s.orelse and not any(isinstance(x, (ast.Continue, ast.Break)) for x in ast.walk(s)) and s.target.id not in set().union(*[names(x, ast.Store) for x in s.body])):
                    k = s.target.id
                    b[i:i + 1] = [ast.Assign([ast.Name(k, ast.Store())], ast.Constant(0)),
                                  ast.While(ast.Compare(ast.Name(k, ast.Load()), [ast.Lt()], [s.iter.args[0]]), s.body + [ast.Assign([ast.Name(k, ast.Store())], ast.BinOp(ast.Name(k, ast.Load()), ast.Add(), ast.Constant(1)))], [])]


def k_enumerate(tree):
    """for x in it  ->  for i_, x in enumerate(it)"""
    for fn in funcs(tree):
        for n in ast.walk(fn):
            if isinstance(n, ast.For) and not (isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id in ('enumerate', 'zip', 'tqdm')):
                n.iter = ast.Call(ast.Name('enumerate', ast.Load()), [n.iter], [])
                n.target = ast.Tuple([ast.Name('pos_', ast.Store()), n.target], ast.Store())


def k_swap(tree):
    """swap neighbouring independent simple assignments"""
    def pure(e):
        return not any(isinstance(x, (ast.Call, ast.Await, ast.Yield)) for x in ast.walk(e))
    for fn in funcs(tree):
        for b in blocks(fn):
            i = 0
            while i + 1 < len(b):
                s, t = b[i], b[i + 1]
                if all(isinstance(q, ast.Assign) and len(q.targets) == 1 and isinstance(q.targets[0], ast.Name) and pure(q.value) for q in (s, t)):
                    if not ({s.targets[0].id} & names(t) or {t.targets[0].id} & names(s)):
                        b[i], b[i + 1] = t, s
                        i += 1
                elif all(isinstance(q, ast.Assign) and len(q.targets) == 1 and isinstance(q.targets[0], ast.Attribute) and isinstance(q.targets[0].value, ast.Name) and isinstance(q.value, ast.Constant) for q in (s, t)) and s.targets[0].attr != t.targets[0].attr:
                    b[i], b[i + 1] = t, s
                    i += 1
                i += 1


def k_helper(tree):
    """every call expression assigned to something is computed by a new method"""
    for c in [n for n in tree.body if isinstance(n, ast.ClassDef)]:
        new = []
        for m in c.body:
            new.append(m)
            if not isinstance(m, ast.FunctionDef) or m.decorator_list or not m.args.args:
                continue
            slf = m.args.args[0].arg
            loc = local_names(m)
            nested = {x for n in ast.walk(m) if isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not m for x in names(n)}
            k = 0
            for b in blocks(m):
                for s in b:
                    if isinstance(s, ast.Assign) and isinstance(s.value, (ast.Call, ast.BinOp, ast.Subscript)) and any(isinstance(x, (ast.Call, ast.BinOp)) for x in ast.walk(s.value)):
                        if any(isinstance(x, (ast.Lambda, ast.Await, ast.Yield)) or isinstance(x, ast.Name) and x.id == 'super' for x in ast.walk(s.value)):
                            continue
                        bound = {x for g in ast.walk(s.value) if isinstance(g, ast.comprehension) for x in names(g.target)}
                        args = sorted((names(s.value) & loc) - {slf} - bound)
                        k += 1
                        nm = '_%s_part%d' % ((c.name.lower() + m.name), k)
                        new.append(ast.FunctionDef(nm, ast.arguments([], [ast.arg(slf)] + [ast.arg(x) for x in args], None, [], [], None, []), [ast.Return(s.value)], [], None))
                        s.value = ast.Call(ast.Attribute(ast.Name(slf, ast.Load()), nm, ast.Load()), [ast.Name(x, ast.Load()) for x in args], [])
        c.body = new


def k_loophelper(tree):
    """loop bodies without local results become methods"""
    for c in [n for n in tree.body if isinstance(n, ast.ClassDef)]:
        new = []
        for m in c.body:
            new.append(m)
            if not isinstance(m, ast.FunctionDef) or m.decorator_list or not m.args.args:
                continue
            slf = m.args.args[0].arg
            loc = local_names(m)
            k = 0
            for b in blocks(m):
                for s in b:
                    if isinstance(s, ast.For):
                        st = set().union(*[names(x, ast.Store) for x in s.body])
                        if st or any(isinstance(x, (ast.Continue, ast.Break, ast.Return, ast.Lambda, ast.Yield, ast.Await, ast.FunctionDef, ast.AugAssign)) or isinstance(x, ast.Name) and x.id == 'super' for y in s.body for x in ast.walk(y)):
                            continue
                        args = sorted((set().union(*[names(x) for x in s.body]) & loc) - {slf})
                        k += 1
                        nm = '_%s_each%d' % ((c.name.lower() + m.name), k)
                        new.append(ast.FunctionDef(nm, ast.arguments([], [ast.arg(slf)] + [ast.arg(x) for x in args], None, [], [], None, []), s.body, [], None))
                        s.body = [ast.Expr(ast.Call(ast.Attribute(ast.Name(slf, ast.Load()), nm, ast.Load()), [ast.Name(x, ast.Load()) for x in args], []))]
        c.body = new


def k_block(tree):
    """every if-branch without local results becomes a method"""
    for c in [n for n in tree.body if isinstance(n, ast.ClassDef)]:
        new = []
        for m in c.body:
            new.append(m)
            if not isinstance(m, ast.FunctionDef) or m.decorator_list or not m.args.args:
                continue
            slf = m.args.args[0].arg
            loc = local_names(m)
            k = 0
            for b in blocks(m):
                for s in b:
                    if isinstance(s, ast.If) and len(s.body) > 1:
                        st = set().union(*[names(x, ast.Store) for x in s.body])
                        if st or any(isinstance(x, (ast.Continue, ast.Break, ast.Return, ast.Lambda, ast.Yield, ast.Await, ast.FunctionDef)) or isinstance(x, ast.Name) and x.id == 'super' for y in s.body for x in ast.walk(y)):
                            continue
                        args = sorted((set().union(*[names(x) for x in s.body]) & loc) - {slf})
                        k += 1
                        nm = '_%s_case%d' % ((c.name.lower() + m.name), k)
                        new.append(ast.FunctionDef(nm, ast.arguments([], [ast.arg(slf)] + [ast.arg(x) for x in args], None, [], [], None, []), s.body, [], None))
                        s.body = [ast.Expr(ast.Call(ast.Attribute(ast.Name(slf, ast.Load()), nm, ast.Load()), [ast.Name(x, ast.Load()) for x in args], []))]
        c.body = new


def k_selftmp(tree):
    """self.settings / self.model read once into a local"""
    for c, fn in top_funcs(tree):
        if c is None or not fn.args.args:
            continue
        slf = fn.args.args[0].arg
        for at in ('settings', 'model'):
            hits = [n for n in ast.walk(fn) if isinstance(n, ast.Attribute) and n.attr == at and isinstance(n.value, ast.Name) and n.value.id == slf]
            if len(hits) < 2 or not all(isinstance(n.ctx, ast.Load) for n in hits) or fn.name == '__init__' or any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'hasattr' for x in ast.walk(fn)):
                continue

            class T(ast.NodeTransformer):
                def visit_Attribute(self, n):
                    self.generic_visit(n)
                    if n.attr == at and isinstance(n.value, ast.Name) and n.value.id == slf:
                        return ast.Name(at + '_l', ast.Load())
                    return n
            T().visit(fn)
            fn.body.insert(body_start(fn), ast.Assign([ast.Name(at + '_l', ast.Store())], ast.Attribute(ast.Name(slf, ast.Load()), at, ast.Load())))


def k_notcmp(tree):
    """a == b in conditions -> not (a != b)"""
    class T(ast.NodeTransformer):
        def visit_Compare(self, n):
            self.generic_visit(n)
            if len(n.ops) == 1 and isinstance(n.ops[0], ast.Is):
                return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [ast.IsNot()], n.comparators))
            if len(n.ops) == 1 and isinstance(n.ops[0], ast.In):
                return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [ast.NotIn()], n.comparators))
            if len(n.ops) == 1 and isinstance(n.ops[0], (ast.Lt, ast.Gt, ast.LtE, ast.GtE)):
                inv = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}[type(n.ops[0])]
                return ast.Compare(n.comparators[0], [inv()], [n.left])
            return n
    T().visit(tree)


def k_splitand(tree):
    """if a and b: (no else) -> if a: if b:"""
    class T(ast.NodeTransformer):
        def visit_If(self, n):
            self.generic_visit(n)
            if not n.orelse and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And):
                b = n.body
                for v in reversed(n.test.values):
                    b = [ast.If(v, b, [])]
                return b[0]
            return n
    T().visit(tree)


def k_updatekw(tree):
    """x.update(a=1, b=2) as two updates"""
    for fn in funcs(tree):
        for b in blocks(fn):
            for i, s in reversed(list(enumerate(b))):
                if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr == 'update' and len(s.value.keywords) > 1 and not s.value.args:
                    b[i:i + 1] = [ast.Expr(ast.Call(s.value.func, [], [k])) for k in s.value.keywords]


def k_unpack(tree):
    """a, b = f() -> r = f(); a = r[0]; b = r[1]"""
    for fn in funcs(tree):
        for b in blocks(fn):
            for i, s in reversed(list(enumerate(b))):
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and isinstance(s.value, ast.Call) and not any(isinstance(x, ast.Starred) for x in s.targets[0].elts):
                    nm = 'res_'
                    b[i:i + 1] = [ast.Assign([ast.Name(nm, ast.Store())], s.value)] + [ast.Assign([t], ast.Subscript(ast.Name(nm, ast.Load()), ast.Constant(j), ast.Load())) for j, t in enumerate(s.targets[0].elts)]


def k_paren(tree):
    """a*b -> b*a for numbers times expression is not safe in general; only k+1 -> 1+k"""
    class T(ast.NodeTransformer):
        def visit_BinOp(self, n):
            self.generic_visit(n)
            if isinstance(n.op, ast.Add) and isinstance(n.right, ast.Constant) and isinstance(n.right.value, int):
                return ast.BinOp(n.right, ast.Add(), n.left)
            return n
    T().visit(tree)


KINDS = {k[2:]: v for k, v in list(globals().items()) if k.startswith('k_')}


def run(kind, out, only=None):
    dst = os.path.join(out, 'do_mpc')
    if os.path.exists(dst):
        shutil.rmtree(dst)
    for root, dirs, files in os.walk(os.path.join(SRC, 'do_mpc')):
        dirs[:] = [d for d in dirs if d != '__pycache__']
        for f in files:
            if not f.endswith('.py'):
                continue
            p = os.path.join(root, f)
            q = os.path.join(dst, os.path.relpath(p, os.path.join(SRC, 'do_mpc')))
            os.makedirs(os.path.dirname(q), exist_ok=True)
            tree = ast.parse(open(p).read())
            for k in kind.split('+'):
                KINDS[k](tree)
            ast.fix_missing_locations(tree)
            open(q, 'w').write(ast.unparse(tree) + '\n')


if __name__ == '__main__':
    if len(sys.argv) < 3:
        print(*KINDS)
    else:
        run(sys.argv[1], sys.argv[2])
