"""Every name, attribute, flag and argument the code refers to exists (all functions of the package)."""
import ast
import builtins
import re
import string
import symtable
from . import prop
from ..project import dotted
from .spec_rules import ASSUME

MODULE_NAMES = set(dir(builtins)) | {'__file__', '__name__', '__doc__', '__package__', '__path__', '__spec__', '__loader__', '__builtins__', '__class__'}


# ------------------------------------------------------------------ names
def module_names(p, m, seen=None):
    """names a module defines or imports; None if it imports everything of an external module"""
    seen = seen or set()
    if m.name in seen:
        return set()
    seen.add(m.name)
    out, ext = set(), False
    for n in ast.walk(m.tree):
        if isinstance(n, ast.ImportFrom) and any(a.name == '*' for a in n.names):
            base = n.module or ''
            if n.level:
                parts = m.name.split('.')
                parts = parts[:len(parts) - n.level + (1 if m.is_pkg else 0)]
                base = '.'.join(parts + ([n.module] if n.module else []))
            t = p.mods.get(base)
            r = module_names(p, t, seen) if t is not None else None
            if r is None:
                ext = True
            else:
                out |= {x for x in r if not x.startswith('_')}
    top = symtable.symtable(m.src, m.path, 'exec')
    out |= {s.get_name() for s in top.get_symbols() if s.is_assigned() or s.is_imported() or s.is_namespace()}

    def declared(t):
        for s in t.get_symbols():
            if s.is_declared_global() and s.is_assigned():
                out.add(s.get_name())
        for c in t.get_children():
            declared(c)
    declared(top)
    return None if ext else out


def undefined(m, defined):
    """(name, table name, line) of names that are nowhere defined"""
    lines = {}
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            lines.setdefault(n.id, []).append(n.lineno)
    out, count = [], 0

    def go(t):
        nonlocal count
        for s in t.get_symbols():
            if s.is_referenced():
                count += 1
                n = s.get_name()
                glob = s.is_global() or t.get_type() == 'module' or t.get_type() == 'class' and not s.is_assigned() and not s.is_free() and not s.is_imported()
                if t.get_type() == 'module' and (s.is_assigned() or s.is_imported() or s.is_namespace()):
                    continue
                if glob and n not in defined and n not in MODULE_NAMES:
                    out.append((n, t.get_name(), min((x for x in lines.get(n, [0]) if x >= t.get_lineno()), default=0)))
        for c in t.get_children():
            go(c)
    go(symtable.symtable(m.src, m.path, 'exec'))
    return out, count


class Unbound:
    """local names read where no path can have assigned them"""

    def __init__(self, fn, local):
        self.local, self.bad, self.uses = local, {}, 0
        a = fn.args
        start = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
        self.block(fn.body, start)

    def expr(self, e, may):
        """reads of an expression, comprehension variables and nested functions aside"""
        if e is None:
            return
        if isinstance(e, list):
            for x in e:
                self.expr(x, may)
            return
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load) and e.id in self.local:
                self.uses += 1
                if e.id not in may:
                    self.bad.setdefault(e.id, e.lineno)
            return
        if isinstance(e, (ast.Lambda, ast.FunctionDef)):
            self.expr([d for d in e.args.defaults + e.args.kw_defaults if d is not None], may)
            return
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            m = set(may)
            for g in e.generators:
                self.expr(g.iter, m)
                m |= self.targets(g.target)
                self.expr(g.ifs, m)
            self.expr([e.key, e.value] if isinstance(e, ast.DictComp) else e.elt, m)
            return
        if isinstance(e, ast.NamedExpr):
            self.expr(e.value, may)
            may.add(e.target.id)
            return
        for c in ast.iter_child_nodes(e):
            self.expr(c, may)

    @staticmethod
    def targets(t):
        return {x.id for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}

    @staticmethod
    def assigned(body):
        out = set()
        for s in body:
            for x in ast.walk(s):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    out.add(x.id)
                elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                    out.add(x.name)
                elif isinstance(x, ast.ExceptHandler) and x.name:
                    out.add(x.name)
                elif isinstance(x, (ast.Import, ast.ImportFrom)):
                    out |= {(a.asname or a.name).split('.')[0] for a in x.names}
        return out

    def block(self, body, may, inloop=()):
        """may: names possibly assigned; inloop: names later passes of the enclosing loop may have assigned"""
        for s in body:
            if isinstance(s, (ast.If,)):
                self.expr(s.test, may)
                a, b = set(may) | set(inloop), set(may) | set(inloop)
                a, b = self.block(s.body, a), self.block(s.orelse, b)
                may |= a | b
            elif isinstance(s, (ast.For, ast.AsyncFor)):
                self.expr(s.iter, may)
                may |= self.targets(s.target)
                self.expr(s.target, may)
                self.block(s.body, may, self.assigned(s.body))
                self.block(s.orelse, may)
            elif isinstance(s, ast.While):
                self.expr(s.test, may)
                self.block(s.body, may, self.assigned(s.body))
                self.block(s.orelse, may)
            elif isinstance(s, ast.Try):
                pre = set(may) | self.assigned(s.body) | set(inloop)
                self.block(s.body, may, inloop)
                for h in s.handlers:
                    m = set(pre) | ({h.name} if h.name else set())
                    self.expr(h.type, m)
                    may |= self.block(h.body, m)
                self.block(s.orelse, may, inloop)
                may |= pre
                self.block(s.finalbody, may, inloop)
            elif isinstance(s, (ast.With, ast.AsyncWith)):
                for i in s.items:
                    self.expr(i.context_expr, may)
                    if i.optional_vars is not None:
                        may |= self.targets(i.optional_vars)
                self.block(s.body, may, inloop)
            elif isinstance(s, ast.FunctionDef):
                self.expr(s, may)
                may.add(s.name)
            elif isinstance(s, ast.ClassDef):
                may.add(s.name)
            elif isinstance(s, (ast.Import, ast.ImportFrom)):
                may |= self.assigned([s])
            elif isinstance(s, ast.Assign):
                self.expr(s.value, may)
                self.expr(s.targets, may)
                for t in s.targets:
                    may |= self.targets(t)
            elif isinstance(s, ast.AugAssign):
                self.expr(s.value, may)
                if isinstance(s.target, ast.Name):
                    self.expr(ast.copy_location(ast.Name(s.target.id, ast.Load()), s.target), may)
                else:
                    self.expr(s.target, may)
            elif isinstance(s, ast.AnnAssign):
                self.expr(s.value, may)
                if s.value is not None:
                    may |= self.targets(s.target)
            elif isinstance(s, ast.Match):
                may |= self.assigned([s])
            else:
                for c in ast.iter_child_nodes(s):
                    self.expr(c, may)
        return may


def functions(p):
    for m in p.mods.values():
        for n in ast.walk(m.tree):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                yield m, n


def local_names(fn):
    """names of a function that are its own variables"""
    own, outer = set(), set()

    def go(n, top=False):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.Global, ast.Nonlocal)):
                outer.update(c.names)
            elif isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                own.add(c.name)
                continue
            elif isinstance(c, (ast.Lambda, ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                continue
            elif isinstance(c, ast.Name) and isinstance(c.ctx, ast.Store):
                own.add(c.id)
            elif isinstance(c, (ast.Import, ast.ImportFrom)):
                own.update((a.asname or a.name).split('.')[0] for a in c.names)
            elif isinstance(c, ast.ExceptHandler) and c.name:
                own.add(c.name)
            go(c)
    for s in fn.body:
        go(ast.Module([s], []))
    return own - outer


# ------------------------------------------------------------------ attributes
def constants(f, e):
    """strings an expression of the function can be, '*' if unknown"""
    if isinstance(e, ast.Constant):
        return {e.value}
    if isinstance(e, ast.IfExp):
        return constants(f, e.body) | constants(f, e.orelse)
    if isinstance(e, ast.BinOp) or isinstance(e, ast.JoinedStr):
        parts = [e.left, e.right] if isinstance(e, ast.BinOp) else [v if isinstance(v, ast.Constant) else v.value for v in e.values]
        plain = isinstance(e.op, ast.Add) if isinstance(e, ast.BinOp) else all(isinstance(v, ast.Constant) or v.conversion == -1 and v.format_spec is None for v in e.values)
        out = {''}
        for x in parts if plain else ():
            out = {a + str(b) for a in out for b in constants(f, x)}
        return out if plain and not any('*' in x for x in out) and len(out) < 200 else {'*any*'}
    if isinstance(e, ast.Call):
        return {'*any*'}
    if isinstance(e, ast.Name) and not any(x.arg == e.id for x in ast.walk(f) if isinstance(x, ast.arg)):
        vs = []
        for x in ast.walk(f):
            if isinstance(x, ast.Name) and x.id == e.id and isinstance(x.ctx, ast.Store):
                vs.append(x)
        asg = [x.value for x in ast.walk(f) if isinstance(x, ast.Assign) and any(t in vs for t in x.targets)]
        for x in ast.walk(f):
            # for name in ('a', 'b'), for name, value in (('a', 1), ('b', 2))
            if isinstance(x, (ast.For, ast.comprehension)) and isinstance(x.iter, (ast.Tuple, ast.List, ast.Set, ast.Dict)):
                els = x.iter.keys if isinstance(x.iter, ast.Dict) else x.iter.elts
                if x.target in vs and els:
                    asg.append(ast.Tuple(els, ast.Load()))
                elif isinstance(x.target, ast.Tuple):
                    i = next((i for i, t in enumerate(x.target.elts) if t in vs), None)
                    if i is not None and els and all(isinstance(y, (ast.Tuple, ast.List)) and len(y.elts) == len(x.target.elts) for y in els):
                        asg.append(ast.Tuple([y.elts[i] for y in els], ast.Load()))
        if vs and len(asg) == len(vs) and all(not isinstance(v, ast.Name) for v in asg):
            return set().union(*[constants(f, y) for v in asg for y in (v.elts if isinstance(v, ast.Tuple) else [v])])
    return {'*'}


class Members:
    def __init__(self, p):
        self.p, self.memo = p, {}
        self.stored = set()        # attributes stored on anything but the own object
        # names that can be set with setattr come from somewhere
        self.strings = {n.value for m in p.mods.values() for n in ast.walk(m.tree) if isinstance(n, ast.Constant) and isinstance(n.value, str)}
        self.strings |= {n.arg for m in p.mods.values() for n in ast.walk(m.tree) if isinstance(n, ast.keyword) and n.arg}
        self.classes = [c for c in p.classes.values()]
        self.subs = {}
        for c in self.classes:
            for k in p.mro(c):
                if k is not c:
                    self.subs.setdefault(k.qual, []).append(c)
        for m in p.mods.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and not (isinstance(n.value, ast.Name) and n.value.id == 'self'):
                    self.stored.add(n.attr)

    def own(self, c):
        out = set(c.methods) | set(c.props) | set(c.classvars) | set(c.annots)
        for f in self.methods(c):
            me = selfname(f)
            if me is None:
                continue
            for n in ast.walk(f):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == me:
                    out.add(n.attr)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr' and n.args and isinstance(n.args[0], ast.Name) and n.args[0].id == me and len(n.args) > 1:
                    out |= constants(f, n.args[1])
                elif isinstance(n, ast.Attribute) and n.attr == '__dict__' and isinstance(n.value, ast.Name) and n.value.id == me:
                    pass
        if '__getattr__' in c.methods or '__getattribute__' in c.methods:
            out.add('*any*')
        return out

    @staticmethod
    def methods(c):
        return [n for n in c.node.body if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef))]

    def all(self, c):
        """attributes an object of the class (or of a class derived from it) can have; None if unknown"""
        if c.qual not in self.memo:
            out = set()
            ks = list(self.p.mro(c))
            if any(self.p.has_ext_base(k) for k in ks):
                out = None
            else:
                for k in ks + self.subs.get(c.qual, []):
                    for b in self.p.mro(k):
                        out |= self.own(b)
                if '*any*' in out:
                    out = None
            self.memo[c.qual] = out
        return self.memo[c.qual]


def selfname(f):
    if any(isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod') for d in f.decorator_list):
        return None
    a = f.args.posonlyargs + f.args.args
    return a[0].arg if a else None


# ------------------------------------------------------------------ calls
def signature(f, bound):
    a = f.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    nd = len(a.defaults)
    req = pos[:len(pos) - nd] if nd else list(pos)
    if bound:
        pos, req = pos[1:], req[1:]
    kwo = [x.arg for x in a.kwonlyargs]
    req += [k for k, d in zip(kwo, a.kw_defaults) if d is None]
    return pos, kwo, set(req), a.vararg is not None, a.kwarg is not None, {x.arg for x in a.posonlyargs}


def fields(p, c):
    """constructor of a dataclass"""
    pos, req = [], set()
    for k in reversed(list(p.mro(c))):
        if not k.is_dataclass:
            continue
        for n in k.node.body:
            if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and not (dotted(getattr(n.annotation, 'value', n.annotation)) or '').endswith('ClassVar'):
                if isinstance(n.value, ast.Call) and any(w.arg == 'init' for w in n.value.keywords):
                    continue
                if n.target.id not in pos:
                    pos.append(n.target.id)
                has = n.value is not None and not (isinstance(n.value, ast.Call) and (dotted(n.value.func) or '').split('.')[-1] == 'field' and not any(w.arg in ('default', 'default_factory') for w in n.value.keywords))
                (req.discard if has else req.add)(n.target.id)
    return pos, [], req, False, False, set()


def mismatch(sig, call):
    pos, kwo, req, var, kw, ponly = sig
    star = any(isinstance(x, ast.Starred) for x in call.args)
    dstar = any(k.arg is None for k in call.keywords)
    given = [k.arg for k in call.keywords if k.arg is not None]
    n = len([x for x in call.args if not isinstance(x, ast.Starred)])
    if not var and n > len(pos):
        return 'takes at most %d positional arguments, %d given' % (len(pos), n)
    for k in given:
        if not kw and k not in pos and k not in kwo or k in ponly:
            return 'has no argument %s' % k
        if not star and k in pos[:n]:
            return 'gets argument %s twice' % k
    if not star and not dstar:
        miss = sorted(r for r in req if r not in given and r not in pos[:n])
        if miss:
            return 'misses argument %s' % ', '.join(miss)
    return None


@prop('C29', 'Scopes, members and signatures of the whole package collected from the syntax tree; every name, attribute, flag and call resolved against them.', ASSUME, floor=100)
def names(ctx, R, tier):
    p = ctx.p
    R.use('names', 'every name that is read is defined; every local variable can have been assigned where it is read')
    for m in p.mods.values():
        defined = module_names(p, m)
        bad, n = undefined(m, defined) if defined is not None else ([], 0)
        for name, where, line in bad:
            R.bad('%s:%s:%s' % (m.name, where, name), '%s:%d' % (m.rel, line), 'name %s is not defined' % name)
        R.ok('%s:names' % m.name, m.rel, '%d names resolved' % n if defined is not None else 'names imported from an external module are not resolved')
    for m, fn in functions(p):
        u = Unbound(fn, local_names(fn))
        for name, line in u.bad.items():
            R.bad('%s.%s:local %s' % (m.name, fn.name, name), '%s:%d' % (m.rel, line), 'local variable %s is read before it can be assigned' % name)
        if u.uses and not u.bad:
            R.ok('%s.%s@%d:locals' % (m.name, fn.name, fn.lineno), '%s:%d' % (m.rel, fn.lineno), '%d reads of local variables' % u.uses)

    R.use('constructors', 'no initialiser returns a value (this is refused by Python)')
    for c in p.classes.values():
        for f in Members.methods(c):
            if f.name == '__init__':
                bad = [n for n in ast.walk(f) if isinstance(n, ast.Return) and isinstance(n.value, ast.Constant) and n.value.value is not None]
                R.check(not bad, '%s.__init__' % c.qual, '%s:%d' % (c.mod.rel, bad[0].lineno if bad else f.lineno), 'returns a value' if bad else 'returns nothing')

    R.use('members', 'every attribute and flag that is read is assigned by its class; every method that is called exists')
    M, memo = Members(p), {}
    for c in M.classes:
        have = M.all(c)
        if have is None:
            continue
        dyn = '*' in have
        reads = 0
        for f in M.methods(c):
            me = selfname(f)
            if me is None:
                continue
            guarded = {x.args[1].value for x in ast.walk(f) if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('hasattr', 'getattr') and len(x.args) > 1 and isinstance(x.args[1], ast.Constant)}
            rebound = any(isinstance(x, ast.Name) and x.id == me and isinstance(x.ctx, ast.Store) for x in ast.walk(f))
            if rebound:
                continue
            for n in ast.walk(f):
                if not (isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load)):
                    continue
                if isinstance(n.value, ast.Name) and n.value.id == me:
                    reads += 1
                    a = n.attr
                    if a in have or a in guarded or a in M.stored or a.startswith('__') and a.endswith('__'):
                        continue
                    if dyn and a in M.strings:
                        continue
                    R.bad('%s.%s:%s' % (c.qual, f.name, a), '%s:%d' % (c.mod.rel, n.lineno), 'attribute %s is assigned nowhere' % a)
                elif isinstance(n.value, ast.Attribute) and isinstance(n.value.value, ast.Name) and n.value.value.id == me:
                    ts = [t for k in p.mro(c) for t in k.attr_types.get(n.value.attr, ())]
                    stores = memo.get((c.qual, n.value.attr))
                    if stores is None:
                        stores = memo[c.qual, n.value.attr] = [x for k in p.mro(c) for g in M.methods(k) for x in ast.walk(g) if isinstance(x, ast.Attribute) and x.attr == n.value.attr and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name)]
                    if not ts or len(ts) < len(stores):
                        continue
                    hs = [M.all(t) for t in ts]
                    if any(h is None or '*' in h and n.attr in M.strings for h in hs):
                        continue
                    reads += 1
                    a = n.attr
                    if any(a in h for h in hs) or a in M.stored or a.startswith('__') and a.endswith('__'):
                        continue
                    R.bad('%s.%s:%s.%s' % (c.qual, f.name, n.value.attr, a), '%s:%d' % (c.mod.rel, n.lineno), '%s has no attribute %s' % ('/'.join(t.name for t in ts), a))
        if reads:
            R.ok('%s:attributes' % c.qual, c.mod.rel, '%d reads of attributes%s' % (reads, ', others are set dynamically' if dyn else ''))
        flags(p, M, c, R)

    R.use('arguments', 'every call of a function, method or class of the package passes arguments it accepts')
    for m in p.mods.values():
        for scope, cls, fn in scopes(p, m):
            bound = shadowed(fn)
            for call in scope:
                s, name = target(p, m, cls, fn, call, bound)
                if s is None:
                    e, name = builtin(call, m, bound), dotted(call.func)
                    if e is None:
                        e, name = template(fn, call), 'text'
                    if e is None:
                        continue
                else:
                    e = mismatch(s, call)
                w = '%s:%d' % (m.rel, call.lineno)
                if e:
                    R.bad('%s.%s:%s' % (m.name, fn.name if fn else '<module>', name), w, '%s %s' % (name, e))
                else:
                    R.ok('%s.%s:%s@%d' % (m.name, fn.name if fn else '<module>', name, call.lineno), w, 'arguments accepted')


# arguments of built-in functions: fewest, most
BUILTIN = {'isinstance': (2, 2), 'issubclass': (2, 2), 'setattr': (3, 3), 'getattr': (2, 3), 'hasattr': (2, 2), 'len': (1, 1), 'enumerate': (1, 2), 'range': (1, 3), 'abs': (1, 1), 'max': (1, 99), 'min': (1, 99),
           'sum': (1, 2), 'sorted': (1, 1), 'all': (1, 1), 'any': (1, 1), 'float': (0, 1), 'map': (2, 99), 'filter': (2, 2), 'reversed': (1, 1), 'callable': (1, 1), 'type': (1, 3), 'id': (1, 1), 'repr': (1, 1), 'round': (1, 2)}


def builtin(call, m, bound):
    f = call.func
    if not isinstance(f, ast.Name) or f.id not in BUILTIN or f.id in bound or f.id in m.names or any(isinstance(x, ast.Starred) for x in call.args) or any(k.arg is None for k in call.keywords):
        return None
    lo, hi = BUILTIN[f.id]
    n = len(call.args) + len([k for k in call.keywords if k.arg not in ('key', 'default', 'reverse')])
    return '' if lo <= n <= hi else 'takes %d to %d arguments, %d given' % (lo, hi, n)


def template(fn, call):
    """arguments of str.format that a constant template refers to and the call does not give"""
    f = call.func
    if not (isinstance(f, ast.Attribute) and f.attr == 'format') or any(isinstance(x, ast.Starred) for x in call.args) or any(k.arg is None for k in call.keywords):
        return None
    e = f.value
    if isinstance(e, ast.Name) and fn is not None:
        st = [x for x in ast.walk(fn) if isinstance(x, ast.Name) and x.id == e.id and isinstance(x.ctx, ast.Store)]
        vs = [x.value for x in ast.walk(fn) if isinstance(x, ast.Assign) and any(t in st for t in x.targets)]
        if len(vs) != len(st) or not all(isinstance(v, ast.Constant) and isinstance(v.value, str) for v in vs) or not vs:
            return None
        # the nearest assignment before the call
        before = [v for v in vs if v.lineno <= call.lineno]
        if not before:
            return None
        e = max(before, key=lambda v: v.lineno)
        if len(vs) > 1 and any(isinstance(x, (ast.If, ast.For, ast.While, ast.Try)) and any(y is e for y in ast.walk(x)) and not any(y is call for y in ast.walk(x)) for x in ast.walk(fn)):
            return None
    if not (isinstance(e, ast.Constant) and isinstance(e.value, str)):
        return None
    try:
        parts = list(string.Formatter().parse(e.value))
    except ValueError as x:
        return str(x)
    given, auto = {k.arg for k in call.keywords}, 0
    todo = [x for q in parts if q[1] is not None for x in [q[1]] + [y[1] for y in string.Formatter().parse(q[2] or '') if y[1] is not None]]
    for q in todo:
        k = re.split(r'[.\[]', q)[0]
        if k == '':
            k, auto = str(auto), auto + 1
        if k.isdigit() and int(k) >= len(call.args) or not k.isdigit() and k not in given:
            return 'refers to argument %s' % (k if not k.isdigit() else 'number %d' % (int(k) + 1))
    return ''


def flags(p, M, c, R):
    """constant keys of the flags dictionary"""
    stored, loads, whole = set(), [], False
    for k in list(p.mro(c)) + M.subs.get(c.qual, []):
        for b in p.mro(k):
            for f in M.methods(b):
                for n in ast.walk(f):
                    if isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == 'flags' for t in n.targets):
                        if isinstance(n.value, ast.Dict) and all(isinstance(x, ast.Constant) for x in n.value.keys):
                            stored |= {x.value for x in n.value.keys}
                        elif isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id == 'dict' and not n.value.args and all(w.arg for w in n.value.keywords):
                            stored |= {w.arg for w in n.value.keywords}
                        else:
                            return
                    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('update', 'setdefault') and isinstance(n.func.value, ast.Attribute) and n.func.value.attr == 'flags':
                        for a in n.args:
                            if isinstance(a, ast.Dict) and all(isinstance(x, ast.Constant) for x in a.keys):
                                stored |= {x.value for x in a.keys}
                            elif isinstance(a, ast.Constant):
                                stored.add(a.value)
                            else:
                                return
                        stored |= {w.arg for w in n.keywords}
                        if None in stored:
                            return
                    elif isinstance(n, ast.Subscript) and isinstance(n.value, ast.Attribute) and n.value.attr == 'flags':
                        if isinstance(n.ctx, ast.Store):
                            if not isinstance(n.slice, ast.Constant):
                                return
                            stored.add(n.slice.value)
                        elif b is c and isinstance(n.slice, ast.Constant) and isinstance(n.value.value, ast.Name) and n.value.value.id == selfname(f):
                            loads.append((n.slice.value, f.name, n.lineno))
    for key, fn, line in loads:
        if key not in stored:
            R.bad('%s.%s:flags[%s]' % (c.qual, fn, key), '%s:%d' % (c.mod.rel, line), 'flag %r is never set' % (key,))
    if loads and stored:
        R.ok('%s:flags' % c.qual, c.mod.rel, '%d reads of flags' % len(loads))


def scopes(p, m):
    """(calls, class, function) for every function of a module and its own code, nested functions with their outer one"""
    taken = set()

    def calls(n):
        out = []
        for x in ast.walk(n):
            if isinstance(x, ast.Call) and x not in taken:
                taken.add(x)
                out.append(x)
        return out
    for c in p.classes.values():
        if c.mod is m:
            for f in Members.methods(c):
                yield calls(f), c, f
    for f in m.tree.body:
        if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
            yield calls(f), None, f
    yield calls(m.tree), None, None


def shadowed(fn):
    if fn is None:
        return set()
    out = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        elif isinstance(n, ast.arg):
            out.add(n.arg)
        elif isinstance(n, ast.FunctionDef) and n is not fn:
            out.add(n.name)
    return out


def plain(f):
    return not f.decorator_list


def ctor(p, c):
    ks = list(p.mro(c))
    if any(p.has_ext_base(k) for k in ks) or any(d.split('.')[-1] != 'dataclass' for k in ks for d in k.decorators):
        return None
    for k in ks:
        f = k.methods.get('__init__')
        if f is not None:
            return signature(f.node, True) if plain(f.node) else None
        if k.is_dataclass:
            return fields(p, c)
        if '__new__' in k.methods:
            return None
    return [], [], set(), False, False, set()


def target(p, m, cls, fn, call, bound):
    """(signature, name) of the called function of the package, if it is known for certain"""
    f = call.func
    d = dotted(f)
    if d is not None and d.split('.')[0] not in bound:
        r = p.resolve(m, d)
        if r and r[0] == 'func' and plain(r[1].node) and r[1].outer is None and r[1].cls is None:
            return signature(r[1].node, False), d
        if r and r[0] == 'class':
            return ctor(p, r[1]), d
    if isinstance(f, ast.Attribute) and cls is not None and fn is not None:
        me = selfname(fn)
        g = None
        if isinstance(f.value, ast.Name) and f.value.id == me:
            k = cls
            g = p.find_method(cls, f.attr)
            subs = [s for s in p.classes.values() if cls in p.mro(s) and s is not cls]
            if any(f.attr in s.methods for s in subs) or p.has_ext_base(cls):
                return None, None
        elif isinstance(f.value, ast.Attribute) and isinstance(f.value.value, ast.Name) and f.value.value.id == me:
            ts = {t.qual: t for k in p.mro(cls) for t in k.attr_types.get(f.value.attr, ())}
            if len(ts) == 1:
                k = next(iter(ts.values()))
                g = p.find_method(k, f.attr)
                if any(f.attr in s.methods for s in p.classes.values() if k in p.mro(s) and s is not k):
                    return None, None
        elif isinstance(f.value, ast.Name) and f.value.id in local_names(fn):
            fi = p.find_method(cls, fn.name)
            ts = {t.qual: t for t in p.value_types(cls, fi, f.value)} if fi is not None and fi.node is fn else {}
            st = [x for x in ast.walk(fn) if isinstance(x, ast.Name) and x.id == f.value.id and isinstance(x.ctx, ast.Store)]
            if len(ts) == 1 and len(st) == 1:
                k = next(iter(ts.values()))
                g = p.find_method(k, f.attr)
                if p.has_ext_base(k):
                    return None, None
        elif isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super' and not f.value.args:
            g = p.find_method(cls, f.attr, after=cls)
            if p.has_ext_base(cls):
                return None, None
        if g is not None and plain(g.node) and stored_attr(p, cls, f) is False:
            return signature(g.node, True), d or f.attr
    return None, None


def stored_attr(p, cls, f):
    """is the method replaced by an attribute of the same name somewhere?"""
    if not hasattr(p, 'stored_attrs'):
        p.stored_attrs = {n.attr for m in p.mods.values() for n in ast.walk(m.tree) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)}
    return f.attr in p.stored_attrs
