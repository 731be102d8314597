"""Objects, arguments and results do not share memory: effect and alias analysis of the whole package."""
import ast
import json
import os
from . import prop
from ..project import dotted
from ..terms import mk, Term, show
from ..alg import method
from ..ctx import Run, entry_args
from ..interp import DeadPath
from .spec_rules import ASSUME

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'names.json')) as _f:
    TABLE = json.load(_f)
MUT = {'append', 'extend', 'insert', 'remove', 'pop', 'popitem', 'clear', 'update', 'setdefault', 'sort', 'reverse', 'add', 'discard', 'fill', 'resize', 'put', 'itemset',
       'difference_update', 'intersection_update', 'symmetric_difference_update', 'move_to_end', 'appendleft', 'partial_fit', 'set', 'erase', 'remove_rows'}
# numpy/random functions changing their first argument
MUTF = {'numpy.copyto', 'numpy.put', 'numpy.place', 'numpy.putmask', 'numpy.fill_diagonal', 'numpy.random.shuffle', 'random.shuffle', 'builtins.setattr', 'builtins.delattr',
        'operator.setitem', 'operator.iadd', 'heapq.heappush', 'heapq.heapify'}
# what an operation is documented to enter into the objects it is given: (class, attribute)
GIVEN = {('RTServer', 'variable'), ('RTClient', 'variable')}
# what is registered at or drawn into another object by documentation: (class, attribute)
REGISTERED = {('RTBase', 'namespace'), ('RTClient', 'namespace')}
# states of the process
PROCESS = {'os.chdir', 'os.putenv', 'os.unsetenv', 'os.umask', 'os.nice', 'os.setuid', 'os.setgid', 'numpy.seterr', 'numpy.random.seed', 'random.seed', 'numpy.set_printoptions', 'numpy.seterrcall',
           'warnings.simplefilter', 'warnings.filterwarnings', 'warnings.resetwarnings', 'locale.setlocale', 'sys.setrecursionlimit', 'sys.setswitchinterval', 'signal.signal', 'logging.disable',
           'logging.basicConfig', 'gc.disable', 'socket.setdefaulttimeout', 'matplotlib.use', 'matplotlib.rc', 'matplotlib.pyplot.rc', 'matplotlib.pyplot.switch_backend', 'decimal.setcontext',
           'builtins.exit', 'sys.exit', 'os._exit', 'os.abort', 'casadi.GlobalOptions.setMaxNumDir', 'casadi.GlobalOptions.setTypeinfo'}


STRUCTS = {'_x', '_u', '_z', '_p', '_tvp', '_y', '_w', '_v', '_aux', 'x', 'u', 'z', 'p', 'tvp', 'y', 'w', 'v', 'aux', '_p_est', '_p_set', '_x_est'}


def roots(t):
    """parameters whose object (or a part of it) is denoted by the term"""
    if t.op in ('attr', 'meth', 'getattr', 'bound', 'item'):
        return roots(t.args[0])
    if t.op == 'ver':
        return roots(t.args[0])
    if t.op == 'ite':
        return roots(t.args[1]) | roots(t.args[2])
    if t.op == 'sym':
        return {t}
    return set()


# functions of the libraries whose result shares memory with the operand
VIEW = {'numpy.asarray', 'numpy.asanyarray', 'numpy.atleast_1d', 'numpy.atleast_2d', 'numpy.reshape', 'numpy.ravel', 'numpy.squeeze', 'numpy.transpose'}
VIEWM = {'reshape', 'ravel', 'squeeze', 'transpose', 'view', 'swapaxes'}


def memory(t, ret):
    """parameters whose memory the value of the term shares; a casadi structure made of a vector shares it"""
    if t.op in ('item', 'ver') or t.op == 'attr' and t.args[1] in ('cat', 'master', 'T'):
        return memory(t.args[0], ret)
    if t.op == 'ite':
        return memory(t.args[1], ret) | memory(t.args[2], ret)
    if t.op == 'sym':
        return {t.args[0]}
    if t.op == 'call':
        f, pos, kw = t.args
        m = method(t)
        if m and m[1] in VIEWM:
            return memory(m[0], ret)
        given = ret(t)
        if given is not None:
            return {x for v in given for x in memory(v, ret)}
        if f.op == 'glob':
            return memory(pos[0], ret) if f.args[0] in VIEW and pos else set()
        if len(pos) == 1 and not kw and (f.op == 'sym' or f.op in ('attr', 'meth', 'bound') and f.args[1] in STRUCTS):
            return memory(pos[0], ret)
    return set()


def self_path(t):
    """attributes leading from self to the object, with [] for elements"""
    path = []
    while True:
        if t.op in ('attr', 'meth', 'getattr', 'bound'):
            path.append(t.args[1] if not isinstance(t.args[1], Term) else show(t.args[1]))
            t = t.args[0]
        elif t.op == 'item':
            path.append('[]')
            t = t.args[0]
        elif t.op == 'ver':
            t = t.args[0]
        elif t.op == 'obj':
            p = t.args[0].split('.')
            return tuple(p[1:]) + tuple(reversed(path)) if p[0] == 'self' and '#' not in t.args[0] else None
        else:
            return None


def mutations(e):
    """(object changed in place, what is changed)"""
    if e.kind == 'setattr':
        yield e.base, str(e.key)
    elif e.kind == 'setitem':
        yield e.base, '[...]'
    elif e.kind == 'call' and e.result is not None and e.result.op == 'call':
        m = method(e.result)
        if m and m[1] in MUT:
            yield m[0], m[1] + '()'
        f = e.result.args[0]
        if f.op == 'glob' and f.args[0] in MUTF and e.result.args[1]:
            yield e.result.args[1][0], f.args[0]


def runs(ctx):
    """interpretation of every function of the package with arbitrary arguments"""
    for f in ctx.p.funcs:
        if f.outer is not None or not f.mod.name.startswith('do_mpc'):
            continue
        args = [mk('sym', a.arg) for a in f.node.args.posonlyargs + f.node.args.args]
        try:
            if f.cls is not None:
                r = ctx.run_fi(f.cls.qual, f, args=args[1:] if 'staticmethod' not in f.decorators else args)
            else:
                r = run_function(ctx, f, args)
        except Exception as e:
            if os.environ.get('SA_DEBUG'):
                raise
            yield f, None, '%s: %s' % (type(e).__name__, str(e)[:100])
            continue
        yield f, r, None


def run_function(ctx, f, args):
    it, st = ctx.interp(None, None, None)
    it.entry = True
    try:
        r = it.inline(f, entry_args(f.node.args, args, {}), {}, st, None)
    except DeadPath:
        r = None
    return Run(it, st, None, it.freeze(r, st) if r is not None else None)


def public(f):
    """part of the interface: helpers that are new in the analysed tree are judged by their callers"""
    n = f.name
    return n in TABLE.get(f.cls.qual if f.cls is not None else f.mod.name, ()) and (not n.startswith('_') or n.startswith('__') and n.endswith('__')) and not (f.cls is not None and f.cls.name.startswith('_'))


def own_dict(f, q):
    """the dictionary of keyword arguments belongs to the call"""
    return f.node.args.kwarg is not None and q.args[0] in ('kwargs', f.node.args.kwarg.arg)


def effect(f, cls, obj, what, loc, eff, changed):
    """record a change of obj made by f"""
    for q in roots(obj):
        if own_dict(f, q) and obj is q or (cls, what) in GIVEN:
            continue
        eff[f].setdefault(q.args[0], (loc, '%s %s' % (show(obj)[:120], what)))
    p = self_path(obj)
    if p and cls is not None:
        changed.setdefault((f.cls, p[0]), (loc, '%s changes %s in place' % (f.name, '.'.join(p))))


def arrays(f, q):
    """the parameter is declared to be an array, or one of arbitrary many operands"""
    a = f.node.args
    if a.vararg is not None and a.vararg.arg == q:
        return True
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        if x.arg == q and x.annotation is not None:
            return any(k in ast.unparse(x.annotation) for k in ('ndarray', 'DM', 'List', 'list', 'Dict', 'dict', 'struct', 'Struct'))
    return False


def augmented(f):
    """augmented assignments to a name that denotes (an element of) an array parameter"""
    src = {}
    for n in ast.walk(f.node):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                for x in ast.walk(t):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        src.setdefault(x.id, []).append(n.value if x is t else None)
        elif isinstance(n, ast.For):
            for x in ast.walk(n.target):
                if isinstance(x, ast.Name):
                    src.setdefault(x.id, []).append(n.iter if x is n.target else None)
    for n in ast.walk(f.node):
        if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
            for v in src.get(n.target.id, ()):
                while isinstance(v, ast.Subscript):
                    v = v.value
                if isinstance(v, ast.Name) and v.id not in src and arrays(f, v.id):
                    yield v.id, n.lineno


def callee_of(ctx, f, t):
    """method of the same object that is called and not part of the interpretation"""
    m = method(t)
    if m and self_path(m[0]) == ():
        return ctx.p.find_method(f.cls, m[1])
    return None


@prop('C30', 'Effect and alias analysis of all functions: objects changed in place are traced to parameters, attributes, defaults, class and module variables.', ASSUME, floor=250)
def shared(ctx, R, tier):
    R.use('arguments', 'no public operation changes an object it was given, or a part of it')
    kept, keeps, changed, eff, calls, info = {}, {}, {}, {}, [], []
    stored, rets = [], {}
    for f, r, err in runs(ctx):
        name = f.qual.split('do_mpc.', 1)[-1]
        if err is not None:
            R.unk(name, f.loc, 'not readable: ' + err)
            continue
        cls = f.cls.name if f.cls is not None else None
        info.append((name, f))
        eff.setdefault(f, {})
        rets[f] = r.ret
        for q, line in augmented(f):
            eff[f].setdefault(q, ('%s:%d' % (f.mod.rel, line), 'an augmented assignment changes the array'))
        for e in r.events:
            if e.kind == 'aug' and any(arrays(f, q.args[0]) for q in roots(e.base)):
                effect(f, cls, e.base, 'changed by an augmented assignment', e.loc, eff, changed)
            for obj, what in mutations(e):
                effect(f, cls, obj, what, e.loc, eff, changed)
            if e.kind == 'call' and cls is not None and e.result is not None and e.result.op == 'call':
                g = callee_of(ctx, f, e.result)
                if g is not None:
                    calls.append((f, cls, g, e.result, e.loc))
            if e.kind == 'setattr' and cls is not None:
                p = self_path(e.base)
                if p == () or p is not None and len(p) == 1 and str(e.key) == 'master':
                    stored.append((f, p[0] if p else str(e.key), e.value, e.loc))
            if e.kind == 'setattr' and cls is not None and self_path(e.base) == ():
                for q in roots(e.value):
                    keeps.setdefault(f, {}).setdefault((f.cls, str(e.key), q.args[0]), (e.loc, show(e.value)[:80]))
    for _ in range(len(eff)):
        n = sum(map(len, eff.values())) + len(changed) + sum(map(len, keeps.values()))
        for f, cls, g, t, loc in calls:
            par = [a.arg for a in g.node.args.posonlyargs + g.node.args.args][0 if 'staticmethod' in g.decorators else 1:]
            given = dict(zip(par, t.args[1]))
            given.update({k: v for k, v in t.args[2] if isinstance(k, str)})
            for q in list(eff.get(g, ())):
                if isinstance(given.get(q), Term):
                    effect(f, cls, given[q], 'in ' + g.name, loc, eff, changed)
            for (c, a, q), why in list(keeps.get(g, {}).items()) if not public(g) else ():
                # a private method keeps what its callers give it
                for x in roots(given[q]) if isinstance(given.get(q), Term) else ():
                    keeps.setdefault(f, {}).setdefault((c, a, x.args[0]), (loc, show(given[q])[:80]))
        if n == sum(map(len, eff.values())) + len(changed) + sum(map(len, keeps.values())):
            break
    for f, d in keeps.items():
        for (c, a, q), (loc, what) in d.items():
            if public(f):
                kept.setdefault((c, a), []).append((f, loc, what))
    for name, f in info:
        if not public(f):
            continue
        for q, (loc, why) in sorted(eff[f].items()):
            R.bad(name, loc, 'changes its argument %s: %s' % (q, why))
            break
        else:
            R.ok(name, f.loc, 'changes none of its arguments')
    R.use('kept', 'what an object keeps of its arguments is never changed in place')
    for (c, a), where in sorted(kept.items(), key=lambda x: (x[0][0].qual, x[0][1])):
        fam = [x for x in ctx.p.classes.values() if c in ctx.p.mro(x)]
        fam += [x for x in ctx.p.mro(c) if x not in fam]
        hit = next((changed[(x, a)] for x in fam if (x, a) in changed), None)
        if hit is None or any((getattr(x, 'name', None), a) in REGISTERED for x in fam):
            R.ok('%s.%s' % (c.name, a), where[0][1], 'kept from an argument, only read')
        elif setter_of(ctx, c, where):
            R.ok('%s.%s' % (c.name, a), where[0][1], 'replaced by the user')
        else:
            R.bad('%s.%s' % (c.name, a), hit[0], '%s, but %s keeps an argument in it: %s' % (hit[1], where[0][0].name, where[0][2]))
    own_values(ctx, R, stored, rets)
    separate(ctx, R, changed)
    state(ctx, R)


def own_values(ctx, R, stored, rets):
    """the values a user sets and reads back: properties whose setter converts what it is given"""
    R.use('own', 'the initial values of an object are its own memory: what was given to the object is copied')
    P = ctx.p

    def result(f):
        def ret(t, depth=[0]):
            g = callee_of(ctx, f, t)
            if g is None or not isinstance(rets.get(g), Term):
                return None
            if depth[0] > 3:
                return []
            depth[0] += 1
            try:
                names = memory(rets[g], result(g))
            finally:
                depth[0] -= 1
            par = [a.arg for a in g.node.args.posonlyargs + g.node.args.args][0 if 'staticmethod' in g.decorators else 1:]
            given = dict(zip(par, t.args[1]))
            given.update({k: v for k, v in t.args[2] if isinstance(k, str)})
            return [given[q] for q in names if isinstance(given.get(q), Term)]
        return ret

    vals = {}
    for c in P.classes.values():
        for name, p in getattr(c, 'props', {}).items():
            if p.fget is None or p.fset is None:
                continue
            a = attribute_of(ctx, c, name)
            here = [v for f, k, v, _ in stored if f is p.fset and k == a]
            if a != name and any(v.op not in ('sym',) for v in here):
                vals[(c, a)] = name
    for (c, a), name in sorted(vals.items(), key=lambda x: (x[0][0].qual, x[0][1])):
        bad, n = None, 0
        for f, k, v, loc in stored:
            if k != a or f.cls not in P.classes.values() or c not in P.mro(f.cls) and f.cls not in P.mro(c):
                continue
            n += 1
            q = memory(v, result(f))
            if q and bad is None:
                bad = (loc, '%s keeps the memory of its argument %s in %s: %s' % (f.name, ', '.join(sorted(q)), name, show(v)[:120]))
        if bad:
            R.bad('%s.%s' % (c.name, name), *bad)
        else:
            R.ok('%s.%s' % (c.name, name), c.mod.rel, '%d assignments, none keeps memory of an argument' % n)


def setter_of(ctx, c, where):
    """assigned by the setter of a property only: the user replaces the attribute itself"""
    return all(any(p.fset is f for k in ctx.p.mro(c) if hasattr(k, 'props') for p in k.props.values()) for f, _, _ in where)


# ------------------------------------------------------------------ one object in two attributes
IMMUT = (ast.Constant, ast.JoinedStr, ast.Compare, ast.BoolOp, ast.Lambda, ast.UnaryOp, ast.BinOp)


def selfattr(n):
    return n.attr if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == 'self' else None


def aliases(fn):
    """pairs of attributes of self that hold the same object after the method: (a, b, line)"""
    out, local = [], {}
    store = {}
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            store[n.id] = store.get(n.id, 0) + 1

    def value(n):
        """an identity for the object an expression denotes, or None"""
        if isinstance(n, ast.Name):
            if n.id in local:
                return local[n.id]
            return None
        a = selfattr(n)
        if a is not None:
            return ('attr', a)
        if isinstance(n, (ast.Call, ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp)):
            return ('new', id(n))
        return None

    held = {}
    for n in sorted((x for x in ast.walk(fn) if isinstance(x, (ast.Assign, ast.AnnAssign))), key=lambda x: (x.lineno, x.col_offset)):
        if n.value is None:
            continue
        tg = n.targets if isinstance(n, ast.Assign) else [n.target]
        pairs = []
        for t in tg:
            if isinstance(t, (ast.Tuple, ast.List)) and isinstance(n.value, (ast.Tuple, ast.List)) and len(t.elts) == len(n.value.elts):
                pairs += list(zip(t.elts, n.value.elts))
            else:
                pairs.append((t, n.value))
        for t, v in pairs:
            o = value(v)
            if isinstance(t, ast.Name):
                if store.get(t.id) == 1 and o is not None:
                    local[t.id] = o
                continue
            a = selfattr(t)
            if a is None:
                continue
            if o is not None and o[0] == 'attr' and o[1] != a and not replaced(fn, n, (a, o[1])):
                out.append((a, o[1], n.lineno))
            elif o is not None and o[0] == 'new':
                for b, q in held.items():
                    if q == o and b != a:
                        out.append((a, b, n.lineno))
                held[a] = o
    return out


def replaced(fn, n, names):
    """one of the attributes gets another object later in the same block"""
    for b in ast.walk(fn):
        for k in ('body', 'orelse', 'finalbody'):
            l = getattr(b, k, None)
            if isinstance(l, list) and any(x is n for x in l):
                for x in l[[y is n for y in l].index(True) + 1:]:
                    if isinstance(x, ast.Assign):
                        for t in x.targets:
                            if any(selfattr(y) in names for y in ([t] if not isinstance(t, (ast.Tuple, ast.List)) else t.elts)):
                                return True
    return False


def attribute_of(ctx, c, a):
    """attribute behind a property that only returns it"""
    p = ctx.p.find_prop(c, a)
    if p is not None and p.fget is not None:
        rs = [x for x in ast.walk(p.fget.node) if isinstance(x, ast.Return)]
        if len(rs) == 1 and rs[0].value is not None and selfattr(rs[0].value):
            return selfattr(rs[0].value)
    return a


def separate(ctx, R, changed):
    R.use('separate', 'vectors with different names are separate memory: none that is changed in place is also held under another name')
    for c in sorted(ctx.p.classes.values(), key=lambda c: c.qual):
        if not c.mod.name.startswith('do_mpc'):
            continue
        fns = [f for f in ctx.p.funcs if f.cls is c and f.outer is None]
        n, bad = 0, []
        for f in fns:
            for a, b, line in aliases(f.node):
                a2, b2 = attribute_of(ctx, c, a), attribute_of(ctx, c, b)
                n += 1
                if a2 == b2 or protected(ctx, c, a2, b2):
                    continue
                fam = [x for x in ctx.p.classes.values() if c in ctx.p.mro(x)] + [x for x in ctx.p.mro(c) if hasattr(x, 'methods')]
                hit = next((changed[(x, y)] for x in fam for y in (a2, b2) if (x, y) in changed), None)
                if hit is not None:
                    bad.append(('%s:%d' % (c.mod.rel, line), '%s and %s are the same object, and %s (%s)' % (a, b, hit[1], hit[0])))
        if bad:
            R.bad(c.qual.split('do_mpc.', 1)[-1], bad[0][0], bad[0][1])
        else:
            R.ok(c.qual.split('do_mpc.', 1)[-1], '%s:%d' % (c.mod.rel, c.node.lineno), '%d shared references, none changed in place' % n)


def protected(ctx, c, a, b):
    """default terminal bounds are the state bounds; the setter copies them before a change (C07)"""
    return {a, b} in ({'_x_terminal_ub', '_x_ub'}, {'_x_terminal_lb', '_x_lb'})


# ------------------------------------------------------------------ state outside of the objects
MUTABLE = (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)
FROZEN = {'frozenset', 'tuple', 'int', 'float', 'str', 'bool', 'bytes', 'namedtuple', 'collections.namedtuple', 'typing.TypeVar', 'TypeVar', 'property', 'IndexedProperty', 'object', 'field', 'dataclasses.field',
          'staticmethod', 'classmethod', 'functools.partial', 'partial', 're.compile'}


def mutable(n):
    if isinstance(n, MUTABLE):
        return True
    if isinstance(n, ast.Call):
        d = dotted(n.func)
        return d is None or d not in FROZEN
    return False


def changes(fn, name, mut=MUT):
    """line where a function changes the named variable in place, keeps or returns it; None"""
    return min(uses(fn, name, mut), key=lambda x: x[1], default=None)


def uses(fn, name, mut):
    def is_(n):
        return isinstance(n, ast.Name) and n.id == name
    for n in ast.walk(fn):
        if isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, (ast.Store, ast.Del)) and is_(base(n)):
            yield n.lineno, 'changed'
        if isinstance(n, ast.AugAssign) and (is_(n.target) or is_(base(n.target))):
            yield n.lineno, 'changed'
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in mut and is_(base(n.func.value)):
            yield n.lineno, 'changed'
        if isinstance(n, ast.Assign) and is_(n.value) and any(isinstance(t, (ast.Attribute, ast.Subscript)) for t in n.targets):
            yield n.lineno, 'kept'
        if isinstance(n, (ast.Return, ast.Yield)) and n.value is not None and is_(n.value):
            yield n.lineno, 'returned'


def base(n):
    while isinstance(n, (ast.Attribute, ast.Subscript)):
        n = n.value
    return n


def changed_attributes(P):
    """names of attributes whose value is changed in place somewhere in the package"""
    out = set()
    for m in P.mods.values():
        for n in ast.walk(m.tree):
            t = None
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
                t = n.value
            elif isinstance(n, ast.AugAssign):
                t = n.target
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUT:
                t = n.func.value
            while isinstance(t, ast.Subscript):
                t = t.value
            if isinstance(t, ast.Attribute):
                out.add(t.attr)
    return out


def kept_global(fn, v, attrs):
    """the mutable module variable v becomes the value of an attribute that is changed in place"""
    def parts(n):
        if isinstance(n, ast.IfExp):
            return parts(n.body) + parts(n.orelse)
        if isinstance(n, ast.BoolOp):
            return [x for y in n.values for x in parts(y)]
        return [n]
    out = []
    for n in ast.walk(fn):
        if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None and any(isinstance(x, ast.Name) and x.id == v for x in parts(n.value)):
            for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                if isinstance(t, ast.Attribute) and t.attr in attrs:
                    out.append((n.lineno, '%s keeps %s, which is shared by all objects, in %s, which is changed in place' % (fn.name, v, t.attr)))
    return out


def state(ctx, R):
    R.use('state', 'no default argument, class attribute, settings default or module variable holds state that is changed')
    P = ctx.p
    attrs = changed_attributes(P)
    for m in sorted(P.mods.values(), key=lambda m: m.name):
        if not m.name.startswith('do_mpc'):
            continue
        rel = m.rel
        bad = []
        top = {}
        for s in m.tree.body:
            for t in (s.targets if isinstance(s, ast.Assign) else [s.target] if isinstance(s, ast.AnnAssign) and s.value is not None else []):
                if isinstance(t, ast.Name):
                    top[t.id] = s
        names = set(m.names) | set(top)
        for fn in ast.walk(m.tree):
            if isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                a = fn.args
                pos = a.posonlyargs + a.args
                for x, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + list(zip(a.kwonlyargs, a.kw_defaults)):
                    if d is not None and mutable(d):
                        hit = changes(fn, x.arg)
                        if hit:
                            bad.append((hit[0], 'the default value of %s is shared by all calls of %s and is %s' % (x.arg, getattr(fn, 'name', 'lambda'), hit[1])))
            if isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
                for n in ast.walk(fn):
                    if isinstance(n, ast.Global):
                        bad.append((n.lineno, '%s changes the module variable %s' % (fn.name, ', '.join(n.names))))
                loc = {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | {x.arg for x in ast.walk(fn) if isinstance(x, ast.arg)}
                for v in names - loc:
                    h = changes(fn, v, () if (m.names.get(v) or (None,))[0] == 'modref' else MUT)
                    if v in top and mutable(top[v].value):
                        bad += kept_global(fn, v, attrs)
                    if h and h[1] == 'changed' and (m.names.get(v) or (None,))[0] in (None, 'const', 'class', 'modref', 'func', 'ref', 'from'):
                        bad.append((h[0], '%s changes %s, which is shared by all objects' % (fn.name, v)))
        for c in ast.walk(m.tree):
            if not isinstance(c, ast.ClassDef):
                continue
            dc = any((dotted(d) or dotted(getattr(d, 'func', None)) or '').endswith('dataclass') for d in c.decorator_list)
            mem = {}
            for s in c.body:
                if isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None:
                    for t in s.targets if isinstance(s, ast.Assign) else [s.target]:
                        if isinstance(t, ast.Name):
                            mem[t.id] = s
            for k, s in mem.items():
                v = s.value
                if isinstance(v, ast.Call) and (dotted(v.func) or '').endswith('field'):
                    for kw in v.keywords:
                        if kw.arg == 'default' and mutable(kw.value):
                            bad.append((s.lineno, 'all %s share the default of %s' % (c.name, k)))
                        if kw.arg == 'default_factory' and isinstance(kw.value, ast.Lambda) and not isinstance(kw.value.body, MUTABLE + (ast.Call, ast.Constant)):
                            g = base(kw.value.body)
                            if isinstance(g, ast.Name) and (g.id in names or g.id in mem):
                                bad.append((s.lineno, 'all %s share the default of %s' % (c.name, k)))
                elif mutable(v):
                    if dc and isinstance(s, ast.AnnAssign):
                        bad.append((s.lineno, 'all %s share the default of %s' % (c.name, k)))
                        continue
                    inst = any(isinstance(n, ast.Attribute) and n.attr == k and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == 'self'
                               for f in c.body if isinstance(f, ast.FunctionDef) and f.name == '__init__' for n in ast.walk(f))
                    if not inst and any(used(fn, k, c.name) for fn in c.body):
                        bad.append((s.lineno, 'the class variable %s of %s is changed by its objects' % (k, c.name)))
            for fn in c.body:
                if isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    for n in ast.walk(fn):
                        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and (isinstance(n.value, ast.Name) and n.value.id == c.name or (dotted(n.value) or '') in ('self.__class__',) or
                                                                                              isinstance(n.value, ast.Call) and dotted(n.value.func) == 'type'):
                            bad.append((n.lineno, '%s.%s stores %s on the class' % (c.name, fn.name, n.attr)))
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call):
                d = dotted(n.func)
                q = absolute(m, d) if d else None
                if q in PROCESS and not guarded_main(m.tree, n):
                    bad.append((n.lineno, '%s changes the state of the whole process' % q))
            if isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                d = dotted(n.value)
                q = absolute(m, d) if d else None
                if q and q.startswith(('os.environ', 'matplotlib.rcParams', 'matplotlib.pyplot.rcParams', 'sys.path', 'sys.modules')):
                    bad.append((n.lineno, '%s changes the state of the whole process' % q))
        key = m.name
        if bad:
            R.bad(key, '%s:%d' % (rel, bad[0][0]), bad[0][1])
        else:
            R.ok(key, rel, 'no shared state is changed')


def used(fn, k, cname):
    """a method changes the class variable through self or the class"""
    if not isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
        return False
    for n in ast.walk(fn):
        t = None
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
            t = n.value
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUT:
            t = n.func.value
        elif isinstance(n, ast.AugAssign):
            t = n.target
        while isinstance(t, ast.Subscript):
            t = t.value
        if isinstance(t, ast.Attribute) and t.attr == k and isinstance(t.value, ast.Name) and t.value.id in ('self', 'cls', cname):
            return True
    return False


def absolute(m, d):
    h, _, r = d.partition('.')
    b = m.names.get(h)
    if b is None:
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    if (a.asname or a.name.split('.')[0]) == h:
                        return (a.name if a.asname else h) + ('.' + r if r else '')
            elif isinstance(n, ast.ImportFrom) and not n.level:
                for a in n.names:
                    if (a.asname or a.name) == h:
                        return '.'.join(x for x in (n.module, a.name, r) if x)
    if b is None:
        return None if '.' in d else 'builtins.' + d
    if b[0] == 'modref':
        return b[1] + ('.' + r if r else '')
    if len(b) > 2 and isinstance(b[1], str):
        return '.'.join(x for x in (b[1], b[2] if isinstance(b[2], str) else '', r) if x)
    return d


def guarded_main(tree, n):
    for s in tree.body:
        if isinstance(s, ast.If) and '__main__' in ast.dump(s.test) and any(x is n for x in ast.walk(s)):
            return True
    return False
