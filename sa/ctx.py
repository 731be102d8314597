"""Cached interpretation runs and small query helpers shared by the rules."""
import os
from .project import Project
from .interp import Interp, DeadPath, Budget
from .terms import *
from .alg import nf, NF, callee, method, eq


class Run:
    def __init__(self, it, st, selft, ret):
        self.it, self.st, self.self, self.ret = it, st, selft, ret
        self.events = it.events

    def attr(self, name):
        return self.it.freeze(self.it.load_attr(self.self, name, self.st), self.st)

    def calls(self, pred=None):
        for e in self.events:
            if e.kind == 'call' and (pred is None or pred(e)):
                yield e

    def sets(self, name=None):
        """attribute stores on self"""
        for e in self.events:
            if e.kind == 'setattr' and e.base is self.self and (name is None or e.key == name):
                yield e

    def reads(self):
        return self.it.lines


def entry_args(a, args, kwargs):
    """arbitrary values for keyword-only, variable and keyword arguments of the function under test"""
    args = list(args or ())
    for x in a.kwonlyargs:
        kwargs.setdefault(x.arg, mk('sym', x.arg))
    if a.vararg and len(args) <= len(a.posonlyargs + a.args):
        args.append(mk('star', mk('sym', 'args')))
    if a.kwarg:
        kwargs['**'] = mk('sym', 'kwargs')
    return args


class Ctx:
    def __init__(self, root=None):
        self.root = root or os.environ.get('VERIF_REPO', '/repo')
        self.p = Project(self.root)
        self.cache = {}
        self.lines = set()
        self.cache2 = {}

    def cls(self, name):
        return self.p.cls(name)

    def item(self, base, key):
        return mk('item', base, const(key))

    def run(self, cls, meth, args=None, presets=None, facts=None, noinline=None, kwargs=None, attr_classes=None, key=None, lazy=True, model_ready=True):
        k = (cls, meth, tuple(args) if args is not None else None, tuple(sorted((presets or {}).items(), key=repr)), tuple(sorted(kwargs.items())) if kwargs else None,
             tuple((facts or {}).items()), key, tuple(noinline) if isinstance(noinline, (tuple, list, set, frozenset)) else noinline, lazy)
        if k in self.cache:
            return self.cache[k]
        c = self.cls(cls)
        f = self.p.find_method(c, meth)
        if f is None:
            return None
        fa = {}
        if model_ready:
            fa[mk('item', mk('attr', mk('obj', 'self.model'), 'flags'), const('setup'))] = True
        fa.update(facts or {})
        ni = noinline
        if isinstance(noinline, (tuple, list, set, frozenset)):
            names = set(noinline)
            ni = lambda fi: fi.qual in names or fi.name in names or ('%s.%s' % (fi.cls.name, fi.name) if fi.cls else fi.name) in names
        it = Interp(self.p, presets=presets, facts=fa, noinline=ni, attr_classes=attr_classes)
        st = it.state()
        s = it.new_inst(st, c, 'self', lazy=lazy)
        if args is None:
            args = [mk('sym', a.arg) for a in f.node.args.posonlyargs + f.node.args.args][1:]
        r = it.call_method(st, s, meth, list(args), kwargs)
        res = Run(it, st, s, it.freeze(r, st) if r is not None else None)
        self.cache[k] = res
        self.lines |= it.lines
        return res

    def interp(self, presets=None, facts=None, noinline=None, attr_classes=None, model_ready=True):
        fa = {}
        if model_ready:
            fa[mk('item', mk('attr', mk('obj', 'self.model'), 'flags'), const('setup'))] = True
        fa.update(facts or {})
        ni = noinline
        if isinstance(noinline, (tuple, list, set, frozenset)):
            names = set(noinline)
            ni = lambda fi: fi.qual in names or fi.name in names or ('%s.%s' % (fi.cls.name, fi.name) if fi.cls else fi.name) in names
        it = Interp(self.p, presets=presets, facts=fa, noinline=ni, attr_classes=attr_classes)
        return it, it.state()

    def run_fi(self, cls, f, args=None, presets=None, facts=None, noinline=None, kwargs=None):
        """interpret a method or property function on a lazy instance"""
        k = ('fi', cls, f.qual, f.node.lineno, tuple(args or ()), tuple(sorted((presets or {}).items(), key=repr)), tuple((facts or {}).items()), str(noinline), str(kwargs))
        if k in self.cache:
            return self.cache[k]
        it, st = self.interp(presets, facts, noinline)
        s = it.new_inst(st, self.cls(cls), 'self', lazy=True)
        kwargs = dict(kwargs or {})
        args = entry_args(f.node.args, args, kwargs)
        try:
            it.entry = True
            r = it.inline(f, [s] + list(args or ()), kwargs, st, None)
        except DeadPath:
            r = None
        res = Run(it, st, s, it.freeze(r, st) if r is not None else None)
        self.cache[k] = res
        self.lines |= it.lines
        return res

    def run_func(self, name, args=None, presets=None, facts=None, noinline=None, kwargs=None):
        f = self.p.func(name)
        if args is None:
            args = [mk('sym', a.arg) for a in f.node.args.posonlyargs + f.node.args.args]
        k = ('func', name, tuple(args), tuple(sorted((presets or {}).items(), key=repr)), tuple((facts or {}).items()), str(noinline), str(kwargs))
        if k in self.cache:
            return self.cache[k]
        it, st = self.interp(presets, facts, noinline)
        kwargs = dict(kwargs or {})
        args = entry_args(f.node.args, args, kwargs)
        try:
            it.entry = True
            r = it.inline(f, list(args), kwargs, st, None)
        except DeadPath:
            r = None
        res = Run(it, st, None, it.freeze(r, st) if r is not None else None)
        self.cache[k] = res
        self.lines |= it.lines
        return res

    def functions(self):
        out = set()
        for r in self.cache.values():
            if r is not None:
                out |= r.it.inlined
        return out

    def defs(self, cls, presets=None):
        """attribute name -> set of values stored on self by any method of the class (value graph, opaque instance)"""
        k = ('defs', cls)
        if k in self.cache2:
            return self.cache2[k]
        out = {}
        c = self.cls(cls)
        for k2 in self.p.mro(c):
            if not hasattr(k2, 'methods'):
                continue
            for name, f in k2.methods.items():
                if self.p.find_method(c, name) is not f:
                    continue
                if name in ('solve', 'make_step'):
                    continue
                try:
                    r = self.run(cls, name, presets=presets)
                except Exception:
                    continue
                for e in r.events:
                    if e.kind == 'setattr' and e.base is r.self:
                        out.setdefault(e.key if isinstance(e.key, str) else show(e.key), []).append((e.value, e.loc))
        self.cache2[k] = out
        return out

    def selection_functions(self, cls):
        """attributes holding a Function whose output only re-arranges its inputs"""
        s = mk('obj', 'self')
        out = set()
        try:
            r = self.run(cls, '__init__')
        except Exception:
            return out
        for e in r.events:
            if e.kind == 'setattr' and e.base is r.self and callee(e.value) == 'casadi.Function' and len(e.value.args[1]) == 3:
                o = e.value.args[1][2]
                if o.op in ('list', 'tuple') and len(o.args) == 1 and callee(o.args[0]) == 'casadi.substitute':
                    out.add(mk('attr', s, e.key))
        return out
