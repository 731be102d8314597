"""Builds gated value graphs and effect logs for functions of the analysed
project by abstract interpretation over the syntax tree.

* every local/attribute is mapped to one term; control-flow merges yield `ite`
  terms (gated SSA), loops yield `carry`/`after` terms;
* project functions, methods, properties and closures are inlined (so that
  splitting code into helpers does not change the result);
* every effect (call, attribute store, item store, raise) is logged once with
  the guards (control dependences), the loops and the location it happens at.
Nothing of the analysed project is executed and no path is enumerated."""
import ast
from .terms import *
from .terms import _table
from .alg import affine_sub
from .project import dotted, FuncInfo, ClassInfo, norm_ext

BUILTINS = set(dir(__builtins__)) if not isinstance(__builtins__, dict) else set(__builtins__)
BINOPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.MatMult: '@', ast.Pow: '**', ast.Mod: '%',
          ast.FloorDiv: '//', ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^', ast.LShift: '<<', ast.RShift: '>>'}
CMPS = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Is: 'is',
        ast.IsNot: 'is not', ast.In: 'in', ast.NotIn: 'not in'}
SAFE_STR = {'format', 'join', 'replace', 'lower', 'upper', 'strip', 'split', 'startswith', 'endswith', 'lstrip', 'rstrip'}
PYTYPES = {'builtins.int': int, 'builtins.float': float, 'builtins.str': str, 'builtins.bool': bool, 'builtins.tuple': tuple,
           'builtins.list': list, 'builtins.dict': dict}
MAXDEPTH = 30


class Budget(Exception):
    pass


class Guard:
    """(cond, polarity, kind)  kind in branch|raise|return|loop"""
    __slots__ = ('cond', 'pol', 'kind')

    def __init__(self, cond, pol, kind):
        while cond.op == 'not':
            cond, pol = cond.args[0], not pol
        self.cond, self.pol, self.kind = cond, pol, kind

    def term(self):
        return self.cond if self.pol else not_(self.cond)

    def __repr__(self):
        return '%s%s%s' % ('' if self.pol else 'not ', show(self.cond), '' if self.kind == 'branch' else '/' + self.kind)

    def __eq__(self, o):
        return self.cond is o.cond and self.pol == o.pol

    def __hash__(self):
        return hash((self.cond, self.pol))


class Event:
    __slots__ = ('kind', 'idx', 'func', 'args', 'kwargs', 'base', 'key', 'value', 'guards', 'loops', 'loc', 'stack', 'result', 'info', 'reads')

    def __repr__(self):
        b = '#%d %s ' % (self.idx, self.loc)
        if self.kind == 'call':
            b += 'call ' + show(self.result)
        elif self.kind in ('setattr', 'setitem'):
            b += '%s %s [%s] = %s' % (self.kind, show(self.base), show(self.key) if isinstance(self.key, Term) else self.key, show(self.value))
        elif self.kind == 'raise':
            b += 'raise'
        else:
            b += '%s %s' % (self.kind, self.info)
        if self.bguards():
            b += '   | ' + '; '.join(map(repr, self.bguards()))
        if self.loops:
            b += '   @ ' + '; '.join(show(l.args[1]) for l in self.loops)
        return b

    def bguards(self):
        """guards that are real branch decisions (not surviving-raise facts)"""
        return [g for g in self.guards if g.kind != 'raise']


class State:
    def __init__(self):
        self.env, self.heap, self.guards, self.ver, self.items = {}, {}, (), {}, {}

    def copy(self):
        s = State()
        s.env, s.heap, s.guards, s.ver = dict(self.env), {k: v.copy() for k, v in self.heap.items()}, self.guards, dict(self.ver)
        s.items = dict(self.items)
        return s

    def become(self, o):
        self.env, self.heap, self.guards, self.ver, self.items = o.env, o.heap, o.guards, o.ver, o.items


class HInst:
    kind = 'inst'

    def __init__(self, cls, lazy):
        self.cls, self.lazy, self.attrs = cls, lazy, {}

    def copy(self):
        h = HInst(self.cls, self.lazy)
        h.attrs = dict(self.attrs)
        return h


class HList:
    kind = 'list'

    def __init__(self, entries=(), base=((), ())):
        self.entries = list(entries)   # (value, loops, guards)
        self.base = base               # loops and guards around its creation

    def copy(self):
        return HList(self.entries, self.base)

    def plain(self):
        return all(not l and not g and v.op not in ('spread', 'setat') for v, l, g in self.entries)


class HDict:
    kind = 'dict'

    def __init__(self, base=((), ())):
        self.known, self.dyn = {}, []  # known: Term const key -> value ; dyn: (key, value, loops, guards)
        self.base = base

    def copy(self):
        h = HDict(self.base)
        h.known, h.dyn = dict(self.known), list(self.dyn)
        return h


class Frame:
    def __init__(self, fi, cls, selft, closure_env=None, parent=None):
        self.fi, self.cls, self.selft, self.closure_env, self.parent = fi, cls, selft, closure_env, parent
        self.mod = fi.mod
        self.returns = []
        self.conts = []
        self.base_guards = ()


def caught(v, ty):
    """whether a handler for ty can see the exception v (True if unknown)"""
    import builtins

    def cls(t):
        while t is not None and t.op == 'call':
            t = t.args[0]
        c = getattr(builtins, t.args[0][9:], None) if t is not None and t.op == 'glob' and t.args[0].startswith('builtins.') else None
        return c if isinstance(c, type) else None
    a = cls(v) if isinstance(v, Term) else None
    b = cls(ty) if isinstance(ty, Term) else None
    return a is None or b is None or issubclass(a, b) or issubclass(b, a)


class Interp:
    def __init__(self, project, presets=None, noinline=None, facts=None, budget=400000, unroll_range=0, attr_classes=None):
        self.p = project
        self.presets = presets or {}      # (class name, attr) -> python const
        self.noinline = noinline or (lambda fi: False)
        self.events, self.muted = [], 0
        self.loops = ()
        self.counter = 0
        self.steps, self.budget = 0, budget
        self.callstack = []
        self.closures = {}
        self.local_cache, self.dictlike = {}, set()
        self.facts0 = dict(facts or {})
        self._fact_cache = {}
        self.inlined = set()
        self.nexc = 0
        self.unroll_range = unroll_range
        self.attr_classes = attr_classes or {}   # (class name, attr) -> class public name
        self.lines = set()
        self.induct = {}        # (loop, name) -> (initial value, value after one iteration)
        self.entry = False
        self.growing = {}       # lists and dictionaries extended by the loops being run
        self.loop_names = []    # loops being run -> names first bound in them
        self.whiles = {}        # while loop -> condition in terms of the carried variables

    # ---------------------------------------------------------------- API
    def new_inst(self, st, cls, path, lazy=True):
        t = mk('obj', path)
        st.heap[path] = HInst(cls, lazy)
        return t

    def state(self):
        return State()

    def call_method(self, st, selft, name, args=(), kwargs=None):
        self.entry = True       # the function under test itself is always analysed
        f = self.load_attr(selft, name, st)
        return self.do_call(f, list(args), dict(kwargs or {}), st, None)

    # -------------------------------------------------------------- facts
    def facts(self, st):
        k = st.guards
        f = self._fact_cache.get(k)
        if f is None:
            f = dict(self.facts0)
            for g in k:
                self._add_fact(f, g.cond, g.pol)
            self._fact_cache[k] = f
        return f

    def _add_fact(self, f, c, pol):
        while c.op == 'not':
            c, pol = c.args[0], not pol
        f[c] = pol
        if c.op == 'and' and pol:
            for x in c.args:
                self._add_fact(f, x, True)
        if c.op == 'or' and not pol:
            for x in c.args:
                self._add_fact(f, x, False)
        if c.op == 'cmp' and c.args[0] == '==' and pol and c.args[2].op == 'const':
            f[('eq', c.args[1])] = c.args[2]

    def decide(self, c, st):
        if c.op == 'const':
            return bool(c.args[0])
        if c.op == 'not':
            d = self.decide(c.args[0], st)
            return None if d is None else not d
        f = self.facts(st)
        if c in f:
            return f[c]
        if c.op in ('and', 'or'):
            ds = [self.decide(x, st) for x in c.args]
            if c.op == 'and':
                if any(d is False for d in ds):
                    return False
                if all(d is True for d in ds):
                    return True
            else:
                if any(d is True for d in ds):
                    return True
                if all(d is False for d in ds):
                    return False
        if c.op == 'cmp' and c.args[0] == '==' and c.args[2].op == 'const':
            e = f.get(('eq', c.args[1]))
            if e is not None:
                return e is c.args[2] or e.args[0] == c.args[2].args[0]
        if c.op == 'list' or c.op == 'tuple' or c.op == 'dict':
            return len(c.args) > 0
        if c.op == 'obj' and c.args[0] in st.heap:
            h = st.heap[c.args[0]]
            if h.kind == 'inst':
                return True
            if c.args[0] in self.growing:
                return True if h.kind == 'list' and h.plain() and h.entries else None
            if h.kind == 'list' and h.plain():
                return bool(h.entries)
            if h.kind == 'dict' and not h.dyn:
                return bool(h.known)
        if c.op in ('func', 'bound', 'closure', 'class'):
            return True
        return None

    def truth(self, t, st):
        """normalised truth condition of a value"""
        if t.op == 'ite':
            a, b = self.truth(t.args[1], st), self.truth(t.args[2], st)
            if a is TRUE and b is FALSE:
                return t.args[0]
            if a is FALSE and b is TRUE:
                return not_(t.args[0])
            if a is FALSE:
                return conj([not_(t.args[0]), b])
            if b is FALSE:
                return conj([t.args[0], a])
            if a is TRUE:
                return disj([t.args[0], b])
            if b is TRUE:
                return disj([not_(t.args[0]), a])
            return ite(t.args[0], a, b)
        if t.op == 'call' and t.args[0].op == 'glob' and t.args[0].args[0] == 'builtins.bool' and len(t.args[1]) == 1:
            return self.truth(t.args[1][0], st)
        d = self.decide(t, st)
        if d is not None:
            return const(d)

        def isset(x):
            return x.op == 'call' and x.args[0].op == 'glob' and x.args[0].args[0] == 'builtins.set' or x.op == 'after' and isset(x.args[2]) or x.op == 'bin' and x.args[0] in '-|&' and isset(x.args[1])
        h = self.hobj(t, st, 'list') if t.op == 'obj' else None
        if h is not None and not h.plain():
            t = self.freeze(t, st)
        if isset(t) or t.op == 'listx':        # a set is true when it has elements
            return self.compare('!=', mk('len', t), const(0), st)
        return t

    # -------------------------------------------------------------- events
    def log(self, kind, node, st, **kw):
        e = Event()
        for s in Event.__slots__:
            setattr(e, s, None)
        e.kind = kind
        e.guards, e.loops = st.guards, self.loops
        fr = self.callstack[-1] if self.callstack else None
        e.loc = '%s:%s' % (fr.mod.rel if fr else '?', getattr(node, 'lineno', fr.fi.node.lineno if fr else 0))
        e.stack = tuple(f.fi.qual for f in self.callstack)
        for k, v in kw.items():
            setattr(e, k, v)
        if not self.muted:
            e.idx = len(self.events)
            self.events.append(e)
        else:
            e.idx = -1
        return e

    # ------------------------------------------------------------- helpers
    def fresh(self, tag):
        self.counter += 1
        return '%s#%d' % (tag, self.counter)

    def new_list(self, st, entries=()):
        oid = self.fresh('list')
        st.heap[oid] = HList(entries, (self.loops, self.cur_guards(st)))
        return mk('obj', oid)

    def new_dict(self, st, known=None):
        oid = self.fresh('dict')
        h = HDict((self.loops, self.cur_guards(st)))
        if known:
            h.known.update(known)
        st.heap[oid] = h
        return mk('obj', oid)

    def hobj(self, t, st, kind=None):
        if t.op == 'obj':
            h = st.heap.get(t.args[0])
            if h is not None and (kind is None or h.kind == kind):
                return h
        return None

    @staticmethod
    def alternatives(es):
        """one of two elements is appended: a single element that depends on the condition"""
        n = -1
        while n != len(es):
            n = len(es)
            for i in range(n - 1):
                (v, l, g), (w, m, h) = es[i:i + 2]
                if l != m or len(g) != len(h) or v.op in ('spread', 'setat') or w.op in ('spread', 'setat'):
                    continue
                a, b = [x for x in g if x not in h], [x for x in h if x not in g]
                if len(a) == len(b) == 1 and a[0].cond is b[0].cond and a[0].pol != b[0].pol:
                    x, y = (v, w) if a[0].pol else (w, v)
                    es[i:i + 2] = [(ite(a[0].cond, x, y), l, tuple(z for z in g if z in h))]
                    break
        return es

    def freeze(self, t, st, depth=0):
        """immutable snapshot of heap lists/dicts for use inside opaque terms"""
        if depth > 6:
            return t
        if t.op == 'obj':
            h = st.heap.get(t.args[0])
            if h is None or h.kind == 'inst':
                return t
            if h.kind == 'list':
                if h.plain():
                    return mk('list', *[self.freeze(v, st, depth + 1) for v, _, _ in h.entries])
                es = self.alternatives([(self.freeze(v, st, depth + 1), tuple(l), tuple(gs)) for v, l, gs in h.entries])
                if not any(l or g for _, l, g in es) and not any(v.op in ('spread', 'setat') for v, _, _ in es):
                    return mk('list', *[v for v, _, _ in es])
                return mk('listx', *[mk('entry', v, mk('tuple', *l), mk('tuple', *[g.term() for g in gs])) for v, l, gs in es])
            kn = tuple(sorted(((k, self.freeze(v, st, depth + 1)) for k, v in h.known.items()), key=lambda kv: repr(kv[0])))
            dy = tuple(mk('entry', mk('tuple', self.freeze(k, st, depth + 1), self.freeze(v, st, depth + 1)), mk('tuple', *l), mk('tuple', *[g.term() for g in gs])) for k, v, l, gs in h.dyn)
            return mk('dict', kn, dy)
        if t.op in ('tuple', 'list'):
            n = [self.freeze(x, st, depth + 1) for x in t.args]
            return mk(t.op, *n)
        if t.op == 'ite':
            return ite(t.args[0], self.freeze(t.args[1], st, depth + 1), self.freeze(t.args[2], st, depth + 1))
        return t

    def sofar(self, t, st):
        """contents of a list or dictionary, which may have been extended by earlier passes of a loop"""
        x = self.freeze(t, st)
        if t.op == 'obj' and t.args[0] in self.growing:
            return mk('sofar', x, self.growing[t.args[0]])
        return x

    def seq(self, t, st):
        """list of element terms if the sequence is fully known, else None"""
        if t.op in ('tuple', 'list'):
            return list(t.args) if not any(x.op == 'star' for x in t.args) else None
        h = self.hobj(t, st)
        if h is not None:
            if t.args[0] in self.growing:
                return None
            if h.kind == 'list' and h.plain():
                return [v for v, _, _ in h.entries]
            if h.kind == 'dict' and not h.dyn and not any(v.op == 'ite' and UNDEF in v.args for v in h.known.values()):
                return list(h.known)
            return None
        if t.op == 'const' and isinstance(t.args[0], (str,)) and len(t.args[0]) <= 12:
            return [const(c) for c in t.args[0]]
        if t.op == 'zip':
            ss = [self.seq(x, st) for x in t.args]
            if all(s is not None for s in ss) and ss:
                return [mk('tuple', *r) for r in zip(*ss)]
            return None
        if t.op == 'enumerate':
            s = self.seq(t.args[0], st)
            if s is not None and t.args[1].op == 'const':
                return [mk('tuple', const(i + t.args[1].args[0]), x) for i, x in enumerate(s)]
            return None
        if t.op == 'dictitems':
            h = self.hobj(t.args[0], st, 'dict')
            if h is not None and not h.dyn and not any(v.op == 'ite' and UNDEF in v.args for v in h.known.values()):
                return [mk('tuple', k, v) for k, v in h.known.items()]
            if t.args[0].op == 'dict' and not t.args[0].args[1]:
                return [mk('tuple', k, v) for k, v in t.args[0].args[0]]
            return None
        if t.op == 'dictvalues':
            h = self.hobj(t.args[0], st, 'dict')
            if h is not None and not h.dyn:
                return list(h.known.values())
            return None
        if t.op == 'dictkeys':
            return self.seq(t.args[0], st) if self.hobj(t.args[0], st, 'dict') else None
        if t.op == 'dict' and not t.args[1]:
            return [k for k, _ in t.args[0]]
        if t.op == 'range' and all(x.op == 'const' and isinstance(x.args[0], int) for x in t.args) and t.args[2].args[0]:
            r = range(*[x.args[0] for x in t.args])
            if len(r) <= max(self.unroll_range, 1):
                return [const(i) for i in r]
        return None

    # ----------------------------------------------------------- merging
    def merge(self, a, b, c):
        """state selecting a when c else b (same frame)"""
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        r = State()
        for k in list(a.env) + [k for k in b.env if k not in a.env]:
            r.env[k] = ite(c, a.env.get(k, UNDEF), b.env.get(k, UNDEF))
        for oid in list(a.heap) + [k for k in b.heap if k not in a.heap]:
            x, y = a.heap.get(oid), b.heap.get(oid)
            if x is None or y is None:
                r.heap[oid] = (x or y).copy()
                continue
            if x.kind == 'inst':
                h = HInst(x.cls, x.lazy)
                for k in list(x.attrs) + [k for k in y.attrs if k not in x.attrs]:
                    if k in x.attrs:
                        va = x.attrs[k]
                    else:
                        va = self.entry_attr(mk('obj', oid), k, x, a)
                    if k in y.attrs:
                        vb = y.attrs[k]
                    else:
                        vb = self.entry_attr(mk('obj', oid), k, y, b)
                    h.attrs[k] = ite(c, va, vb)
                r.heap[oid] = h
            elif x.kind == 'list':
                n = 0
                while n < min(len(x.entries), len(y.entries)) and x.entries[n] == y.entries[n]:
                    n += 1
                ga, gb = Guard(c, True, 'branch'), Guard(c, False, 'branch')

                def addg(e, g):
                    return e if g in e[2] else (e[0], e[1], e[2] + (g,))
                if len(x.entries) == len(y.entries) and all(p[1:] == q[1:] and (p[0] is q[0] or p[0].op not in ('spread', 'setat') and q[0].op not in ('spread', 'setat')) for p, q in zip(x.entries, y.entries)):
                    r.heap[oid] = HList([(ite(c, p[0], q[0]), p[1], p[2]) for p, q in zip(x.entries, y.entries)], x.base)
                else:
                    r.heap[oid] = HList(x.entries[:n] + [addg(e, ga) for e in x.entries[n:]] + [addg(e, gb) for e in y.entries[n:]], x.base)
            else:
                h = HDict(x.base)
                for k in list(x.known) + [k for k in y.known if k not in x.known]:
                    h.known[k] = ite(c, x.known.get(k, UNDEF), y.known.get(k, UNDEF))
                n = 0
                while n < min(len(x.dyn), len(y.dyn)) and x.dyn[n] == y.dyn[n]:
                    n += 1
                h.dyn = list(x.dyn[:n])
                for es, g in ((x.dyn[n:], Guard(c, True, 'branch')), (y.dyn[n:], Guard(c, False, 'branch'))):
                    h.dyn += [e if g in e[3] else tuple(e[:3]) + (tuple(e[3]) + (g,),) for e in es]
                r.heap[oid] = h
        for k in set(a.ver) | set(b.ver):
            r.ver[k] = max(a.ver.get(k, 0), b.ver.get(k, 0))
        for k in set(a.items) | set(b.items):
            dflt = mk('attr', k[0], k[1][1:]) if isinstance(k[1], str) else mk('item', k[0], k[1])
            r.items[k] = ite(c, a.items.get(k, dflt), b.items.get(k, dflt))
        n = 0
        while n < min(len(a.guards), len(b.guards)) and a.guards[n] == b.guards[n]:
            n += 1
        gs = list(a.guards[:n])
        for side, pol in ((a, True), (b, False)):
            for g in side.guards[n:]:
                if g.kind == 'raise':
                    t = disj([c if not pol else not_(c), g.term()])
                    if t is not TRUE:
                        ng = Guard(t, True, 'raise')
                        if ng not in gs:
                            gs.append(ng)
        r.guards = tuple(gs)
        return r

    def entry_attr(self, t, name, h, st):
        if h.lazy:
            pr = self.preset(h.cls, name)
            if pr is not None:
                return pr
            sub = '%s.%s' % (t.args[0], name)
            if sub in st.heap:
                return mk('obj', sub)
            return mk('attr', t, name)
        if h.cls is not None:
            k = self.p.find_classvar(h.cls, name)
            if k:
                return self.classvar(k, name, st)
        return UNDEF

    def preset(self, cls, name):
        if cls is None:
            return None
        for k in self.p.mro(cls):
            if (k.name, name) in self.presets:
                return const(self.presets[(k.name, name)])
        return None

    def classvar(self, k, name, st):
        expr = k.classvars[name]
        fr = Frame(FuncInfo(ast.parse('def _cls(): pass').body[0], k.mod, None), None, None)
        s2 = State()
        s2.heap = st.heap
        s2.guards = st.guards
        if isinstance(expr, (ast.Dict, ast.List, ast.Set)):
            return mk('classattr', k.qual, name)     # one shared mutable object
        if isinstance(expr, ast.Call) and (dotted(expr.func) or '').split('.')[-1] == 'field':
            for kw in expr.keywords:
                if kw.arg == 'default':
                    return self.ev(kw.value, fr, s2)
                if kw.arg == 'default_factory':
                    self.callstack.append(fr)
                    try:
                        f = self.ev(kw.value, fr, s2)
                        return self.do_call(f, [], {}, s2, expr)
                    finally:
                        self.callstack.pop()
        return self.ev(expr, fr, s2)

    # ------------------------------------------------------------- attributes
    def load_attr(self, base, name, st, node=None):
        if base.op == 'obj':
            h = st.heap.get(base.args[0])
            if h is None:
                return mk('attr', base, name)
            if h.kind != 'inst':
                return mk('meth', base, name)
            if name in h.attrs:
                v = h.attrs[name]
                return v
            if name == '__dict__':
                return mk('dictof', base)
            if name == '__class__' and h.cls:
                return mk('class', h.cls)
            if h.cls is not None:
                p = self.p.find_prop(h.cls, name)
                if p is not None:
                    if p.kind == 'indexed':
                        return mk('idxprop', base, name)
                    if p.fget is not None:
                        return self.inline(p.fget, [base], {}, st, node)
                f = self.p.find_method(h.cls, name)
                if f is not None:
                    deco = [d.split('.')[-1] for d in f.decorators]
                    if 'staticmethod' in deco:
                        return mk('func', f)
                    if 'classmethod' in deco:
                        return mk('bound', mk('class', h.cls), f)
                    return mk('bound', base, f)
            if h.lazy:
                pr = self.preset(h.cls, name)
                if pr is not None:
                    return pr
                ty = None
                if h.cls is not None:
                    for k in self.p.mro(h.cls):
                        if (k.name, name) in self.attr_classes:
                            ty = self.p.cls(self.attr_classes[(k.name, name)])
                            break
                    if ty is None:
                        ty = self.p.attr_type(h.cls, name)
                if ty is not None:
                    path = '%s.%s' % (base.args[0], name)
                    if path not in st.heap:
                        st.heap[path] = HInst(ty, True)
                    return mk('obj', path)
                return mk('attr', base, name)
            if h.cls is not None:
                k = self.p.find_classvar(h.cls, name)
                if k:
                    return self.classvar(k, name, st)
                if not self.p.has_ext_base(h.cls):
                    g = self.p.find_method(h.cls, '__getattr__')
                    if g:
                        return self.inline(g, [base, const(name)], {}, st, node)
                    self.log('undef_attr', node, st, base=base, key=name, info=h.cls.qual)
            return mk('attr', base, name)
        if base.op == 'class':
            ci = base.args[0]
            f = self.p.find_method(ci, name)
            if f is not None:
                if 'classmethod' in [d.split('.')[-1] for d in f.decorators]:
                    return mk('bound', base, f)
                return mk('func', f)
            k = self.p.find_classvar(ci, name)
            if k:
                return self.classvar(k, name, st)
            if name == '__name__':
                return const(ci.name)
            return mk('attr', base, name)
        if base.op == 'mod':
            return self.resolved(self.p.resolve_in(base.args[0], name) if hasattr(self.p, 'resolve_in') else self._modattr(base.args[0], name), st)
        if base.op == 'glob':
            return mk('glob', norm_ext(base.args[0] + '.' + name))
        if base.op == 'super':
            selft, cls = base.args
            h = self.hobj(selft, st, 'inst')
            top = h.cls if h is not None and h.cls is not None else cls
            f = self.p.find_method(top, name, after=cls)
            if f is not None:
                return mk('bound', selft, f)
            p = None
            return mk('attr', base, name)
        if base.op == 'ite' and self.size(base) < 8:
            return ite(base.args[0], self.load_attr(base.args[1], name, st, node), self.load_attr(base.args[2], name, st, node))
        if base is UNDEF:
            return UNDEF
        if (base, '.' + name) in st.items:
            return st.items[(base, '.' + name)]
        return mk('attr', base, name)

    def size(self, t):
        n = 0
        while t.op == 'ite' and n < 20:
            n += 1 + (self.size(t.args[1]) if t.args[1].op == 'ite' else 0)
            t = t.args[2]
        return n

    def _modattr(self, modname, name):
        m = self.p.mods[modname]
        r = self.p._lookup(m, name, set())
        if r is None and modname + '.' + name in self.p.mods:
            r = ('mod', modname + '.' + name)
        return r

    def resolved(self, r, st):
        if r is None:
            return mk('glob', '?')
        if r[0] == 'class':
            return mk('class', r[1])
        if r[0] == 'func':
            return mk('func', r[1])
        if r[0] == 'mod':
            return mk('mod', r[1])
        if r[0] == 'ext':
            return mk('glob', r[1])
        if r[0] == 'const':
            m, expr, nm = r[1], r[2], r[3]
            if expr is not None and isinstance(expr, (ast.Constant, ast.Tuple, ast.UnaryOp, ast.BinOp, ast.JoinedStr)):
                fr = Frame(FuncInfo(ast.parse('def _m(): pass').body[0], m, None), None, None)
                return self.ev(expr, fr, State())
            if expr is not None and isinstance(expr, (ast.Name, ast.Attribute)):
                d = dotted(expr)
                rr = self.p.resolve(m, d) if d else None
                if rr and rr != r:
                    return self.resolved(rr, st)
            if expr is not None and isinstance(expr, (ast.List, ast.Dict, ast.Set)):
                # module-level literal table
                fr = Frame(FuncInfo(ast.parse('def _m(): pass').body[0], m, None), None, None)
                t = self.ev(expr, fr, st)
                return self.freeze(t, st)
            return mk('glob', m.name + '.' + nm)
        return mk('glob', '?')

    def store_attr(self, base, name, val, st, node):
        if base.op == 'ite':
            # distribute over both targets (weak)
            for sub, c in ((base.args[1], base.args[0]), (base.args[2], not_(base.args[0]))):
                if sub.op in ('obj', 'attr'):
                    s2 = st.copy()
                    s2.guards = st.guards + (Guard(c, True, 'branch'),)
                    self.store_attr(sub, name, val, s2, node)
                    g = st.guards
                    m = self.merge(s2, st, c)
                    st.become(m)
                    st.guards = g
            return
        h = self.hobj(base, st, 'inst')
        if h is not None and h.cls is not None:
            p = self.p.find_prop(h.cls, name)
            if p is not None and p.kind == 'property':
                if p.fset is not None:
                    self.log('setprop', node, st, base=base, key=name, value=val, info=p.fset.qual)
                    self.inline(p.fset, [base, val], {}, st, node)
                    return
        fv = self.freeze(val, st)
        self.log('setattr', node, st, base=base, key=name, value=fv)
        if h is not None:
            h.attrs[name] = val
        else:
            self.bump(st, base, None)
            if name in ('master',):
                for k in [k for k in st.items if k[0] is base]:
                    del st.items[k]
            st.items[(base, '.' + name)] = fv

    def bump(self, st, base, head):
        st.ver[(base, head)] = st.ver.get((base, head), 0) + 1

    @staticmethod
    def head(key):
        if key.op == 'const':
            return key
        if key.op == 'tuple' and key.args and key.args[0].op == 'const' and isinstance(key.args[0].args[0], str):
            return key.args[0]
        return 'dyn'

    def load_item(self, base, key, st, node=None):
        if base.op == 'idxprop':
            o, name = base.args
            h = self.hobj(o, st, 'inst')
            p = self.p.find_prop(h.cls, name)
            return self.inline(p.fget, [o, key], {}, st, node)
        if key.op == 'slice':
            for i, x in enumerate(key.args):
                if x.op == 'ite' and self.size(x) < 8:
                    # a choice of bounds is a choice of slices
                    a, b = (mk('slice', *(key.args[:i] + (y,) + key.args[i + 1:])) for y in x.args[1:])
                    return ite(x.args[0], self.load_item(base, a, st, node), self.load_item(base, b, st, node))
        h = self.hobj(base, st)
        if h is not None:
            if h.kind == 'inst' and h.cls is not None:
                f = self.p.find_method(h.cls, '__getitem__')
                if f is not None:
                    return self.inline(f, [base, key], {}, st, node)
            elif h.kind == 'list':
                s = self.seq(base, st)
                if s is not None and key.op == 'const' and isinstance(key.args[0], int) and -len(s) <= key.args[0] < len(s):
                    return s[key.args[0]]
                if s is not None and key.op == 'slice' and all(x.op == 'const' for x in key.args):
                    return self.new_list(st, [(v, (), ()) for v in s[slice(*[x.args[0] for x in key.args])]])
                if key.op == 'slice':
                    part = self.part(self.freeze(base, st), key)
                    if part is not None:
                        return self.new_list(st, [part])
                return self.beta(self.freeze(base, st), self.freeze(key, st))
            elif h.kind == 'dict':
                if key in h.known and not h.dyn:
                    v = h.known[key]
                    if not (v.op == 'ite' and UNDEF in v.args):
                        return v
                    return v
                if key in h.known:
                    return h.known[key]
                if not h.dyn:
                    r = self.lookup(h.known, self.freeze(key, st), st)
                    if r is not None:
                        return r
                return mk('item', self.freeze(base, st), self.freeze(key, st))
        if base.op in ('tuple', 'list') and not any(x.op == 'star' for x in base.args):
            if key.op == 'const' and isinstance(key.args[0], int) and -len(base.args) <= key.args[0] < len(base.args):
                return base.args[key.args[0]]
            if key.op == 'slice' and all(x.op == 'const' for x in key.args):
                return mk(base.op, *base.args[slice(*[x.args[0] for x in key.args])])
        if base.op == 'dict' and not base.args[1]:
            for k, v in base.args[0]:
                if k is key:
                    return v
            r = self.lookup(dict(base.args[0]), self.freeze(key, st), st)
            if r is not None:
                return r
        if base.op == 'const' and isinstance(base.args[0], str) and key.op == 'const' and isinstance(key.args[0], int):
            try:
                return const(base.args[0][key.args[0]])
            except IndexError:
                pass
        if base.op == 'ite' and self.size(base) < 8:
            return ite(base.args[0], self.load_item(base.args[1], key, st, node), self.load_item(base.args[2], key, st, node))
        if base.op == 'dictof' and key.op == 'const':
            return self.load_attr(base.args[0], key.args[0], st, node)
        if base is UNDEF:
            return UNDEF
        key = self.freeze(key, st)
        if key.op == 'const' and (base, key) in st.items:
            return st.items[(base, key)]
        hd = self.head(key)
        if hd == 'dyn':
            n = sum(v for (b, _), v in st.ver.items() if b is base)
        else:
            n = st.ver.get((base, hd), 0) + st.ver.get((base, None), 0) + st.ver.get((base, 'dyn'), 0)
        if n:
            base = mk('ver', base, n)
        return self.beta(base, key)

    def lookup(self, known, key, st):
        """an element of a small constant table"""
        if key.op == 'const' or not 0 < len(known) <= 8 or any(k.op not in ('const', 'glob', 'class') for k in known) or any(v.op == 'ite' and UNDEF in v.args for v in known.values()):
            return None
        if any(x.op == 'lv' for x in walk(key)):
            return None
        r = mk('unk', 'missing key')
        for k, v in reversed(list(known.items())):
            r = ite(self.compare("==", key, k, st), v, r)
        return r

    @staticmethod
    def part(x, key):
        """[f(i) for i in range(n)][a:-b]"""
        lo, hi, step = key.args
        if step is not NONE and not is_const(step, 1):
            return None
        a = 0 if lo is NONE else lo.args[0] if lo.op == 'const' else None
        b = 0 if hi is NONE else -hi.args[0] if hi.op == 'const' and isinstance(hi.args[0], int) else None
        if x.op != 'listx' or len(x.args) != 1 or not isinstance(a, int) or a < 0 or b is None or b < 0 or hi is not NONE and not b:
            return None
        v, ls, gs = x.args[0].args
        if len(ls.args) != 1 or gs.args or v.op in ('setat', 'spread') or ls.args[0].op != 'loop':
            return None
        l0 = ls.args[0]
        r = l0.args[1]
        if r.op != 'range' or not is_const(r.args[0], 0) or not is_const(r.args[2], 1):
            return None
        lp = mk('loop', l0.args[0], mk('range', r.args[0], affine_sub(r.args[1], const(a + b)), r.args[2]))
        i0, iv = mk('lv', l0), mk('lv', lp)
        iv = mk('bin', '+', iv, const(a)) if a else iv
        return subst(v, lambda y: iv if y is i0 else None), (lp,), ()

    @staticmethod
    def beta(base, key):
        """[f(i) for i in range(n)][k]  ->  f(k)"""
        if base.op == 'listx' and len(base.args) == 1 and base.args[0].op == 'entry' and key.op not in ('slice', 'tuple'):
            v, ls, gs = base.args[0].args
            if len(ls.args) == 1 and not gs.args and v.op not in ('setat', 'spread') and ls.args[0].op == 'loop':
                lp = ls.args[0]
                if key.op == 'const' and isinstance(key.args[0], int) and key.args[0] < 0:
                    stop = lp.args[1].args[1]
                    key = affine_sub(stop, const(-key.args[0]))
                iv = mk('lv', lp)
                return subst(v, lambda x: key if x is iv else None)
        return mk('item', base, key)

    def store_item(self, base, key, val, st, node):
        if base.op == 'idxprop':
            o, name = base.args
            h = self.hobj(o, st, 'inst')
            p = self.p.find_prop(h.cls, name)
            self.log('setidx', node, st, base=base, key=self.freeze(key, st), value=self.freeze(val, st), info=p.fset.qual if p.fset else None)
            if p.fset is not None:
                self.inline(p.fset, [o, key, val], {}, st, node)
            return
        if base.op == 'ite' and self.size(base) < 8 and any(x.op in ('obj', 'ite') for x in base.args[1:]):
            # one of several objects: each changes under its condition
            for sub, c in ((base.args[1], base.args[0]), (base.args[2], not_(base.args[0]))):
                if sub is UNDEF:
                    continue
                s2 = st.copy()
                s2.guards = st.guards + (Guard(c, True, 'branch'),)
                self.store_item(sub, key, val, s2, node)
                g = st.guards
                st.become(self.merge(s2, st, c))
                st.guards = g
            return
        h = self.hobj(base, st)
        fk, fv = self.freeze(key, st), self.freeze(val, st)
        if h is not None and h.kind == 'inst' and h.cls is not None:
            f = self.p.find_method(h.cls, '__setitem__')
            if f is not None:
                self.inline(f, [base, key, val], {}, st, node)
                return
        self.log('setitem', node, st, base=base, key=fk, value=fv)
        if h is not None:
            if h.kind == 'dict':
                if fk.op == 'const':
                    h.known[fk] = val
                else:
                    h.dyn.append((fk, val, self.rel_loops(h), ()))
            elif h.kind == 'list':
                if h.plain() and fk.op == 'const' and isinstance(fk.args[0], int) and -len(h.entries) <= fk.args[0] < len(h.entries):
                    h.entries[fk.args[0]] = (val, (), ())
                else:
                    h.entries.append((mk('setat', fk, fv), self.rel_loops(h), ()))
            return
        if base.op == 'dictof' and fk.op == 'const':
            self.store_attr(base.args[0], fk.args[0], val, st, node)
            return
        hd = self.head(fk)
        self.bump(st, base, hd)
        for k in [k for k in st.items if k[0] is base and (hd == 'dyn' or k[1] is hd)]:
            del st.items[k]
        if fk.op == 'const':
            st.items[(base, fk)] = fv

    def rel_loops(self, h):
        """loops entered since a list or dictionary was created"""
        n = len(h.base[0])
        return self.loops[n:] if self.loops[:n] == h.base[0] else self.loops

    def rel_guards(self, h, st):
        g, b = self.cur_guards(st), h.base[1]
        if self.rel_loops(h) is self.loops and h.base[0]:
            return g
        return tuple(x for x in g if x not in b)

    # ------------------------------------------------------------- functions
    def bind(self, fi, args, kwargs, st, node, defaults_frame=None):
        a = fi.node.args
        env = {}
        pos = a.posonlyargs + a.args
        names = [x.arg for x in pos]
        args = list(args)
        starx = None
        flat = []
        for x in args:
            if x.op == 'star':
                s = self.seq(x.args[0], st)
                if s is not None:
                    flat.extend(s)
                else:
                    starx = x
                    flat.append(x)
            else:
                flat.append(x)
        args = flat
        opaque_kw = kwargs.pop('**', None)
        i = 0
        for n in names:
            if i < len(args):
                if args[i].op == 'star':
                    env[n] = mk('item', args[i].args[0], mk('starpos', n))
                    continue
                env[n] = args[i]
                i += 1
            elif n in kwargs:
                env[n] = kwargs.pop(n)
        rest = args[i:]
        if a.vararg:
            # f(*x) with nothing else: the parameters are those of x
            env[a.vararg.arg] = rest[0].args[0] if len(rest) == 1 and rest[0].op == 'star' else mk('tuple', *rest)
        nd = len(a.defaults)
        mf = Frame(FuncInfo(fi.node, fi.mod, None), None, None)
        for n, d in zip(names[len(names) - nd:], a.defaults):
            if n not in env:
                if isinstance(d, (ast.List, ast.Dict, ast.Set)):
                    env[n] = self.freeze(self.ev(d, mf, st), st) if True else None
                else:
                    env[n] = self.ev(d, mf, st)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg in kwargs:
                env[x.arg] = kwargs.pop(x.arg)
            elif d is not None:
                env[x.arg] = self.ev(d, mf, st)
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n not in env:
                env[n] = mk('item', opaque_kw, const(n)) if opaque_kw is not None else mk('sym', fi.qual + ':' + n)
        if a.kwarg:
            if opaque_kw is not None and not kwargs:
                env[a.kwarg.arg] = opaque_kw
            else:
                env[a.kwarg.arg] = self.new_dict(st, {const(k): v for k, v in kwargs.items()})
                if opaque_kw is not None:
                    st.heap[env[a.kwarg.arg].args[0]].dyn.append((mk('star', opaque_kw), mk('star', opaque_kw), (), ()))
        return env

    def decorators(self, fi):
        """decorators defined in the analysed package itself"""
        out = []
        for d in getattr(fi, 'decorators', ()):
            r = self.p._lookup(fi.mod, d, set()) if d and '.' not in d else None
            if r is not None and r[0] == 'func':
                out.append(r[1])
        return out

    def inline(self, fi, args, kwargs, st, node, closure_env=None, cls=None, raw=False):
        entry, self.entry = self.entry, False
        if not raw and (entry or not self.noinline(fi)):
            ds = self.decorators(fi)
            if ds:
                f = mk('rawfunc', fi)
                for d in reversed(ds):
                    f = self.inline(d, [f], {}, st, node)
                return self.do_call(f, args, kwargs, st, node)
        if not entry and not raw and self.noinline(fi) or len(self.callstack) > MAXDEPTH or sum(1 for f in self.callstack if f.fi.node is fi.node) >= 2:
            fa = [self.freeze(x, st) for x in args]
            fk = tuple(sorted((k, self.freeze(v, st)) for k, v in kwargs.items()))
            res = mk('call', mk('func', fi), tuple(fa), fk)
            self.log('call', node, st, func=mk('func', fi), args=fa, kwargs=dict(fk), result=res, info='noinline')
            return res
        kwargs = dict(kwargs)
        env = self.bind(fi, args, kwargs, st, node)
        fr = Frame(fi, fi.cls, args[0] if args and fi.cls is not None else None, closure_env)
        self.inlined.add(fi.qual)
        self.log('enter', node, st, info=fi.qual, args=[self.freeze(x, st) for x in args], kwargs={k: self.freeze(v, st) for k, v in env.items()}, func=mk('func', fi))
        saved_env = st.env
        st.env = env
        fr.base_guards = st.guards
        self.callstack.append(fr)
        if isinstance(fi.node, ast.Lambda):
            v = self.ev(fi.node.body, fr, st)
            self.callstack.pop()
            st.env = saved_env
            return v
        alive = self.block(fi.node.body, fr, st)
        self.callstack.pop()
        outs = fr.returns
        if alive:
            outs.append((st.copy(), NONE))
        if not outs:
            st.env = saved_env
            st.dead = True
            self.dead_call = True
            raise DeadPath()
        accs, accv = outs[-1]
        n = len(fr.base_guards)
        for s, v in reversed(outs[:-1]):
            c = conj([g.term() for g in s.guards[n:] if g.kind != 'raise'])
            accv = ite(c, v, accv)
            accs = self.merge(s, accs, c)
        # drop branch/return guards of the callee, keep raise facts
        gs = tuple(accs.guards[:n]) + tuple(g for g in accs.guards[n:] if g.kind == 'raise')
        accs.guards = gs
        accs.env = saved_env
        st.become(accs)
        self.log('exit', node, st, info=fi.qual, value=self.freeze(accv, st), func=mk('func', fi))
        return accv

    def instantiate(self, ci, args, kwargs, st, node):
        oid = self.fresh(ci.name)
        st.heap[oid] = HInst(ci, False)
        t = mk('obj', oid)
        self.log('new', node, st, info=ci.qual, args=[self.freeze(x, st) for x in args], kwargs={k: self.freeze(v, st) for k, v in kwargs.items()}, result=t)
        init = self.p.find_method(ci, '__init__')
        if init is not None:
            self.inline(init, [t] + list(args), kwargs, st, node)
        elif any(k.is_dataclass for k in self.p.mro(ci)):
            fields = []
            for k in reversed(self.p.mro(ci)):
                if k.is_dataclass:
                    for n in k.annots:
                        if n not in fields:
                            fields.append(n)
            h = st.heap[oid]
            for n in fields:
                kk = self.p.find_classvar(ci, n)
                h.attrs[n] = self.classvar(kk, n, st) if kk else mk('sym', ci.name + ':' + n)
                pr = self.preset(ci, n)
                if pr is not None:
                    h.attrs[n] = pr
            for n, v in zip(fields, args):
                h.attrs[n] = v
            for k2, v in kwargs.items():
                h.attrs[k2] = v
            # non-dataclass subclasses keep plain class variables
            for k in self.p.mro(ci):
                if not k.is_dataclass:
                    for n in k.classvars:
                        pr = self.preset(ci, n)
                        if pr is not None:
                            h.attrs[n] = pr
            pi = self.p.find_method(ci, '__post_init__')
            if pi is not None:
                self.inline(pi, [t], {}, st, node)
        return t

    def do_call(self, f, args, kwargs, st, node):
        self.steps += 1
        if self.steps > self.budget:
            raise Budget('analysis budget exceeded')
        if f.op == 'bound':
            return self.inline(f.args[1], [f.args[0]] + args, kwargs, st, node)
        if f.op == 'func':
            return self.inline(f.args[0], args, kwargs, st, node)
        if f.op == 'rawfunc':
            return self.inline(f.args[0], args, kwargs, st, node, raw=True)
        if f.op == 'closure':
            fi, env = self.closures[f.args[0]]
            return self.inline(fi, args, kwargs, st, node, closure_env=env)
        if f.op == 'class':
            ci = f.args[0]
            if self.p.has_ext_base(ci):
                pass
            else:
                return self.instantiate(ci, args, kwargs, st, node)
        if f.op == 'ite' and self.size(f) < 8 and any(x.op in ('bound', 'func', 'closure', 'meth', 'ite') for x in f.args[1:]):
            s2 = st.copy()
            c = f.args[0]
            g = st.guards
            st.guards = g + (Guard(c, True, 'branch'),)
            s2.guards = g + (Guard(c, False, 'branch'),)
            a = self.do_call(f.args[1], [self.refine(x, st) for x in args], {k: self.refine(x, st) for k, x in kwargs.items()}, st, node)
            b = self.do_call(f.args[2], [self.refine(x, s2) for x in args], {k: self.refine(x, s2) for k, x in kwargs.items()}, s2, node)
            env = st.env
            st.become(self.merge(st, s2, c))
            st.env = env
            return ite(c, a, b)
        h = self.hobj(f, st, 'inst')
        if h is not None and h.cls is not None:
            m = self.p.find_method(h.cls, '__call__')
            if m is not None:
                return self.inline(m, [f] + args, kwargs, st, node)
        if f.op == 'partial':
            return self.do_call(f.args[0], list(f.args[1]) + args, dict(f.args[2], **kwargs), st, node)
        r = self.builtin(f, args, kwargs, st, node)
        if r is not None:
            return r
        fa = []
        for x in args:
            if x.op == 'star':
                s = self.seq(x.args[0], st)
                if s is not None:
                    fa.extend(self.freeze(y, st) for y in s)
                    continue
                fa.append(mk('star', self.freeze(x.args[0], st)))
            else:
                fa.append(self.freeze(x, st))
        kk = {}
        for k, v in kwargs.items():
            if k == '**':
                s = self.hobj(v, st, 'dict')
                if s is not None and not s.dyn:
                    for a, b in s.known.items():
                        kk[a.args[0] if a.op == 'const' else show(a)] = self.freeze(b, st)
                    continue
                kk['**'] = self.freeze(v, st)
            else:
                kk[k] = self.freeze(v, st)
        if f.op == 'meth':
            f = mk('attr', self.freeze(f.args[0], st), f.args[1])
        res = mk('call', f, tuple(fa), tuple(sorted(kk.items())))
        self.log('call', node, st, func=f, args=fa, kwargs=kk, result=res)
        return res

    # ------------------------------------------------------------- builtins
    def builtin(self, f, args, kwargs, st, node):
        if f.op == 'meth':
            return self.heap_method(f.args[0], f.args[1], args, kwargs, st, node)
        if f.op == 'attr' and f.args[0].op == 'const' and isinstance(f.args[0].args[0], str) and f.args[1] in SAFE_STR:
            fa = [self.freeze(a, st) for a in args]
            fk = {k: self.freeze(v, st) for k, v in kwargs.items()}

            def py(t):
                if t.op == 'const':
                    return t.args[0]
                if t.op == 'list':
                    return [py(x) for x in t.args]
                if t.op == 'tuple':
                    return tuple(py(x) for x in t.args)
                raise KeyError
            try:
                v = getattr(f.args[0].args[0], f.args[1])(*[py(a) for a in fa], **{k: py(v) for k, v in fk.items()})
                if isinstance(v, list):
                    return self.new_list(st, [(const(x), (), ()) for x in v])
                return const(v)
            except Exception:
                pass
            return mk('strop', f.args[1], f.args[0], tuple(fa), tuple(sorted(fk.items())))
        if f.op == 'attr' and f.args[1] == 'update' and f.args[0].op in ('sym', 'attr', 'item') and len(args) == 1 and not kwargs:
            h = self.hobj(args[0], st, 'dict')
            if h is not None and not h.dyn and h.known and all(v.op != 'ite' or UNDEF not in v.args[1:] for v in h.known.values()):
                for k, v in list(h.known.items()):
                    self.store_item(f.args[0], k, v, st, node)
                return NONE
        if f.op == 'attr' and f.args[0].op == 'dictof' and f.args[1] in ('update', 'keys', 'items', 'values', 'copy', 'get', 'pop'):
            inst = f.args[0].args[0]
            h = self.hobj(inst, st, 'inst')
            if f.args[1] == 'update' and h is not None:
                src = [self.hobj(a, st, 'dict') for a in args]
                if args and all(s is not None and not s.dyn for s in src):
                    for s in src:
                        for k, v in s.known.items():
                            self.store_attr(inst, k.args[0], v, st, node)
                    return NONE
                for a in args:
                    self.log('setattr_dyn', node, st, base=inst, value=self.freeze(a, st))
                    # keys unknown: every attribute may change
                    if h.lazy is False:
                        h.lazy = True
                        h.attrs.clear()
                return NONE
            if f.args[1] == 'keys':
                return f.args[0]
            if f.args[1] == 'copy' and h is not None and not h.lazy:
                return self.new_dict(st, {const(k): v for k, v in h.attrs.items()})
        if f.op == 'attr' and f.args[1] in ('keys', 'items', 'values') and not args and not kwargs:
            op = {'keys': 'dictkeys', 'items': 'dictitems', 'values': 'dictvalues'}[f.args[1]]
            self.dictlike.add(f.args[0])
            return mk(op, f.args[0])
        if f.op != 'glob':
            return None
        n = f.args[0]
        if n.startswith('builtins.'):
            b = n[9:]
            fn = getattr(self, 'b_' + b, None)
            if fn is not None:
                return fn(args, kwargs, st, node)
            if b in ('int', 'float', 'str', 'abs', 'bool', 'len', 'min', 'max', 'round') and args and all(a.op == 'const' for a in args) and not kwargs:
                try:
                    return const(getattr(__import__('builtins'), b)(*[a.args[0] for a in args]))
                except Exception:
                    return None
        if n == 'functools.partial' and args:
            return mk('partial', args[0], tuple(args[1:]), tuple(sorted(kwargs.items())))
        if n == 'dataclasses.asdict' and len(args) == 1:
            d = self.new_dict(st)
            a = mk('asdict', self.freeze(args[0], st))
            st.heap[d.args[0]].dyn.append((mk('star', a), mk('star', a), (), ()))
            return d
        return None

    def b_isinstance(self, args, kwargs, st, node):
        x, ty = args
        tys = self.seq(ty, st) if ty.op in ('tuple', 'list', 'obj') else [ty]
        if tys is None:
            tys = [ty]
        h = self.hobj(x, st)
        out = []
        for t in tys:
            r = None
            if t.op == 'glob' and t.args[0] in ('builtins.NoneType', 'types.NoneType'):
                out.append(self.compare('is', x, NONE, st))
                continue
            if h is not None and h.kind == 'inst' and h.cls is not None and t.op == 'class':
                if t.args[0] in self.p.mro(h.cls):
                    r = True
                elif not h.lazy:
                    r = False
            elif h is not None and h.kind in ('list', 'dict'):
                if t.op == 'glob':
                    r = t.args[0] == 'builtins.' + h.kind
            elif x.op in ('const', 'tuple') and t.op == 'glob' and t.args[0] in PYTYPES:
                v = x.args[0] if x.op == 'const' else x.args
                r = isinstance(v, PYTYPES[t.args[0]])
            elif x.op == 'const' and t.op in ('glob', 'class'):
                r = False
            elif x.op == 'list' and t.op == 'glob':
                r = t.args[0] == 'builtins.list'
            elif x.op == 'call' and x.args[0].op == 'attr' and x.args[0].args[1] in ('full', 'flatten') and t.op == 'glob' and t.args[0].startswith(('numpy.', 'casadi.')):
                r = t.args[0] == 'numpy.ndarray'
            if r is None:
                r = mk('isinst', x, t)
            else:
                r = const(r)
            out.append(r)
        return disj(out)

    def b_hasattr(self, args, kwargs, st, node):
        x, n = args
        h = self.hobj(x, st, 'inst')
        if h is not None and n.op == 'const':
            nm = n.args[0]
            if nm in h.attrs and h.attrs[nm] is not UNDEF:
                v = h.attrs[nm]
                if v.op == 'ite' and UNDEF in v.args[1:]:
                    c = v.args[0]
                    return c if v.args[2] is UNDEF else not_(c)
                return TRUE
            if h.cls is not None and (self.p.find_prop(h.cls, nm) or self.p.find_method(h.cls, nm) or self.p.find_classvar(h.cls, nm)):
                return TRUE
            if not h.lazy and h.cls is not None and not self.p.has_ext_base(h.cls):
                return FALSE
        return mk('hasattr', x, self.freeze(n, st))

    def b_getattr(self, args, kwargs, st, node):
        x, n = args[0], args[1]
        if n.op == 'const' and isinstance(n.args[0], str):
            if len(args) == 3:
                ha = self.b_hasattr([x, n], {}, st, node)
                if ha is FALSE:
                    return args[2]
                if ha is not TRUE and self.hobj(x, st, 'inst') is not None:
                    return ite(ha, self.load_attr(x, n.args[0], st, node), args[2])
            return self.load_attr(x, n.args[0], st, node)
        if n.op == 'ite':
            return ite(n.args[0], self.b_getattr([x, n.args[1]] + args[2:], kwargs, st, node), self.b_getattr([x, n.args[2]] + args[2:], kwargs, st, node))
        y = next((y for y in walk(n) if y.op == 'ite'), None) if n.op == 'bin' or n.op == 'fmtstr' or n.op == 'strop' else None
        if y is not None:
            f = lambda k: self.b_getattr([x, subst(n, lambda z: k if z is y else None)] + args[2:], kwargs, st, node)
            return ite(y.args[0], f(y.args[1]), f(y.args[2]))
        if any(y.op == 'unk' for y in walk(n)):
            return next(y for y in walk(n) if y.op == 'unk')
        for g in reversed(st.guards):
            # one of a few names, established by a check
            cs = g.cond.args if g.cond.op == 'or' else ()
            if not g.pol or not 2 <= len(cs) <= 6 or any(c.op != 'cmp' or c.args[0] != '==' for c in cs):
                continue
            ps = [(c.args[1], c.args[2]) if c.args[2].op == 'const' else (c.args[2], c.args[1]) for c in cs]
            if any(p[0] is not ps[0][0] or p[1].op != 'const' or not isinstance(p[1].args[0], str) for p in ps):
                continue
            names = [self.name_for(n, p, k) for p, k in ps]
            if None in names:
                continue
            r = None
            for (p, k), nm in zip(reversed(ps), reversed(names)):
                v = self.b_getattr([x, const(nm)] + args[2:], kwargs, st, node)
                r = v if r is None else ite(self.compare('==', p, k, st), v, r)
            return r
        return mk('getattr', x, n)

    def name_for(self, n, p, k):
        """text n where its part p is the constant k"""
        if n is p:
            return k.args[0]
        if n.op == 'const' and isinstance(n.args[0], str):
            return n.args[0]
        if n.op == 'bin' and n.args[0] == '+':
            xs = [self.name_for(x, p, k) for x in n.args[1:]]
            return None if None in xs else ''.join(xs)
        if n.op == 'fmtstr':
            xs = [self.name_for(x.args[0] if x.op == 'fmtval' and x.args[1] is NONE else x, p, k) for x in n.args]
            return None if None in xs else ''.join(xs)
        if n.op == 'strop' and n.args[0] == 'format' and n.args[1].op == 'const':
            xs = [self.name_for(x, p, k) for x in n.args[2]]
            kw = {m: self.name_for(x, p, k) for m, x in n.args[3]}
            if None in xs or None in kw.values():
                return None
            try:
                return n.args[1].args[0].format(*xs, **kw)
            except (KeyError, IndexError, ValueError):
                return None
        return None

    def b_setattr(self, args, kwargs, st, node):
        x, n, v = args
        if n.op == 'const':
            self.store_attr(x, n.args[0], v, st, node)
        else:
            self.log('setattr_dyn', node, st, base=x, key=self.freeze(n, st), value=self.freeze(v, st))
            self.bump(st, x, None)
        return NONE

    def b_len(self, args, kwargs, st, node):
        s = self.seq(args[0], st)
        if s is not None and args[0].op != 'range':
            return const(len(s))
        x = self.sofar(args[0], st)
        r = self.mapped(x)
        return r.args[1] if r is not None else self.same_length(x, st)

    @staticmethod
    def same_length(x, st):
        """number of elements; sequences checked to have the same length share it"""
        n = best = mk('len', x)
        for g in st.guards:
            if g.pol and g.cond.op == 'cmp' and g.cond.args[0] == '==' and n in g.cond.args[1:] and all(y.op == 'len' and y.args[0].op == 'sym' and 'kwargs' not in y.args[0].args[0] for y in g.cond.args[1:]):
                best = min(best, *g.cond.args[1:], key=show)
        return best

    def b_range(self, args, kwargs, st, node):
        args = list(args)
        if len(args) == 1:
            return mk('range', const(0), args[0], const(1))
        if len(args) == 2:
            return mk('range', args[0], args[1], const(1))
        return mk('range', *args)

    def b_zip(self, args, kwargs, st, node):
        return mk('zip', *[self.freeze(a, st) for a in args])

    def b_enumerate(self, args, kwargs, st, node):
        s = args[1] if len(args) > 1 else kwargs.get('start', const(0))
        if args[0].op == 'ite' and self.chosen(args[0], st):
            return ite(args[0].args[0], *[self.b_enumerate([x, s], {}, st, node) for x in args[0].args[1:]])
        return mk('enumerate', self.freeze(args[0], st), s)

    def b_tuple(self, args, kwargs, st, node):
        if not args:
            return mk('tuple')
        s = self.seq(args[0], st)
        if s is not None:
            return mk('tuple', *s)
        return None

    def b_list(self, args, kwargs, st, node):
        if not args:
            return self.new_list(st)
        s = self.seq(args[0], st)
        if s is not None:
            return self.new_list(st, [(v, (), ()) for v in s])
        h = self.hobj(args[0], st, 'list')
        if h is not None:
            return self.new_list(st, h.entries)
        if args[0].op == 'range':
            return self.new_list(st, [(mk('spread', args[0]), (), ())])
        return None

    b_sorted = None

    def b_dict(self, args, kwargs, st, node):
        if not args and '**' not in kwargs:
            return self.new_dict(st, {const(k): v for k, v in kwargs.items()})
        if len(args) == 1 and self.hobj(args[0], st, 'dict') is not None:
            t = self.new_dict(st)
            h, s = st.heap[t.args[0]], self.hobj(args[0], st, 'dict')
            h.known.update(s.known)
            h.dyn.extend(s.dyn)
            for k, v in kwargs.items():
                h.known[const(k)] = v
            return t
        if len(args) == 1 and args[0].op in ('sym', 'attr') and '**' not in kwargs:
            # a copy of another mapping
            t = self.new_dict(st)
            h = st.heap[t.args[0]]
            h.dyn.append((mk('star', args[0]), mk('star', args[0]), (), ()))
            for k, v in kwargs.items():
                h.known[const(k)] = v
            return t
        return None

    def b_super(self, args, kwargs, st, node):
        fr = self.callstack[-1]
        if args:
            return mk('super', args[1], args[0].args[0]) if args[0].op == 'class' else None
        while fr is not None and fr.selft is None and fr.parent is not None:
            fr = fr.parent
        if fr.selft is not None and fr.cls is not None:
            return mk('super', fr.selft, fr.cls)
        return None

    def b_any(self, args, kwargs, st, node):
        s = self.seq(args[0], st)
        if s is not None:
            return disj([self.truth(x, st) for x in s])
        h = self.hobj(args[0], st, 'list')
        return None

    def b_all(self, args, kwargs, st, node):
        s = self.seq(args[0], st)
        if s is not None:
            return conj([self.truth(x, st) for x in s])
        return None

    def b_sum(self, args, kwargs, st, node):
        s = self.seq(args[0], st)
        if s is not None:
            acc = args[1] if len(args) > 1 else const(0)
            for x in s:
                acc = self.binop('+', acc, x, st, node)
            return acc
        h = self.hobj(args[0], st, 'list')
        if h is not None and not any(v.op in ('spread', 'setat') for v, _, _ in h.entries):
            acc = args[1] if len(args) > 1 else const(0)
            for v, l, g in h.entries:
                acc = mk('bin', '+', acc, mk('sumover', self.freeze(v, st), mk('tuple', *l), mk('tuple', *[x.term() for x in g])))
            return acc
        if h is None and args[0].op == 'sym':
            lp, e = self.loop_of(args[0], st)
            return mk('bin', '+', args[1] if len(args) > 1 else const(0), mk('sumover', e, mk('tuple', lp), mk('tuple')))
        return None

    def b_slice(self, args, kwargs, st, node):
        if kwargs or not 1 <= len(args) <= 3 or any(x.op == 'star' for x in args):
            return None
        a = [NONE] + args if len(args) == 1 else list(args)
        return mk('slice', *[self.freeze(x, st) for x in (a + [NONE])[:3]])

    def b_print(self, args, kwargs, st, node):
        self.log('print', node, st, args=[self.freeze(a, st) for a in args])
        return NONE

    def b_type(self, args, kwargs, st, node):
        if len(args) == 1:
            h = self.hobj(args[0], st)
            if h is not None:
                if h.kind == 'inst' and h.cls is not None and not h.lazy:
                    return mk('class', h.cls)
                if h.kind in ('list', 'dict'):
                    return mk('glob', 'builtins.' + h.kind)
            if args[0].op == 'const':
                return mk('glob', 'builtins.' + type(args[0].args[0]).__name__)
        return None

    def heap_method(self, t, name, args, kwargs, st, node):
        h = self.hobj(t, st)
        if h.kind == 'list':
            self.log('listop', node, st, base=t, key=name, args=[self.freeze(a, st) for a in args])
            if name == 'append':
                h.entries.append((args[0], self.rel_loops(h), self.rel_guards(h, st)))
                return NONE
            if name == 'insert' and is_const(args[0], 0) and h.plain() and not self.rel_loops(h):
                h.entries.insert(0, (args[1], (), ()))
                return NONE
            if name == 'extend':
                self.extend(h, args[0], st)
                return NONE
            if name == 'copy':
                return self.new_list(st, h.entries)
            if name == 'pop' and h.plain() and h.entries and (not args or args[0].op == 'const'):
                return h.entries.pop(args[0].args[0] if args else -1)[0]
            if name == 'index' and args:
                return mk('indexof', self.freeze(t, st), args[0])
            if name in ('sort', 'reverse', 'clear', 'remove', 'insert', 'pop'):
                fr = self.freeze(t, st)
                h.entries[:] = [] if name == 'clear' else [(mk('spread', mk('listop', name, fr, tuple(self.freeze(a, st) for a in args))), (), ())]
                return mk('listop', name, fr, tuple(self.freeze(a, st) for a in args))
            return None
        # dict
        if name == 'update':
            for a in args:
                s = self.hobj(a, st, 'dict')
                if s is not None:
                    for k, v in s.known.items():
                        if v.op == 'ite' and UNDEF in v.args[1:]:
                            c = v.args[0] if v.args[2] is UNDEF else not_(v.args[0])
                            vv = v.args[1] if v.args[2] is UNDEF else v.args[2]
                            h.known[k] = ite(c, vv, h.known.get(k, UNDEF))
                        else:
                            h.known[k] = v
                    h.dyn.extend(s.dyn)
                elif a.op == 'dict':
                    h.known.update(dict(a.args[0]))
                    h.dyn.extend((e.args[0].args[0], e.args[0].args[1], e.args[1].args, ()) for e in a.args[1])
                else:
                    h.dyn.append((mk('star', a), mk('star', a), self.rel_loops(h), ()))
            for k, v in kwargs.items():
                if k == '**':
                    h.dyn.append((mk('star', v), mk('star', v), self.rel_loops(h), ()))
                else:
                    h.known[const(k)] = v
            self.log('dictop', node, st, base=t, key='update', args=[self.freeze(a, st) for a in args], kwargs={k: self.freeze(v, st) for k, v in kwargs.items()})
            return NONE
        if name == 'keys':
            return mk('dictkeys', t)
        if name == 'items':
            return mk('dictitems', t)
        if name == 'values':
            return mk('dictvalues', t)
        if name == 'copy':
            n = self.new_dict(st)
            st.heap[n.args[0]].known.update(h.known)
            st.heap[n.args[0]].dyn.extend(h.dyn)
            return n
        if name in ('get', 'pop', 'setdefault') and args and args[0].op == 'const':
            d = args[1] if len(args) > 1 else NONE
            v = h.known.get(args[0])
            if v is not None and not (v.op == 'ite' and UNDEF in v.args[1:]):
                if name == 'pop':
                    del h.known[args[0]]
                return v
            if v is None and not h.dyn and not self.rel_loops(h):
                if name == 'setdefault':
                    h.known[args[0]] = d
                return d
        return None

    def extend(self, h, x, st):
        s = self.seq(x, st)
        if s is not None:
            for v in s:
                h.entries.append((v, self.rel_loops(h), self.rel_guards(h, st)))
            return
        o = self.hobj(x, st, 'list')
        if o is not None:
            for v, l, g in o.entries:
                h.entries.append((v, self.rel_loops(h) + tuple(y for y in l if y not in self.loops), self.rel_guards(h, st) + tuple(g)))
            return
        h.entries.append((mk('spread', self.freeze(x, st)), self.rel_loops(h), self.rel_guards(h, st)))

    def cur_loops(self):
        return self.loops

    def cur_guards(self, st):
        """guards of the enclosing loop bodies of this frame (branch guards outside loops are added by merge)"""
        base = self.loop_guard_base if self.loops else None
        if base is None:
            return ()
        return tuple(g for g in st.guards[base:] if g.kind != 'raise')

    loop_guard_base = None

    # ------------------------------------------------------------- expressions
    def ev(self, n, fr, st):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            return mk('opaque', type(n).__name__)
        return m(n, fr, st)

    def e_Constant(self, n, fr, st):
        if isinstance(n.value, (bytes, complex)) or n.value is Ellipsis:
            return mk('opaque', repr(n.value))
        return const(n.value)

    def e_Name(self, n, fr, st):
        v = st.env.get(n.id)
        if v is None and fr.closure_env is not None:
            e = fr.closure_env
            while e is not None:
                if n.id in e[0]:
                    v = e[0][n.id]
                    break
                e = e[1]
        if v is None:
            r = self.p._lookup(fr.mod, n.id, set()) if n.id not in self.local_names(fr.fi.node) else None
            if r is not None:
                return self.resolved(r, st)
            if n.id in BUILTINS:
                return mk('glob', 'builtins.' + n.id)
            self.log('undef_name', n, st, info=n.id)
            if self.loops:
                return mk('unk', 'name', const(n.id))
            v = UNDEF
        else:
            v = self.refine(v, st)
        if v is UNDEF:
            # NameError
            self.log('raise', n, st, value=mk('glob', 'builtins.NameError'), info='unbound')
            raise DeadPath()
        if v.op == 'ite' and UNDEF in undef_leaves(v):
            lp = next((l for l, ns in reversed(self.loop_names) if n.id in ns and fr.fi is ns[0]), None)
            if lp is not None:      # the value of an earlier pass
                return subst_undef(v, mk('carry', lp, n.id))
            c, v = bound_when(v)
            if c is not TRUE:
                g = st.guards
                st.guards = g + (Guard(c, False, 'branch'),)
                self.log('raise', n, st, value=mk('glob', 'builtins.NameError'), info='unbound')
                st.guards = g + (Guard(c, True, 'raise'),)
        return v

    def local_names(self, node):
        """names bound by assignments of a function itself (not of functions inside it)"""
        r = self.local_cache.get(node)
        if r is None:
            r, out = set(), set()
            todo = list(node.body) if isinstance(node.body, list) else [node.body]
            while todo:
                x = todo.pop()
                if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    r.add(x.name)
                    continue
                if isinstance(x, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                    continue
                if isinstance(x, (ast.Global, ast.Nonlocal)):
                    out |= set(x.names)
                elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    r.add(x.id)
                todo += list(ast.iter_child_nodes(x))
            r -= out
            self.local_cache[node] = r
        return r

    def refine(self, v, st):
        if v.op in ('const', 'obj'):
            return v
        f = self.facts(st)
        e = f.get(('eq', v))
        if e is not None:
            return e
        if v.op == 'ite':
            d = self.decide(v.args[0], st)
            if d is not None:
                return self.refine(v.args[1] if d else v.args[2], st)
        return v

    def e_Attribute(self, n, fr, st):
        b = self.ev(n.value, fr, st)
        return self.refine(self.load_attr(b, n.attr, st, n), st)

    def e_Subscript(self, n, fr, st):
        b = self.ev(n.value, fr, st)
        k = self.ev(n.slice, fr, st)
        return self.refine(self.load_item(b, k, st, n), st)

    def e_Slice(self, n, fr, st):
        return mk('slice', *[self.ev(x, fr, st) if x is not None else NONE for x in (n.lower, n.upper, n.step)])

    def e_Index(self, n, fr, st):
        return self.ev(n.value, fr, st)

    def e_Tuple(self, n, fr, st):
        out = []
        for x in n.elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, fr, st)
                s = self.seq(v, st)
                if s is not None:
                    out.extend(s)
                else:
                    out.append(mk('star', self.freeze(v, st)))
            else:
                out.append(self.ev(x, fr, st))
        return mk('tuple', *out)

    def e_List(self, n, fr, st):
        t = self.e_Tuple(n, fr, st)
        ents = []
        for x in t.args:
            ents.append((mk('spread', x.args[0]), (), ()) if x.op == 'star' else (x, (), ()))
        return self.new_list(st, ents)

    def e_Set(self, n, fr, st):
        return self.e_Tuple(n, fr, st)

    def e_Dict(self, n, fr, st):
        t = self.new_dict(st)
        for k, v in zip(n.keys, n.values):
            vv = self.ev(v, fr, st)
            h = st.heap[t.args[0]]
            if k is None:
                s = self.hobj(vv, st, 'dict')
                if s is not None:
                    h.known.update(s.known)
                    h.dyn.extend(s.dyn)
                else:
                    h.dyn.append((mk('star', vv), mk('star', vv), (), ()))
                continue
            kk = self.freeze(self.ev(k, fr, st), st)
            h = st.heap[t.args[0]]
            if kk.op in ('const', 'glob', 'class'):
                h.known[kk] = vv
            else:
                h.dyn.append((kk, vv, self.rel_loops(h), ()))
        return t

    def e_Starred(self, n, fr, st):
        return mk('star', self.ev(n.value, fr, st))

    def e_JoinedStr(self, n, fr, st):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                x = self.freeze(self.ev(v.value, fr, st), st)
                spec = None
                if v.format_spec is not None:
                    spec = self.ev(v.format_spec, fr, st)
                if x.op == 'const' and spec is None:
                    parts.append(const(str(x.args[0])))
                else:
                    parts.append(mk('fmtval', x, spec if spec is not None else NONE))
        if all(p.op == 'const' for p in parts):
            return const(''.join(p.args[0] for p in parts))
        return mk('fmtstr', *parts)

    def e_FormattedValue(self, n, fr, st):
        return self.ev(n.value, fr, st)

    def e_BinOp(self, n, fr, st):
        return self.binop(BINOPS[type(n.op)], self.ev(n.left, fr, st), self.ev(n.right, fr, st), st, n)

    def binop(self, op, a, b, st, node):
        if op in ('-', '|', '&') and 'tuple' in (a.op, b.op):       # sets
            a, b = (mk('call', mk('glob', 'builtins.set'), (mk('list', *x.args),), ()) if x.op == 'tuple' else x for x in (a, b))
        if a.op == 'const' and b.op == 'const':
            try:
                x, y = a.args[0], b.args[0]
                r = {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, '/': lambda: x / y, '%': lambda: x % y, '//': lambda: x // y, '**': lambda: x ** y}[op]()
                if isinstance(r, (int, float, str, bool)) and len(str(r)) < 200:
                    return const(r)
            except Exception:
                pass
        if op == '+':
            ha, hb = self.hobj(a, st, 'list'), self.hobj(b, st, 'list')
            if ha is not None or hb is not None:
                t = self.new_list(st)
                h = st.heap[t.args[0]]
                for x in (a, b):
                    hx = self.hobj(x, st, 'list')
                    if hx is not None:
                        h.entries.extend(hx.entries)
                    else:
                        s = self.seq(x, st)
                        if s is not None:
                            h.entries.extend((v, (), ()) for v in s)
                        else:
                            h.entries.append((mk('spread', self.freeze(x, st)), (), ()))
                return t
            if a.op == 'tuple' and b.op == 'tuple':
                return mk('tuple', *(a.args + b.args))
        if op == '*' and a.op == 'tuple' and b.op == 'const' and isinstance(b.args[0], int) and b.args[0] < 8:
            return mk('tuple', *(a.args * b.args[0]))
        if op == '*':
            for x, y in ((a, b), (b, a)):
                h = self.hobj(x, st, 'list')
                if h is not None and y.op == 'const' and type(y.args[0]) is int and 0 < y.args[0] < 8 and h.plain():
                    return self.new_list(st, list(h.entries) * y.args[0])
        return mk('bin', op, self.freeze(a, st), self.freeze(b, st))

    def e_UnaryOp(self, n, fr, st):
        v = self.ev(n.operand, fr, st)
        if isinstance(n.op, ast.Not):
            return not_(self.truth(v, st))
        if v.op == 'const' and isinstance(v.args[0], (int, float)):
            return const({ast.USub: lambda x: -x, ast.UAdd: lambda x: +x, ast.Invert: lambda x: ~x}[type(n.op)](v.args[0]))
        return mk('un', {ast.USub: '-', ast.UAdd: '+', ast.Invert: '~'}[type(n.op)], self.freeze(v, st))

    def e_BoolOp(self, n, fr, st):
        isand = isinstance(n.op, ast.And)
        vals = []
        g = st.guards
        for x in n.values:
            v = self.ev(x, fr, st)
            t = self.truth(v, st)
            if t.op == 'const':
                if bool(t.args[0]) != isand:
                    vals.append(v if not vals else t)
                    break
                last = v
                if x is n.values[-1] and not vals:
                    st.guards = g
                    return v
                continue
            vals.append(t)
            st.guards = st.guards + (Guard(t, isand, 'branch'),)
        st.guards = g + tuple(x for x in st.guards[len(g):] if x.kind == 'raise')
        if len(vals) == 1:
            return vals[0]
        return conj(vals) if isand else disj(vals)

    def e_Compare(self, n, fr, st):
        left = self.ev(n.left, fr, st)
        out = []
        for op, r in zip(n.ops, n.comparators):
            right = self.ev(r, fr, st)
            out.append(self.compare(CMPS[type(op)], left, right, st))
            left = right
        return conj(out)

    def compare(self, op, a, b, st):
        if op == '!=':
            return not_(self.compare('==', a, b, st))
        if op == 'is not':
            return not_(self.compare('is', a, b, st))
        if op == 'not in':
            return not_(self.compare('in', a, b, st))
        if op == 'in':
            if b.op == 'dictof' and a.op == 'const':
                return self.b_hasattr([b.args[0], a], {}, st, None)
            while b.op == 'call' and b.args[0].op == 'glob' and b.args[0].args[0] in ('builtins.list', 'builtins.tuple', 'builtins.set') and len(b.args[1]) == 1 and not b.args[2] and b.args[1][0].op != 'star':
                b = b.args[1][0]
            if b.op == 'dictkeys':
                b = b.args[0]
            s = self.seq(b, st)
            if s is not None and not (b.op == 'const'):
                if a in s:
                    return TRUE
                return disj([self.compare('==', a, x, st) for x in s])
            h = self.hobj(b, st, 'dict')
            if h is not None and a in h.known and a.op == 'const':
                v = h.known[a]
                if v.op == 'ite' and UNDEF in v.args[1:]:
                    return v.args[0] if v.args[2] is UNDEF else not_(v.args[0])
                return TRUE
            if a.op == 'const' and b.op == 'const' and isinstance(a.args[0], str) and isinstance(b.args[0], str):
                return const(a.args[0] in b.args[0])
            return mk('in', self.freeze(a, st), self.sofar(b, st))
        if a.op == 'ite' and b.op == 'const' and self.size(a) < 8:
            return ite(a.args[0], self.compare(op, a.args[1], b, st), self.compare(op, a.args[2], b, st))
        if op in ('==', 'is') and a.op == 'const' and b.op != 'const':
            a, b = b, a
        if op == 'is' and b is NONE:
            pass
        elif op == 'is' and b.op == 'const':
            op = '=='
        if op in ('==', 'is'):
            if a.op == 'const' and b.op == 'const':
                return const(a.args[0] == b.args[0] and (a.args[0] is None) == (b.args[0] is None))
            if b is NONE:
                op = 'is'
                if a.op in ('obj', 'tuple', 'list', 'func', 'bound', 'closure', 'class', 'dict', 'bin', 'fmtstr', 'strop', 'range', 'len'):
                    return FALSE
                if a.op == 'call' and a.args[0].op == 'attr' and a.args[0].args[1] == 'index':
                    return FALSE
                if a.op == 'call' and a.args[0].op == 'glob' and a.args[0].args[0] in ('numpy.all', 'numpy.any') and len(a.args[1]) == 1 and not a.args[2]:
                    # all(None) is None, and only that
                    return self.compare('is', a.args[1][0], b, st)
                if a.op == 'call' and a.args[0].op == 'glob' and a.args[0].args[0].startswith(('casadi.', 'numpy.')) and a.args[0].args[0].split('.')[-1] not in ('put', 'copyto', 'fill_diagonal', 'save', 'savez', 'savetxt', 'seed', 'shuffle', 'place', 'putmask'):
                    return FALSE
            if b is TRUE and op == '==':
                return self.truth(a, st)
            if b is FALSE and op == '==':
                return not_(self.truth(a, st))
            if a is b and a.op in ('const', 'sym', 'glob', 'class'):
                return TRUE
            if a.op == 'class' and b.op == 'class':
                return const(a is b)
            if a.op == 'glob' and b.op == 'glob' and a.args[0].startswith('builtins.') and b.args[0].startswith('builtins.'):
                return const(a is b)
        if a.op == 'const' and b.op == 'const':
            try:
                x, y = a.args[0], b.args[0]
                return const({'<': lambda: x < y, '<=': lambda: x <= y, '>': lambda: x > y, '>=': lambda: x >= y}[op]())
            except Exception:
                pass
        a, b = self.freeze(a, st), self.freeze(b, st)
        if op == '>':
            return mk('cmp', '<', b, a)
        if op == '>=':
            return mk('cmp', '<=', b, a)
        if op in ('==',) and b.op != 'const' and a.hash > b.hash and False:
            a, b = b, a
        return mk('cmp', op, a, b)

    def e_IfExp(self, n, fr, st):
        c = self.truth(self.ev(n.test, fr, st), st)
        if c.op == 'const':
            return self.ev(n.body if c.args[0] else n.orelse, fr, st)
        g = st.guards
        s2 = st.copy()
        st.guards = g + (Guard(c, True, 'branch'),)
        s2.guards = g + (Guard(c, False, 'branch'),)
        a = self.ev(n.body, fr, st)
        b = self.ev(n.orelse, fr, s2)
        st.become(self.merge(st, s2, c))
        st.guards = g
        return ite(c, a, b)

    def less(self, name, key, st):
        """a key taken out of a local copy of a dictionary: its value"""
        from .nlp import fresh_copy
        v = st.env.get(name)
        if v is None or not (v.op == 'without' or v.op == 'call' and fresh_copy(v)) or key.op != 'const' or not isinstance(key.args[0], str):
            return None
        st.env[name] = mk('without', v, key)
        return mk('item', v, key)

    def e_Call(self, n, fr, st):
        if isinstance(n.func, ast.Attribute) and n.func.attr == 'pop' and isinstance(n.func.value, ast.Name) and len(n.args) == 1 and not n.keywords and isinstance(n.args[0], ast.Constant):
            r = self.less(n.func.value.id, const(n.args[0].value), st)
            if r is not None:
                return r
        f = self.ev(n.func, fr, st)
        if f.op == 'glob' and f.args[0] in ('builtins.map', 'builtins.filter') and not n.keywords and len(n.args) > 1 and not any(isinstance(a, ast.Starred) for a in n.args):
            return self.ev(self.as_comp(n, f.args[0].endswith('filter')), fr, st)
        args, kwargs = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, fr, st)
                s = self.seq(v, st)
                if s is not None:
                    args.extend(s)
                else:
                    args.append(mk('star', v))
            else:
                args.append(self.ev(a, fr, st))
        for k in n.keywords:
            v = self.ev(k.value, fr, st)
            if k.arg is None:
                h = self.hobj(v, st, 'dict')
                if h is not None and not h.dyn and all(x.op == 'const' and isinstance(x.args[0], str) for x in h.known) and not any(x.op == 'ite' and UNDEF in x.args[1:] for x in h.known.values()):
                    for a, b in h.known.items():
                        kwargs[a.args[0]] = b
                else:
                    kwargs['**'] = v
            else:
                kwargs[k.arg] = v
        return self.refine(self.split_kw(f, args, kwargs, st, n), st)

    @staticmethod
    def as_comp(n, flt):
        """map(f, x) and filter(f, x) as comprehensions"""
        def name(k, c):
            return ast.copy_location(ast.Name('%%map%d' % k, c), n)
        its = n.args[1:]
        call = ast.copy_location(ast.Call(n.args[0], [name(k, ast.Load()) for k in range(len(its))], []), n)
        if flt and isinstance(n.args[0], ast.Constant) and n.args[0].value is None:
            call = name(0, ast.Load())
        if len(its) == 1:
            tg, it = name(0, ast.Store()), its[0]
        else:
            tg = ast.copy_location(ast.Tuple([name(k, ast.Store()) for k in range(len(its))], ast.Store()), n)
            it = ast.copy_location(ast.Call(ast.copy_location(ast.Name('zip', ast.Load()), n), its, []), n)
        return ast.copy_location(ast.ListComp(name(0, ast.Load()) if flt else call, [ast.comprehension(tg, it, [call] if flt else [], 0)]), n)

    def split_kw(self, f, args, kwargs, st, n):
        """f(**d) where some keys of d are present only under a condition: one call per case"""
        h = self.hobj(kwargs['**'], st, 'dict') if '**' in kwargs else None
        if h is None or h.dyn or not all(x.op == 'const' and isinstance(x.args[0], str) for x in h.known):
            return self.do_call(f, args, kwargs, st, n)
        c = next((v.args[0] for v in h.known.values() if v.op == 'ite' and UNDEF in v.args[1:]), None)
        if c is None:
            kw = {k: v for k, v in kwargs.items() if k != '**'}
            kw.update({k.args[0]: v for k, v in h.known.items()})
            return self.do_call(f, args, kw, st, n)
        g = st.guards
        s2 = st.copy()
        out = []
        for s, pol in ((st, True), (s2, False)):
            d = {}
            for k, v in h.known.items():
                v = (v.args[1] if pol else v.args[2]) if v.op == 'ite' and v.args[0] is c else v
                if v is not UNDEF:
                    d[k] = v
            s.guards = g + (Guard(c, pol, 'branch'),)
            kw = dict(kwargs)
            kw['**'] = self.new_dict(s, d)
            out.append(self.split_kw(f, list(args), kw, s, n))
        env = st.env
        st.become(self.merge(st, s2, c))
        st.env = env
        st.guards = g
        return ite(c, *out)

    def e_Lambda(self, n, fr, st):
        return self.closure(FuncInfo(n, fr.mod, None), fr, st)

    def closure(self, fi, fr, st):
        cid = self.fresh('closure:' + fi.name)
        self.closures[cid] = (fi, (st.env, fr.closure_env))
        return mk('closure', cid)

    def e_Await(self, n, fr, st):
        v = self.ev(n.value, fr, st)
        self.log('await', n, st, value=self.freeze(v, st))
        return v

    def e_Yield(self, n, fr, st):
        if n.value is not None:
            self.ev(n.value, fr, st)
        return mk('opaque', 'yield')

    e_YieldFrom = e_Yield

    def e_NamedExpr(self, n, fr, st):
        v = self.ev(n.value, fr, st)
        st.env[n.target.id] = v
        return v

    def _comp(self, n, fr, st, emit):
        saved_env = st.env
        st.env = dict(saved_env)
        saved_loops, saved_base = self.loops, self.loop_guard_base
        g0 = st.guards

        def rec(gens):
            if not gens:
                emit()
                return
            over(self.ev(gens[0].iter, fr, st), gens)

        def over(it, gens):
            ge = gens[0]
            s = self.seq(it, st)
            if s is None and it.op == 'ite' and self.size(it) < 8 and self.chosen(it, st):
                g = st.guards
                for pol in (True, False):
                    st.guards = g + (Guard(it.args[0], pol, 'branch'),)
                    over(it.args[1 if pol else 2], gens)
                st.guards = g
                return

            def body():
                g = st.guards
                for c in ge.ifs:
                    t = self.truth(self.ev(c, fr, st), st)
                    if t is FALSE:
                        st.guards = g
                        return
                    if t is not TRUE:
                        st.guards = st.guards + (Guard(t, True, 'branch'),)
                rec(gens[1:])
                st.guards = g
            if s is not None and len(s) <= 64:
                for x in s:
                    self.assign(ge.target, x, fr, st, n)
                    body()
            else:
                f = self.filtered(it, st)
                if f is not None:
                    lp, elem, only = f
                else:
                    (lp, elem), only = self.loop_of(it, st), None
                l0, b0, g1 = self.loops, self.loop_guard_base, st.guards
                self.loops = self.loops + (lp,)
                if self.loop_guard_base is None:
                    self.loop_guard_base = len(st.guards)
                if only is not None:
                    st.guards = st.guards + (Guard(only, True, 'branch'),)
                self.assign(ge.target, elem, fr, st, n)
                body()
                st.guards = g1
                self.loops, self.loop_guard_base = l0, b0
        rec(n.generators)
        self.loops, self.loop_guard_base = saved_loops, saved_base
        st.env = saved_env
        st.guards = g0

    def e_ListComp(self, n, fr, st):
        t = self.new_list(st)
        outer = len(self.loops)
        gbase = len(st.guards)

        def emit():
            v = self.ev(n.elt, fr, st)
            h = st.heap[t.args[0]]
            h.entries.append((v, self.loops[outer:], tuple(g for g in st.guards[gbase:] if g.kind != 'raise')))
        self._comp(n, fr, st, emit)
        return t

    e_GeneratorExp = e_ListComp
    e_SetComp = e_ListComp

    def e_DictComp(self, n, fr, st):
        t = self.new_dict(st)
        outer = len(self.loops)
        gbase = len(st.guards)

        def emit():
            k = self.freeze(self.ev(n.key, fr, st), st)
            v = self.ev(n.value, fr, st)
            h = st.heap[t.args[0]]
            if k.op == 'const' and len(self.loops) == outer:
                gs = [g.term() for g in st.guards[gbase:] if g.kind != 'raise']
                h.known[k] = ite(conj(gs), v, h.known.get(k, UNDEF))
            else:
                h.dyn.append((k, v, self.loops[outer:], tuple(g for g in st.guards[gbase:] if g.kind != 'raise')))
        self._comp(n, fr, st, emit)
        return t

    # ------------------------------------------------------------- loops
    def loop_of(self, it, st):
        """(loop term, element term) for iterating over `it`"""
        depth = len(self.loops)
        if it.op == 'range':
            a, b, c = it.args
            if is_const(c, 1) and not is_const(a, 0):
                lp = mk('loop', depth, mk('range', const(0), affine_sub(b, a), c))
                return lp, mk('bin', '+', a, mk('lv', lp)) if not (a.op == 'const') else mk('bin', '+', mk('lv', lp), a)
            lp = mk('loop', depth, it)
            return lp, mk('lv', lp)
        if it.op == 'enumerate':
            src, start = it.args
            lp, e = self.loop_of(src, st)
            i = mk('lv', lp)
            if not is_const(start, 0):
                i = mk('bin', '+', i, start)
            return lp, mk('tuple', i, e)
        if it.op == 'zip':
            parts = [self.loop_of(x, st) for x in it.args]
            # sequences iterated together have the same length: any of them, independent of their order
            # (a slice x[k:] may be longer)
            lp = min((l for l, _ in parts), key=lambda x: (any(y.op == 'slice' for y in walk(x)), show(x), x.args[1].op)) if parts else mk('loop', depth, mk('range', const(0), const(0), const(1)))
            iv = mk('lv', lp)
            els = []
            for l, e in parts:
                li = mk('lv', l)
                els.append(subst(e, lambda x: iv if x is li else None) if l is not lp else e)
            return lp, mk('tuple', *els)
        if it.op == 'dictitems':
            d = self.freeze(it.args[0], st)
            lp = mk('loop', depth, mk('range', const(0), mk('len', d), const(1)))
            k = mk('keyof', d, mk('lv', lp))
            return lp, mk('tuple', k, mk('item', d, k))
        if it.op == 'dictkeys' or self.hobj(it, st, 'dict') is not None or it.op == 'dict':
            d = self.freeze(it.args[0] if it.op == 'dictkeys' else it, st)
            lp = mk('loop', depth, mk('range', const(0), mk('len', d), const(1)))
            return lp, mk('keyof', d, mk('lv', lp))
        if it.op == 'dictvalues':
            d = self.freeze(it.args[0], st)
            lp = mk('loop', depth, mk('range', const(0), mk('len', d), const(1)))
            return lp, mk('item', d, mk('keyof', d, mk('lv', lp)))
        if it.op == 'asdict':
            lp = mk('loop', depth, mk('range', const(0), mk('len', it), const(1)))
            return lp, mk('keyof', it, mk('lv', lp))
        if it.op == 'call' and it.args[0].op == 'glob' and it.args[0].args[0] in ('builtins.list', 'builtins.tuple', 'builtins.iter') and len(it.args[1]) == 1 and not it.args[2] and it.args[1][0].op != 'star':
            return self.loop_of(it.args[1][0], st)
        x = self.freeze(it, st)
        n = self.mapped(x)
        if n is not None:       # [f(i) for i in range(n)]
            lp = mk('loop', depth, n)
            return lp, self.beta(x, mk('lv', lp))
        lp = mk('loop', depth, mk('range', const(0), self.same_length(x, st), const(1)))
        return lp, mk('item', x, mk('lv', lp))

    @staticmethod
    def mapped(x):
        """range of i for a list [f(i) for i in range(n)]"""
        if x.op == 'listx' and len(x.args) == 1 and x.args[0].op == 'entry':
            v, ls, gs = x.args[0].args
            if len(ls.args) == 1 and not gs.args and v.op not in ('setat', 'spread') and ls.args[0].op == 'loop':
                r = ls.args[0].args[1]
                if r.op == 'range' and is_const(r.args[0], 0) and is_const(r.args[2], 1):
                    return r
        return None

    @staticmethod
    def assigned_names(nodes):
        out = set()
        for b in nodes:
            for x in ast.walk(b):
                if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                    out.add(x.id)
                elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                    out.add(x.name)
        return out

    def chosen(self, it, st):
        """a choice between things that are iterated over in different ways"""
        def leaves(x):
            return leaves(x.args[1]) + leaves(x.args[2]) if x.op == 'ite' else [x]
        return any(x.op in ('enumerate', 'zip', 'dictitems', 'dictkeys', 'dictvalues', 'range', 'list', 'tuple') or self.hobj(x, st) is not None for x in leaves(it))

    def filtered(self, it, st):
        """(loop, element, condition) for iterating over [f(i) for i in r if c]"""
        if self.hobj(it, st, 'list') is None and it.op != 'listx':
            return None
        x = self.freeze(it, st)
        if x.op != 'listx' or len(x.args) != 1 or x.args[0].op != 'entry':
            return None
        v, ls, gs = x.args[0].args
        if len(ls.args) != 1 or not gs.args or v.op in ('setat', 'spread') or ls.args[0].op != 'loop' or ls.args[0].args[1].op != 'range':
            return None
        l0 = ls.args[0]
        lp = mk('loop', len(self.loops), l0.args[1])
        iv, i0 = mk('lv', lp), mk('lv', l0)
        f = (lambda y: iv if y is i0 else None) if lp is not l0 else (lambda y: None)
        return lp, subst(v, f), subst(conj(list(gs.args)), f)

    def run_loop(self, lp, target, elem, body, fr, st, node, test=None, only=None):
        pre = st.copy()
        names = self.assigned_names(body)
        if target is not None:
            tn = self.assigned_names([target])
        else:
            tn = set()
        carried = [k for k in names if k in st.env and k not in tn]
        st0 = list(st.env)

        def one(s, heapcarry):
            for k in carried:
                v = s.env[k]
                if self.hobj(v, s) is None:
                    s.env[k] = mk('carry', lp, k)
            for oid, k in heapcarry:
                h = s.heap.get(oid)
                if h is not None and h.kind == 'inst':
                    v = h.attrs.get(k)
                    if v is None or self.hobj(v, s) is None:
                        h.attrs[k] = mk('carry', lp, '%s.%s' % (oid, k))
                elif h is not None and h.kind == 'dict':
                    h.known[k] = mk('carry', lp, '%s[%s]' % (oid, show(k)))
            g = s.guards
            l0, b0 = self.loops, self.loop_guard_base
            self.loops = self.loops + (lp,)
            self.loop_names.append((lp, (fr.fi, *(names - set(st0)))))
            if self.loop_guard_base is None:
                self.loop_guard_base = len(s.guards)
            try:
                if test is not None:
                    c = self.truth(self.ev(test, fr, s), s)
                    if not self.muted:
                        self.whiles.setdefault(lp, set()).add(c)
                    if c.op != 'const':
                        s.guards = s.guards + (Guard(c, True, 'loop'),)
                if target is not None:
                    self.assign(target, elem, fr, s, node)
                saved = fr.conts
                fr.conts = []
                gb = len(s.guards)
                if only is None:
                    alive = self.block(body, fr, s)
                else:
                    alive = self.branch(only, fr, s, lambda x: self.block(body, fr, x), lambda x: True)
                outs = [(x, kd) for x, kd in fr.conts]
                fr.conts = saved
                if alive:
                    outs.append((s.copy(), 'fall'))
                if not outs:
                    return None
                acc = outs[-1][0]
                for x, kd in reversed(outs[:-1]):
                    c = conj([q.term() for q in x.guards[gb:] if q.kind != 'raise'])
                    acc = self.merge(x, acc, c)
                acc.guards = g
                return acc
            finally:
                self.loop_names.pop()
                self.loops, self.loop_guard_base = l0, b0
        # scratch pass to find carried heap cells
        self.muted += 1
        nret = len(fr.returns)
        cnt = self.counter
        try:
            s1 = one(st.copy(), [])
        finally:
            self.muted -= 1
            del fr.returns[nret:]
        hc = []
        if s1 is not None:
            for oid, h in s1.heap.items():
                o = pre.heap.get(oid)
                if o is None:
                    continue
                if h.kind == 'inst':
                    for k, v in h.attrs.items():
                        if o.attrs.get(k) is not v and (k in o.attrs or o.lazy):
                            if not (k not in o.attrs and v.op == 'obj'):
                                hc.append((oid, k))
                elif h.kind == 'dict':
                    for k, v in h.known.items():
                        if k in o.known and o.known[k] is not v:
                            hc.append((oid, k))
        grown = {}
        if s1 is not None:
            for oid, o in pre.heap.items():
                h = s1.heap.get(oid)
                if h is not None and h is not o and (o.kind == 'list' and len(h.entries) > len(o.entries) or o.kind == 'dict' and (len(h.dyn) > len(o.dyn) or len(h.known) > len(o.known))):
                    grown[oid] = lp
        old = self.growing
        self.growing = {**grown, **old}
        try:
            s2 = one(st, hc)
        finally:
            self.growing = old
        if s2 is None:
            # every path leaves the loop body by return/raise
            st.become(pre)
            return True
        for k in list(s2.env):
            v = s2.env[k]
            if k in carried:
                if v is not pre.env[k]:
                    if v.op == 'carry' and v.args == (lp, k):
                        s2.env[k] = pre.env[k]
                    elif self.hobj(v, s2) is None or self.hobj(pre.env[k], s2) is None:
                        s2.env[k] = mk('after', lp, k, self.freeze(pre.env[k], s2), self.freeze(v, s2))
                        if not self.muted:
                            self.induct.setdefault((lp, k), set()).add(s2.env[k].args[2:])
        for oid, k in hc:
            h, o = s2.heap.get(oid), pre.heap.get(oid)
            if h.kind == 'inst':
                v, i = h.attrs.get(k), o.attrs.get(k)
                if i is None:
                    i = self.entry_attr(mk('obj', oid), k, o, pre)
                if v is not None and self.hobj(v, s2) is None:
                    h.attrs[k] = mk('after', lp, '%s.%s' % (oid, k), self.freeze(i, s2), self.freeze(v, s2))
                    if not self.muted:
                        self.induct.setdefault((lp, '%s.%s' % (oid, k)), set()).add(h.attrs[k].args[2:])
            elif h.kind == 'dict':
                h.known[k] = mk('after', lp, '%s[%s]' % (oid, show(k)), self.freeze(o.known[k], s2), self.freeze(h.known[k], s2))
        st.become(s2)
        st.guards = pre.guards + tuple(g for g in s2.guards[len(pre.guards):] if g.kind == 'raise')
        return True

    # ------------------------------------------------------------- statements
    def block(self, body, fr, st):
        for s in body:
            self.steps += 1
            if self.steps > self.budget:
                raise Budget('analysis budget exceeded')
            if not self.muted:
                self.lines.add((fr.mod.rel, s.lineno))
            try:
                if not getattr(self, 's_' + type(s).__name__, self.s_other)(s, fr, st):
                    return False
            except DeadPath:
                return False
        return True

    def s_other(self, s, fr, st):
        return True

    def s_Expr(self, s, fr, st):
        if isinstance(s.value, ast.Constant):
            return True
        x = s.value
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.attr == 'pop' and len(x.args) == 1 and not x.keywords:
            v = st.env.get(x.func.value.id)
            if v is not None and v.op == 'dictkeys' and self.ev(x.args[0], fr, st) is const(0):
                # a fresh list of keys without its first element
                st.env[x.func.value.id] = mk('item', v, mk('slice', const(1), NONE, NONE))
                return True
        r = self.ev(x, fr, st)
        if self.events and self.events[-1].kind == 'call' and self.events[-1].result is r and self.events[-1].info is None:
            self.events[-1].info = 'effect'      # called for what it does only
        return True

    def filled(self, fi):
        """names (and attributes) of a function whose elements are assigned somewhere in it or in a helper they are passed to"""
        t = fi.mod.tree
        if not hasattr(self.p, 'filled_cache'):
            self.p.filled_cache = {}
        cache = self.p.filled_cache
        if t not in cache:
            cache[t] = self.filled_all(fi.mod)
        r = cache[t].get(fi.node)
        return r if r is not None else self.filled_direct(fi.node)[0]

    @staticmethod
    def filled_direct(node):
        r, calls = set(), []
        for x in ast.walk(node):
            if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store):
                while isinstance(x, ast.Subscript):
                    x = x.value
                r.add(ast.unparse(x))
            elif isinstance(x, ast.Call) and isinstance(x.func, (ast.Name, ast.Attribute)) and (x.args or x.keywords or isinstance(x.func, ast.Attribute)):
                calls.append(x)
        return r, calls

    def filled_all(self, mod):
        fs, index = {}, {}
        for m in {id(m): m for m in list(self.p.mods.values()) + [mod]}.values():
            for x in ast.walk(m.tree):
                if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    fs[x] = self.filled_direct(x)
                    index.setdefault(x.name, []).append(x)
        change = True
        while change:
            change = False
            for node, (r, calls) in fs.items():
                n0 = len(r)
                for x in calls:
                    meth = isinstance(x.func, ast.Attribute)
                    for g in index.get(x.func.attr if meth else x.func.id, ()):
                        f = fs[g][0]
                        if g is node or not f:
                            continue
                        ps = [q.arg for q in g.args.posonlyargs + g.args.args]
                        if ps and ps[0] == 'self' and meth:
                            ps = ps[1:]
                            if isinstance(x.func.value, ast.Name) and x.func.value.id == 'self':
                                r |= {q for q in f if q.startswith('self.')}
                        r |= {ast.unparse(v) for q, v in zip(ps, x.args) if q in f and isinstance(v, (ast.Name, ast.Attribute))}
                        r |= {ast.unparse(v.value) for v in x.keywords if v.arg in f and isinstance(v.value, (ast.Name, ast.Attribute))}
                change = change or len(r) != n0
        return {k: v[0] for k, v in fs.items()}

    def identity(self, v, targets, fr):
        """work arrays and copies filled element by element have an identity of their own"""
        from .nlp import is_alloc, fresh_copy
        if v.op in ('call', 'bin') and any(isinstance(t, (ast.Name, ast.Attribute)) and ast.unparse(t) in self.filled(fr.fi) for t in targets) and (is_alloc(v) or fresh_copy(v)):
            self.counter += 1
            return mk('alloc', v, self.counter)
        return v

    @staticmethod
    def keyed(node, name):
        """elements of the variable are stored under names: it is a dictionary"""
        for x in ast.walk(node):
            if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == name:
                return isinstance(x.slice, ast.Constant) and isinstance(x.slice.value, str) or isinstance(x.slice, ast.Name)
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'update' and isinstance(x.func.value, ast.Name) and x.func.value.id == name:
                return True
        return False

    def s_Assign(self, s, fr, st):
        v = self.ev(s.value, fr, st)
        m = v.args[0] if v.op == 'call' and not v.args[2] else None
        if m is not None and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            x = m.args[0] if m.op == 'attr' and m.args[1] == 'copy' and not v.args[1] else v.args[1][0] if m.op == 'glob' and m.args[0] == 'copy.copy' and len(v.args[1]) == 1 else None
            if x is not None and x.op in ('sym', 'attr') and self.keyed(fr.fi.node, s.targets[0].id):
                v = self.b_dict([x], {}, st, s) or v
        v = self.identity(v, s.targets, fr)
        if v.op == 'tuple' and any(isinstance(t, (ast.Tuple, ast.List)) and len(t.elts) == len(v.args) for t in s.targets):
            tg = next(t for t in s.targets if isinstance(t, (ast.Tuple, ast.List)) and len(t.elts) == len(v.args))
            v = mk('tuple', *[self.identity(x, [e], fr) for x, e in zip(v.args, tg.elts)])
        for t in s.targets:
            self.assign(t, v, fr, st, s)
        return True

    def s_AnnAssign(self, s, fr, st):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr, st), fr, st, s)
        return True

    def s_AugAssign(self, s, fr, st):
        op = BINOPS[type(s.op)]
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.e_Name(t, fr, st)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, fr, st)
            cur = self.load_attr(b, t.attr, st, t)
        else:
            b = self.ev(t.value, fr, st)
            k = self.ev(t.slice, fr, st)
            cur = self.load_item(b, k, st, t)
        v = self.ev(s.value, fr, st)
        h = self.hobj(cur, st, 'list')
        if h is not None and op == '+':
            self.log('listop', s, st, base=cur, key='extend', args=[self.freeze(v, st)])
            self.extend(h, v, st)
            return True
        if op == '+' and isinstance(t, (ast.Subscript, ast.Attribute)) and isinstance(s.value, ast.List) and len(s.value.elts) == 1 and cur.op not in ('obj', 'ite', 'carry', 'const'):
            # a list in a structure is extended in place
            hv = self.hobj(v, st, 'list')
            if hv is not None and len(hv.entries) == 1 and hv.plain():
                x = ast.Subscript(t.value, t.slice, ast.Load()) if isinstance(t, ast.Subscript) else ast.Attribute(t.value, t.attr, ast.Load())
                self.ev(ast.copy_location(ast.Call(ast.copy_location(ast.Attribute(ast.copy_location(x, s), 'append', ast.Load()), s), [s.value.elts[0]], []), s), fr, st)
                return True
        hd = self.hobj(cur, st, 'dict')
        if hd is not None and op == '|':
            self.heap_method(cur, 'update', [v], {}, st, s)
            return True
        r = self.binop(op, cur, v, st, s)
        if isinstance(t, ast.Name):
            if cur.op in ('sym', 'item', 'attr', 'ite'):
                self.log('aug', s, st, base=cur)
            st.env[t.id] = r
        elif isinstance(t, ast.Attribute):
            self.store_attr(b, t.attr, r, st, s)
        else:
            self.store_item(b, k, r, st, s)
        return True

    def assign(self, t, v, fr, st, node):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
        elif isinstance(t, ast.Attribute):
            self.store_attr(self.ev(t.value, fr, st), t.attr, v, st, node)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, fr, st)
            k = self.ev(t.slice, fr, st)
            self.store_item(b, k, v, st, node)
        elif isinstance(t, (ast.Tuple, ast.List)):
            s = self.seq(v, st)
            stars = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if s is not None and not stars and len(s) == len(t.elts):
                for e, x in zip(t.elts, s):
                    self.assign(e, x, fr, st, node)
            else:
                n, k = len(t.elts), stars[0] if stars else len(t.elts)
                for i, e in enumerate(t.elts):
                    if isinstance(e, ast.Starred):
                        if s is not None and len(s) >= n - 1:
                            x = self.new_list(st, [(y, (), ()) for y in s[k:len(s) - (n - 1 - k)]])
                        else:
                            x = self.load_item(v, mk('slice', const(k) if k else NONE, const(k + 1 - n) if k + 1 < n else NONE, NONE), st, node)
                        self.assign(e.value, x, fr, st, node)
                    elif i > k and s is None:
                        self.assign(e, self.load_item(v, const(i - n), st, node), fr, st, node)
                    else:
                        self.assign(e, s[i if i < k else i - n] if s is not None and len(s) >= n - 1 else self.load_item(v, const(i), st, node), fr, st, node)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr, st, node)

    def s_Return(self, s, fr, st):
        v = self.ev(s.value, fr, st) if s.value is not None else NONE
        self.log('return', s, st, value=self.freeze(v, st), info=fr.fi.qual)
        fr.returns.append((st.copy(), v))
        return False

    def s_Raise(self, s, fr, st):
        v = self.ev(s.exc, fr, st) if s.exc is not None else NONE
        self.log('raise', s, st, value=self.freeze(v, st))
        return False

    def s_Assert(self, s, fr, st):
        g = st.guards
        c = self.truth(self.ev(s.test, fr, st), st)
        st.guards = g + tuple(x for x in st.guards[len(g):] if x.kind == 'raise')
        if c is TRUE:
            return True
        s2 = st
        gs = st.guards
        st.guards = gs + ((Guard(c, False, 'branch'),) if c.op != 'const' else ())
        self.log('raise', s, st, value=mk('glob', 'builtins.AssertionError'), info='assert')
        st.guards = gs
        if c is FALSE:
            return False
        st.guards = gs + (Guard(c, True, 'raise'),)
        return True

    def branch(self, c, fr, st, then, orelse):
        if c.op == 'const':
            return then(st) if c.args[0] else orelse(st)
        g = st.guards
        s2 = st.copy()
        st.guards = g + (Guard(c, True, 'branch'),)
        s2.guards = g + (Guard(c, False, 'branch'),)
        n0 = len(self.events)
        r0, c0 = len(fr.returns), len(fr.conts)
        a = then(st)
        escA = len(fr.returns) > r0 or len(fr.conts) > c0
        r1, c1 = len(fr.returns), len(fr.conts)
        b = orelse(s2)
        escB = len(fr.returns) > r1 or len(fr.conts) > c1
        if a and b:
            m = self.merge(st, s2, c)
            # paths that left via return inside a branch leave a 'return' fact behind
            extra = []
            for side, pol, esc in ((st, True, escA), (s2, False, escB)):
                if esc:
                    for q in side.guards[len(g) + 1:]:
                        if q.kind == 'return':
                            t = disj([not_(c) if pol else c, q.term()])
                            extra.append(Guard(t, True, 'return'))
            if extra:
                m.guards = m.guards + tuple(e for e in extra if e not in m.guards)
            st.become(m)
            return True
        if not a and not b:
            return False
        live = st if a else s2
        dead_esc = escB if a else escA
        kind = 'return' if dead_esc else 'raise'
        gs = list(g) + [Guard(c, bool(a), kind)]
        gs += [q for q in live.guards[len(g) + 1:] if q.kind in ('raise', 'return')]
        live.guards = tuple(gs)
        st.become(live)
        return True

    def s_If(self, s, fr, st):
        g = st.guards
        c = self.truth(self.ev(s.test, fr, st), st)
        return self.branch(c, fr, st, lambda x: self.block(s.body, fr, x), lambda x: self.block(s.orelse, fr, x))

    def s_For(self, s, fr, st):
        return self.for_over(s, self.ev(s.iter, fr, st), fr, st)

    def for_over(self, s, it, fr, st):
        if it.op == 'ite':
            it = self.refine(it, st)
        sq = self.seq(it, st)
        if sq is not None and len(sq) <= 64:
            saved = fr.conts
            alive = True
            broke = []
            for x in sq:
                fr.conts = []
                self.assign(s.target, x, fr, st, s)
                gb = len(st.guards)
                alive = self.block(s.body, fr, st)
                outs = list(fr.conts)
                if alive:
                    outs.append((st.copy(), 'fall'))
                brk = [o for o in outs if o[1] == 'break']
                outs = [o for o in outs if o[1] != 'break']
                broke += [(b[0], gb) for b in brk]
                if not outs:
                    alive = False
                    break
                acc = outs[-1][0]
                for y, kd in reversed(outs[:-1]):
                    c = conj([q.term() for q in y.guards[gb:] if q.kind != 'raise'])
                    acc = self.merge(y, acc, c)
                st.become(acc)
                # 'continue'/'break' facts do not constrain later iterations unless break
                if not brk:
                    st.guards = tuple(st.guards[:gb]) + tuple(q for q in st.guards[gb:] if q.kind in ('raise', 'return') and (q.kind == 'raise' or len(fr.returns) > 0))
                alive = True
            fr.conts = saved
            if broke:
                acc = st if alive else None
                for y, gb in reversed(broke):
                    if acc is None:
                        acc = y
                    else:
                        c = conj([q.term() for q in y.guards[gb:] if q.kind != 'raise'])
                        acc = self.merge(y, acc, c)
                st.become(acc)
                alive = True
            if alive and s.orelse:
                alive = self.block(s.orelse, fr, st)
            return alive
        if it.op == 'ite' and self.size(it) < 8 and self.chosen(it, st):
            return self.branch(it.args[0], fr, st, lambda x: self.for_over(s, it.args[1], fr, x), lambda x: self.for_over(s, it.args[2], fr, x))
        f = self.filtered(it, st)
        if f is not None:
            lp, elem, only = f
        else:
            (lp, elem), only = self.loop_of(it, st), None
        r = self.run_loop(lp, s.target, elem, s.body, fr, st, s, only=only)
        if r and s.orelse:
            r = self.block(s.orelse, fr, st)
        return r

    s_AsyncFor = s_For

    def s_While(self, s, fr, st):
        # counting loop  i = a; while i < N: ...; i += 1
        t = s.test
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and not s.orelse:
            l, o, r = t.left, t.ops[0], t.comparators[0]
            if isinstance(o, (ast.Gt, ast.GtE)):
                l, r, o = r, l, {ast.Gt: ast.Lt, ast.GtE: ast.LtE}[type(o)]()
            if isinstance(l, ast.Name) and isinstance(o, (ast.Lt, ast.LtE)):
                v, last = l.id, s.body[-1]
                stores = [x.id for b in s.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))]
                jumps = {type(x) for b in s.body for x in ast.walk(b) if isinstance(x, (ast.Continue, ast.Break))}
                inc = None
                if isinstance(last, ast.AugAssign) and isinstance(last.op, ast.Add) and isinstance(last.target, ast.Name) and last.target.id == v:
                    inc = last.value
                elif isinstance(last, ast.Assign) and len(last.targets) == 1 and isinstance(last.targets[0], ast.Name) and last.targets[0].id == v and isinstance(last.value, ast.BinOp) and isinstance(last.value.op, ast.Add):
                    a, b = last.value.left, last.value.right
                    inc = b if isinstance(a, ast.Name) and a.id == v else a if isinstance(b, ast.Name) and b.id == v else None
                start = st.env.get(v)
                free = {x.id for x in ast.walk(r) if isinstance(x, ast.Name)}
                if isinstance(inc, ast.Constant) and inc.value == 1 and start is not None and stores.count(v) == 1 and ast.Continue not in jumps and not (free & set(stores)):
                    hi = self.ev(r, fr, st)
                    if isinstance(o, ast.LtE):
                        hi = self.binop('+', hi, const(1), st, s)
                    f = ast.copy_location(ast.For(ast.Name(v, ast.Store()), ast.Name('range', ast.Load()), s.body[:-1] or [ast.Pass()], []), s)
                    ast.fix_missing_locations(f)
                    r = self.for_over(f, mk('range', start, hi, const(1)), fr, st)
                    st.env[v] = hi if ast.Break not in jumps else mk('unk', 'loop counter', const(v))
                    return r
        lp = mk('loop', len(self.loops), mk('while', self.rel_while_id(s, fr)))
        c0 = self.truth(self.ev(s.test, fr, st.copy()), st)
        if c0 is FALSE:
            return True
        return self.run_loop(lp, None, None, s.body, fr, st, s, test=s.test)

    def rel_while_id(self, s, fr):
        return ast.dump(s.test)

    def s_Break(self, s, fr, st):
        self.log('break', s, st)
        fr.conts.append((st.copy(), 'break'))
        return False

    def s_Continue(self, s, fr, st):
        fr.conts.append((st.copy(), 'continue'))
        return False

    def s_With(self, s, fr, st):
        ctxs = []
        for i in s.items:
            v = self.ev(i.context_expr, fr, st)
            e = mk('entered', self.freeze(v, st)) if v.op != 'obj' else v
            ctxs.append(e)
            self.log('with', s, st, value=self.freeze(v, st))
            if i.optional_vars is not None:
                self.assign(i.optional_vars, e, fr, st, s)
        a = self.block(s.body, fr, st)
        for e in reversed(ctxs):
            self.log('endwith', s, st, value=self.freeze(e, st))
        return a

    s_AsyncWith = s_With

    @staticmethod
    def membership(s):
        """try: use L.index(x) / d[k] except ValueError / KeyError: ... asks whether x is in L"""
        if len(s.handlers) != 1 or s.finalbody or len(s.body) != 1 or not isinstance(s.body[0], (ast.Assign, ast.Return, ast.Expr)) or s.handlers[0].name:
            return None
        v, t = s.body[0].value, s.handlers[0].type
        if isinstance(t, ast.Name) and t.id == 'ValueError' and v is not None:
            c = [x for x in ast.walk(v) if isinstance(x, ast.Call)]
            if len(c) == 1 and isinstance(c[0].func, ast.Attribute) and c[0].func.attr == 'index' and len(c[0].args) == 1 and not c[0].keywords:
                return c[0].args[0], c[0].func.value
        if isinstance(t, ast.Name) and t.id == 'KeyError' and isinstance(v, ast.Subscript) and not isinstance(v.slice, ast.Slice) and not any(isinstance(x, ast.Call) for x in ast.walk(v)):
            return v.slice, v.value
        return None

    def s_Try(self, s, fr, st):
        m = self.membership(s)
        if m is not None:
            test = ast.copy_location(ast.Compare(m[0], [ast.In()], [m[1]]), s)
            n = ast.copy_location(ast.If(test, s.body + s.orelse, s.handlers[0].body), s)
            return self.s_If(n, fr, st)
        pre = st.copy()
        g = st.guards
        self.log('try', s, st)
        n0 = len(self.events)
        alive = self.block(s.body, fr, st)
        # an exception is identified by what can raise it: the calls of the body
        done = []
        for e in self.events[n0:]:
            if e.kind == 'call' and e.result is not None and e.result not in done and not str(e.result.args[0].args[0] if e.result.op == 'call' and e.result.args[0].op == 'glob' else '').startswith(('builtins.print', 'logging.', 'warnings.', 'builtins.Exception', 'builtins.ValueError', 'builtins.TypeError', 'builtins.KeyError', 'builtins.RuntimeError', 'builtins.AssertionError', 'builtins.NameError')):
                done.append(e.result)
        when = [(e.value, conj([q.term() for q in e.guards[len(g):] if q.kind != 'loop'])) for e in self.events[n0:] if e.kind == 'raise']

        def raised(ty):
            ws = [c for v, c in when if caught(v, ty)]
            if self.muted or not done and not ws:
                return [mk('unk', 'exception', len(self.callstack), ast.dump(s.body[0])[:400])]
            return done + ([mk('raisewhen', disj(ws))] if ws else [])
        if alive and s.orelse:
            alive = self.block(s.orelse, fr, st)
        self.log('endtry', s, st)
        live = [(st.copy(), None)] if alive else []
        exc = mk('exc', NONE, *raised(None))
        for i, h in enumerate(s.handlers):
            hs = pre.copy()
            if h.type is not None:
                ty = self.freeze(self.ev(h.type, fr, pre.copy()), pre)
                exc = mk('exc', NONE if ty.op == 'glob' and ty.args[0] in ('builtins.Exception', 'builtins.BaseException') else ty, *raised(ty))
            # effects of the body may have happened partially
            hs.guards = g + (Guard(exc, True, 'branch'),)
            if h.name:
                hs.env[h.name] = mk('excval', exc)
            self.log('handler', h, hs, info=(ast.unparse(h.type) if h.type is not None else '*'))
            if self.block(h.body, fr, hs):
                live.append((hs, exc))
        if not live:
            if s.finalbody:
                self.block(s.finalbody, fr, pre)
            return False
        # the undisturbed path last
        if live[0][1] is None:
            live = live[1:] + live[:1]
        acc = live[-1][0]
        for x, c in reversed(live[:-1]):
            acc = self.merge(x, acc, c)
        if len(live) == 1:
            acc.guards = g + tuple(q for q in acc.guards[len(g):] if q.kind == 'raise' or q.cond.op != 'exc')
        st.become(acc)
        if s.finalbody:
            return self.block(s.finalbody, fr, st)
        return True

    def s_FunctionDef(self, s, fr, st):
        st.env[s.name] = self.closure(FuncInfo(s, fr.mod, None), fr, st)
        return True

    s_AsyncFunctionDef = s_FunctionDef

    def s_Import(self, s, fr, st):
        for a in s.names:
            n = a.name if a.asname else a.name.split('.')[0]
            r = ('mod', n) if n in self.p.mods else ('ext', norm_ext(n))
            st.env[a.asname or n] = self.resolved(r, st)
        return True

    def s_ImportFrom(self, s, fr, st):
        for a in s.names:
            base = s.module or ''
            if base in self.p.mods:
                st.env[a.asname or a.name] = self.resolved(self._modattr(base, a.name), st)
            else:
                st.env[a.asname or a.name] = mk('glob', norm_ext(base + '.' + a.name))
        return True

    def s_Delete(self, s, fr, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                b = self.ev(t.value, fr, st)
                self.log('delattr', s, st, base=b, key=t.attr)
                h = self.hobj(b, st, 'inst')
                if h is not None:
                    h.attrs.pop(t.attr, None)
            elif isinstance(t, ast.Subscript):
                b = self.ev(t.value, fr, st)
                k = self.ev(t.slice, fr, st)
                if isinstance(t.value, ast.Name) and self.less(t.value.id, k, st) is not None:
                    continue
                self.log('delitem', s, st, base=b, key=self.freeze(k, st))
                h = self.hobj(b, st, 'dict')
                if h is not None:
                    h.known.pop(k, None)
        return True

    def s_Pass(self, s, fr, st):
        return True

    s_Global = s_Nonlocal = s_ClassDef = s_Pass


def undef_leaves(v, depth=0):
    if v.op != 'ite' or depth > 12:
        return {v}
    return undef_leaves(v.args[1], depth + 1) | undef_leaves(v.args[2], depth + 1)


def subst_undef(v, w):
    if v is UNDEF:
        return w
    if v.op != 'ite':
        return v
    return ite(v.args[0], subst_undef(v.args[1], w), subst_undef(v.args[2], w))


def bound_when(v, depth=0):
    """condition under which a local variable has a value, and the value then"""
    if v is UNDEF:
        return FALSE, v
    if v.op != 'ite' or depth > 12 or UNDEF not in undef_leaves(v):
        return TRUE, v
    c = v.args[0]
    c1, a = bound_when(v.args[1], depth + 1)
    c2, b = bound_when(v.args[2], depth + 1)
    if a is UNDEF:
        return conj([not_(c), c2]), b
    if b is UNDEF:
        return conj([c, c1]), a
    return disj([conj([c, c1]), conj([not_(c), c2])]), ite(c, a, b)


class DeadPath(Exception):
    """the current path ends here (an inlined callee always raises)"""
