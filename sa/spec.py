"""Comparison of a method with a reference formulation of the property.

The reference is a small function in sa/specs/*.py.  It is never executed: like the analysed method it is turned into a
value graph by the interpreter (same instance, same settings), and the observable parts named by a rule -- returned value,
final attributes, stores into structures, calls, raise conditions -- are compared in the algebraic normal form."""
import ast
import os
import re
from .ctx import *
from .project import FuncInfo, ModInfo
from .interp import Frame
from .nlp import Norm, arr_ref, fresh_copy, entries_of, renorm
from .alg import method
from fractions import Fraction
from .alg import ONE, _cnum, _id
from .equiv import differ, differ_sets, taut, TooMany, Assume, entries, BOOL
import string

HERE = os.path.dirname(os.path.abspath(__file__))
ABSENT = mk('absent')


def _leaves(t):
    return _leaves(t.args[1]) + _leaves(t.args[2]) if t.op == 'ite' else [t]


def _swap(v):
    if v is UNDEF:
        return ABSENT
    return ite(v.args[0], _swap(v.args[1]), _swap(v.args[2])) if v.op == 'ite' else v


def _onedict(t):
    """a choice between dictionaries is one dictionary with choices as values"""
    if t.op == 'dict':
        return t
    c, a, b = t.args[0], _onedict(t.args[1]), _onedict(t.args[2])
    ka, kb = dict(a.args[0]), dict(b.args[0])
    kn = tuple(sorted(((k, ite(c, ka.get(k, ABSENT), kb.get(k, ABSENT))) for k in {**ka, **kb}), key=lambda kv: repr(kv[0])))
    nc = not_(c)
    da, db = ([mk('entry', e.args[0], e.args[1], mk('tuple', *[x for x in e.args[2].args if x is not g])) for e in d.args[1]] for d, g in ((a, c), (b, nc)))
    dy = [e for e in da if e in db]
    for es, g in ((da, c), (db, nc)):
        dy += [mk('entry', e.args[0], e.args[1], mk('tuple', *(e.args[2].args + (g,)))) for e in es if e not in dy]
    return mk('dict', kn, tuple(dy))


UNKNOWN = {'unk', 'undef', 'lambda', 'while', 'carryx'}
VOCAB = ('casadi.', 'numpy.', 'builtins.', 'scipy.', 'copy.', 'time.', 'os.', 'pickle.', 'itertools.', 'functools.', 'asyncio.', 'asyncua.',
         'matplotlib.', 'dataclasses.', 'tqdm.', 'pandas.', 'pathlib.', 'importlib.', 'onnx.', 're.', 'scipy.io.', 'warnings.')


def tail_of(sl):
    """k for the slice k: with constant k >= 0"""
    lo, hi, step = sl.args
    if hi is NONE and step is NONE and lo.op == 'const' and isinstance(lo.args[0], int) and lo.args[0] >= 0:
        return lo.args[0]
    return None


def nonneg(t):
    if t.op == 'sum':
        return all(p > 0 and nonneg(b) for b, p, q in t.args[0])
    return t.op == 'len' or t is ONE or t.op == 'const' and isinstance(t.args[0], int) and t.args[0] >= 0


def literals(gs):
    for g in gs:
        for x in (g.args if g.op == 'and' else (g,)):
            yield x


# parameters and constant defaults of library functions
EXTERNAL = {
    'scipy.signal.cont2discrete': (('system', 'dt', 'method', 'alpha'), (('method', "'zoh'"), ('alpha', 'None'))),
    'numpy.linspace': (('start', 'stop', 'num', 'endpoint'), (('num', '50'), ('endpoint', 'True'))),
    'casadi.SX.sym': (('name', 'nrow', 'ncol'), (('nrow', '1'), ('ncol', '1'))),
    'casadi.MX.sym': (('name', 'nrow', 'ncol'), (('nrow', '1'), ('ncol', '1'))),
    'numpy.full': (('shape', 'fill_value', 'dtype'), (('dtype', 'None'),)),
    'numpy.array': (('object', 'dtype'), (('dtype', 'None'),)),
    'builtins.open': (('file', 'mode', 'buffering', 'encoding'), (('mode', "'r'"), ('buffering', '-1'), ('encoding', 'None'))),
    'os.makedirs': (('name', 'mode', 'exist_ok'), (('mode', '511'), ('exist_ok', 'False'))),
    'scipy.linalg.solve_discrete_are': (('a', 'b', 'q', 'r', 'e', 's', 'balanced'), (('e', 'None'), ('s', 'None'), ('balanced', 'True'))),
    'scipy.linalg.solve_continuous_are': (('a', 'b', 'q', 'r', 'e', 's', 'balanced'), (('e', 'None'), ('s', 'None'), ('balanced', 'True'))),
    'scipy.io.savemat': (('file_name', 'mdict', 'appendmat', 'format', 'long_field_names', 'do_compression', 'oned_as'), (('appendmat', 'True'), ('format', "'5'"), ('long_field_names', 'False'), ('do_compression', 'False'), ('oned_as', "'row'"))),
    'scipy.io.loadmat': (('file_name', 'mdict', 'appendmat'), (('mdict', 'None'), ('appendmat', 'True'))),
}

VCAT = {'casadi.vcat': 'casadi.vertcat', 'casadi.hcat': 'casadi.horzcat'}


class CNorm(Norm):
    @staticmethod
    def exclusive(es):
        """entries appended in the same iteration under conditions that exclude each other have no order"""
        out = []
        for e in es:
            i = len(out)
            if e.op == 'entry' and e.args[2].args:
                mine = set(literals(e.args[2].args))
                while i and out[i - 1].op == 'entry' and out[i - 1].args[1] is e.args[1] and any(not_(x) in mine for x in literals(out[i - 1].args[2].args)) and _id(out[i - 1]) > _id(e):
                    i -= 1
            out.insert(i, e)
        return out

    """normal form used for comparisons across two runs"""

    def __init__(self, it, keep=(), st=None):
        super().__init__(induct=it.induct)
        self.it, self.st, self.forms = it, st, {}
        self.rn, self.cnt, self.stack = {}, {}, []
        self.keepc = keep
        self.dicts = frozenset()       # values used as dictionaries (their elements are their keys)
        self._writes, self.open = None, []

    def writes(self):
        if self._writes is None:
            self._writes = {}
            for e in self.it.events:
                if e.kind == 'setitem':
                    ar = arr_ref(mk('item', e.base, e.key))
                    if ar is not None:
                        self._writes.setdefault(ar[0], []).append((ar[1], e))
        return self._writes

    def content(self, t):
        """a work array is what has been written into it"""
        if t in self.open:
            return mk('selfref', len(self.open) - 1 - self.open.index(t))
        ws = self.writes().get(t)
        if not ws:
            return self(t.args[0])
        if t in self.forms:
            return self.forms[t]
        old, self.memo = self.memo, {}
        self.open.append(t)
        try:
            out = set()
            for idx, e in ws:
                g = conj([self(x.term()) for x in e.guards if x.kind != 'raise'])
                if g.op == 'and':
                    g = mk('and', *sorted(set(g.args), key=_id))
                out.add(mk('write', mk('tuple', *[self(k) for k in idx]), self(e.value), g, mk('tuple', *[self(l) for l in e.loops])))
            r = self.asdict(mk('filled', self(t.args[0]), *sorted(out, key=_id)))
        finally:
            self.open.pop()
            self.memo = old
        if not self.open:
            self.forms[t] = r
        return r

    def rule(self, t, n):
        o, a = t.op, t.args
        if o == 'attr' and a[1] in self.keepc and a[1] != 'T':
            return mk('attr', self(a[0]), a[1])
        if o == 'alloc':
            return self.content(t)
        if o == 'obj' and '#' in a[0]:
            base, rest = a[0].split('#', 1)
            num, _, tail = rest.partition('.')
            h = self.st.heap.get(a[0]) if self.st is not None and not tail else None
            if h is not None and h.kind == 'inst' and h.cls is not None and (getattr(h.cls, 'is_dataclass', False) or h.cls.name in self.keepc) and not any(v is t for v in self.open):
                # records are compared by their contents
                self.open.append(t)
                try:
                    return mk('record', h.cls.name, *[x for k, v in sorted(h.attrs.items()) for x in (k, self(self.it.freeze(v, self.st)))])
                finally:
                    self.open.pop()
            k = (base, num)
            if k not in self.rn:
                self.cnt[base] = self.cnt.get(base, 0) + 1
                self.rn[k] = '%s~%d' % (base, self.cnt[base])
            return mk('obj', self.rn[k] + ('.' + tail if tail else ''))
        if o == 'listx':
            r = mk('listx', *self.exclusive(entries([self(self.spreadrange(x)) for x in a])))
            if len(r.args) == 1:
                v, ls, gs = r.args[0].args
                if v.op == 'keyof' and len(ls.args) == 1 and not gs.args and v.args[1] is mk('lv', ls.args[0]) and ls.args[0].args[1] is mk('range', const(0), mk('len', v.args[0]), ONE):
                    return mk('dictkeys', v.args[0])
            return r
        if o == 'in':
            x, y = self(a[0]), self(a[1])
            y = y.args[0] if y.op == 'dictkeys' else y
            r = self.member(x, y)
            return r if r is not None else mk('in', x, y)
        if o == 'call' and a[0].op == 'ite':
            f = self.same_method(a[0])
            if f is not None:
                return self(mk('call', f, a[1], a[2]))
        if o == 'isinst' and a[1].op == 'glob':
            x = a[0]
            if x.op == 'call' and x.args[0].op == 'ite' and self.same_method(x.args[0]) is not None:
                x = mk('call', self.same_method(x.args[0]), x.args[1], x.args[2])
            if x.op == 'attr' and x.args[1] == 'cat' and a[1].args[0] in ('casadi.DM', 'numpy.ndarray'):
                # the vector of a structure
                return self(mk('isinst', x.args[0], mk('glob', 'casadi.structure3.DMStruct'))) if a[1].args[0] == 'casadi.DM' else FALSE
            if x.op == 'call' and not x.args[1] and not x.args[2]:
                m = method(x)
                if m and m[1] == 'full' and a[1].args[0].startswith(('numpy.', 'casadi.')):
                    if m[0].op == 'ite':
                        y = m[0]
                        return self(mk('isinst', ite(y.args[0], *[mk('call', mk('attr', z, 'full'), (), ()) for z in y.args[1:]]), a[1]))
                    return TRUE if a[1].args[0] == 'numpy.ndarray' else FALSE
            if x.op == 'ite':
                c, p, q = self(x.args[0]), self(mk('isinst', x.args[1], a[1])), self(mk('isinst', x.args[2], a[1]))
                if p is c or p is TRUE:
                    return disj([c, q])
                return conj([not_(c), q]) if p is FALSE else conj([c, p]) if q is FALSE else ite(c, p, q)
        if o == 'cmp' and a[0] == '<=' and all(callee(x) == 'builtins.set' for x in a[1:]):
            return self(mk('call', mk('attr', a[1], 'issubset'), (a[2],), ()))
        if o == 'exc':
            return mk('exc', self(a[0]), *sorted({self(x) for x in a[1:]}, key=_id))
        if o in ('and', 'or'):
            r = (conj if o == 'and' else disj)([self(x) for x in a])
            if r.op == o:
                return mk(o, *sorted(set(r.args), key=_id))
            return r
        if o == 'sumover':
            return self.total(t)
        if o == 'carry':
            return self.recurrence(t)
        if o == 'loop' and a[1].op == 'while':
            return self.whileloop(t)
        if o == 'closure':
            return self.function(t)
        if o == 'after':
            r = self.closed(t)
            if r is not None:
                return r
            r = self.total(t)
            if r is not None:
                return r
            me = mk('carry', a[0], a[1])
            c = mk('carry', a[0], '_')
            return mk('after', self(a[0]), '_', self(a[2]), self(subst(a[3], lambda x: c if x is me else None)))
        if o == 'dict' and any(UNDEF in _leaves(v) for _, v in a[0]):
            kn = [(k, _swap(v)) for k, v in a[0]]
            return self(mk('dict', tuple((k, v) for k, v in kn if v is not ABSENT), a[1]))
        if o == 'dict' and a[1]:
            r = self.copied(t)
            if r is not None:
                return r
        if o == 'ite' and a[1].op in ('dict', 'ite') and a[2].op in ('dict', 'ite') and all(x.op == 'dict' for x in _leaves(a[1]) + _leaves(a[2])):
            return self(_onedict(t))
        if o in ('strop', 'fmtstr', 'cat') or (o == 'bin' and a[0] in '+%'):
            r = self.text(t)
            if r is not None:
                return r
        if o == 'call' and not a[1] and not a[2] and a[0].op == 'attr' and a[0].args[1] == 'keys':
            return self(mk('dictkeys', a[0].args[0]))
        if o == 'len' and a[0].op == 'item' and is_const(a[0].args[1], 'var'):
            # names and symbols of declared variables are parallel lists
            return self(mk('len', mk('item', a[0].args[0], const('name'))))
        if o in ('len', 'item') and a[0].op not in ('sym', 'list', 'tuple') and (o == 'len' or a[1].op not in ('slice', 'tuple')):
            b = self(a[0])
            r = self.it.mapped(b) if b.op == 'listx' else None
            if r is not None:
                return r.args[1] if o == 'len' else renorm(self, self.it.beta(b, self(a[1])))
        if o == 'len' and a[0].op == 'dictkeys':
            return self(mk('len', a[0].args[0]))
        if o == 'range' and a[1].op == 'len' and is_const(a[0], 0) and is_const(a[2], 1):
            # number of elements of x[k:]
            sl = self(a[1].args[0])
            if sl.op == 'item' and sl.args[1].op == 'slice' and tail_of(sl.args[1]) is not None:
                return self(mk('range', a[0], mk('bin', '-', mk('len', sl.args[0]), sl.args[1].args[0]), a[2]))
        if o == 'item' and a[1].op not in ('slice', 'tuple', 'const'):
            b = self(a[0])
            if b.op == 'item' and b.args[1].op == 'slice' and b.args[1].args[1] is NONE and b.args[1].args[2] is NONE and nonneg(b.args[1].args[0]) and any(x.op == 'lv' for x in walk(a[1])):
                return self(mk('item', b.args[0], mk('bin', '+', b.args[1].args[0], a[1])))
            if b.op == 'dictkeys':
                return mk('keyof', b.args[0], self(a[1]))
            if b in self.dicts and a[1].op == 'lv':
                r = self(a[1])
                if r.op == 'lv' and r.args[0].args[1] is mk('range', const(0), mk('len', b), ONE):
                    return mk('keyof', b, r)
        if o == 'item' and is_const(a[1], 0):
            b = self(a[0])
            if b.op == 'attr' and b.args[1] == 'shape':
                return self(mk('len', b.args[0]))
        if o == 'without' and callee(a[0]) == 'builtins.dict' and len(a[0].args[1]) == 1 and not a[0].args[2]:
            return self(mk('without', a[0].args[1][0], a[1]))
        if o == 'item' and is_const(a[1]) and callee(a[0]) == 'builtins.dict' and len(a[0].args[1]) == 1 and not a[0].args[2] and isinstance(a[1].args[0], str):
            return self(mk('item', a[0].args[1][0], a[1]))
        if o == 'item' and a[1].op == 'slice' and all(x is NONE for x in a[1].args):
            return self(a[0])
        if o == 'item':
            # x[a:][k]
            b = a[0]
            if b.op == 'item' and b.args[1].op == 'slice' and a[1].op == 'const' and isinstance(a[1].args[0], int) and a[1].args[0] >= 0:
                lo, hi, step = b.args[1].args
                if hi is NONE and step is NONE and lo.op == 'const' and isinstance(lo.args[0], int) and lo.args[0] >= 0:
                    return self(mk('item', b.args[0], const(lo.args[0] + a[1].args[0])))
        if o == 'isinst' and a[0].op == 'item' and a[0].args[1].op == 'slice' and a[1].op == 'glob' and a[1].args[0] in ('builtins.tuple', 'builtins.list', 'builtins.str'):
            return self(mk('isinst', a[0].args[0], a[1]))
        if o == 'un' and a[0] == '~':
            return self(mk('call', mk('glob', 'numpy.logical_not'), (a[1],), ()))
        if o == 'tuple' and len(a) > 1 and all(x.op == 'item' and is_const(x.args[1], i) and x.args[0] is a[0].args[0] for i, x in enumerate(a)) and a[0].args[0].op == 'call' and a[0].args[0].args[0].op == 'func':
            f = a[0].args[0].args[0].args[0].node
            rs = [x.value for x in ast.walk(f) if isinstance(x, ast.Return)]
            if rs and all(isinstance(x, ast.Tuple) and len(x.elts) == len(a) for x in rs):
                return self(a[0].args[0])       # all elements of what a function returns
        if o == 'getattr' and a[1].op == 'const' and isinstance(a[1].args[0], str):
            return self(mk('attr', a[0], a[1].args[0]))
        if o == 'call':
            q = self.positional(t)
            if q is not t:
                return self(q)
            if len(a[2]) > 1 and any(k == '**' for k, _ in a[2]):
                # f(**d, a=1): one dictionary of keyword arguments
                kn, dy = [(const(k), v) for k, v in a[2] if k != '**'], ()
                for k, v in a[2]:
                    if k == '**':
                        if v.op == 'dict':
                            kn, dy = list(v.args[0]) + kn, dy + tuple(v.args[1])
                        else:
                            dy += (mk('entry', mk('tuple', mk('star', v), mk('star', v)), mk('tuple'), mk('tuple')),)
                if len({k for k, _ in kn}) == len(kn):
                    return self(mk('call', a[0], a[1], (('**', mk('dict', tuple(kn), dy)),)))
            if len(a[2]) == 1 and a[2][0][0] == '**':
                # all entries of another dictionary
                v = a[2][0][1]
                if callee(v) == 'builtins.dict' and len(v.args[1]) == 1 and not v.args[2] and v.args[1][0].op in ('item', 'attr', 'sym'):
                    return self(mk('call', a[0], a[1], (('**', v.args[1][0]),)))
                if v.op == 'dict' and not v.args[0] and len(v.args[1]) == 1:
                    e = self(v)
                    e = e.args[1][0] if e.op == 'dict' and not e.args[0] and len(e.args[1]) == 1 else None
                    if e is not None and e.args[0].op == 'tuple' and e.args[0].args[0].op == 'star' and e.args[0].args[0] is e.args[0].args[1] and not e.args[1].args and not e.args[2].args:
                        return self(mk('call', a[0], a[1], (('**', e.args[0].args[0].args[0]),)))
            c = callee(t)
            if a[0].op == 'attr' and a[0].args[1] == 'get' and len(a[1]) == 2 and not a[2] and a[1][0].op == 'const' and isinstance(a[1][0].args[0], str):
                # the value of a key, or the default
                return self(ite(mk('in', a[1][0], a[0].args[0]), mk('item', a[0].args[0], a[1][0]), a[1][1]))
            if c == 'builtins.sum' and len(a[1]) == 1 and not a[2]:
                r = self.total(t)
                if r is not None:
                    return r
            if c in VCAT and len(a[1]) == 1 and not a[2] and a[1][0].op in ('list', 'tuple', 'listx', 'ite'):
                x = a[1][0]
                return self(mk('call', mk('glob', VCAT[c]), x.args if x.op != 'listx' and x.op != 'ite' else (mk('star', x),), ()))
            if c == 'builtins.pow' and len(a[1]) == 2 and not a[2]:
                return self(mk('bin', '**', *a[1]))
            if c in ('numpy.ones', 'numpy.zeros', 'numpy.full') and [k for k, _ in a[2]] == ['dtype']:
                return self(mk('call', mk('attr', mk('call', a[0], a[1], ()), 'astype'), (a[2][0][1],), ()))
            if c == 'numpy.shape' and len(a[1]) == 1 and not a[2]:
                return self(mk('attr', a[1][0], 'shape'))
            if c in ('builtins.tuple', 'builtins.list') and len(a[1]) == 1 and not a[2]:
                x = self(a[1][0])
                if x.op == 'item' and x.args[1].op == 'slice':
                    return x        # a part of a sequence
                if x.op == 'dictkeys' or x in self.dicts:
                    return mk('dictkeys', x.args[0] if x.op == 'dictkeys' else x)
            if c == 'builtins.bool' and len(a[1]) == 1:
                x = self(a[1][0])
                if x.op in BOOL or callee(x) in ('numpy.all', 'numpy.any'):
                    return x
            if c == 'numpy.arange' and len(a[1]) == 2 and is_const(self(a[1][0]), 0):
                return self(mk('call', a[0], a[1][1:], a[2]))
            if c in ('numpy.hstack', 'numpy.concatenate') and len(a[1]) == 1 and not a[2] and a[1][0].op in ('list', 'tuple') and not any(x.op == 'star' for x in a[1][0].args):
                xs = [self(x) for x in a[1][0].args]
                if any(self.onedim(x) for x in xs):
                    return mk('call', mk('glob', 'numpy.concatenate'), (mk('tuple', *xs),), ())
            if c in ('numpy.where', 'numpy.logical_not') and len(a[1]) == 1 and not a[2]:
                x = a[1][0]
                if callee(x) == 'numpy.array' and 1 <= len(x.args[1]) <= 2 and all(y.op == 'glob' and y.args[0] in ('builtins.bool', 'numpy.bool_') for y in x.args[1][1:] + tuple(v for k, v in x.args[2])):
                    return self(mk('call', a[0], x.args[1][:1], ()))
            mm = method(t)
            if mm and mm[1] in ('all', 'any') and not a[1] and not a[2]:
                return self(mk('call', mk('glob', 'numpy.' + mm[1]), (mm[0],), ()))
            if any(x.op == 'star' and callee(x.args[0]) in ('builtins.list', 'builtins.tuple') and len(x.args[0].args[1]) == 1 and not x.args[0].args[2] for x in a[1]):
                return self(mk('call', a[0], tuple(mk('star', x.args[0].args[1][0]) if x.op == 'star' and callee(x.args[0]) in ('builtins.list', 'builtins.tuple') and len(x.args[0].args[1]) == 1 and not x.args[0].args[2] else x for x in a[1]), a[2]))
            if c in ('numpy.alltrue', 'numpy.all', 'builtins.all', 'numpy.sometrue', 'builtins.any', 'numpy.any') and len(a[1]) == 1 and not a[2] and a[1][0].op in ('list', 'tuple'):
                xs = [self(x) for x in a[1][0].args]
                if all(x.op in BOOL or x in (TRUE, FALSE) for x in xs):
                    return self((conj if c.endswith(('all', 'alltrue')) else disj)(xs))
            if c in ('numpy.alltrue', 'builtins.all') and len(a[1]) == 1 and not a[2]:
                return self(mk('call', mk('glob', 'numpy.all'), a[1], ()))
            if c in ('numpy.sometrue', 'builtins.any', 'numpy.any') and len(a[1]) == 1 and not a[2]:
                x = self(a[1][0])
                if x.op == 'listx' and len(x.args) == 1 and x.args[0].args[0].op == 'not':
                    e = x.args[0].args
                    return not_(self(mk('call', mk('glob', 'numpy.all'), (mk('listx', mk('entry', e[0].args[0], e[1], e[2])),), ())))
            if c in ('numpy.sometrue', 'builtins.any') and len(a[1]) == 1 and not a[2]:
                return self(mk('call', mk('glob', 'numpy.any'), a[1], ()))
            if c == 'numpy.size' and len(a[1]) == 1 and not a[2] and self(a[1][0]).op == 'dictkeys':
                return self(mk('len', a[1][0]))
            if c == 'numpy.full' and len(a[1]) == 2 and _cnum(self(a[1][1])) is not None and not a[2]:
                return self.scale(self(mk('call', mk('glob', 'numpy.ones'), a[1][:1], ())), _cnum(self(a[1][1])))
            if c == 'builtins.set' and len(a[1]) == 1 and a[1][0].op in ('list', 'tuple') and not a[2]:
                return mk('tuple', *sorted({self(x) for x in a[1][0].args}, key=_id))
            m = method(t)
            if m and m[1] in ('issubset', 'issuperset') and len(a[1]) == 1 and not a[2]:
                # a fixed set of names
                def fixed(z):
                    if callee(z) == 'builtins.set' and len(z.args[1]) == 1:
                        z = z.args[1][0]
                    return z.args if z.op in ('list', 'tuple') and z.args and all(y.op == 'const' for y in z.args) else None
                x, y = (m[0], a[1][0]) if m[1] == 'issubset' else (a[1][0], m[0])
                if fixed(x) is not None and fixed(y) is None:
                    y = y.args[1][0] if callee(y) == 'builtins.set' and len(y.args[1]) == 1 else y
                    r = conj([self(mk('in', z, y)) for z in fixed(x)])
                    return mk('and', *sorted(set(r.args), key=_id)) if r.op == 'and' else r
                x, y = (m[0], a[1][0]) if m[1] == 'issubset' else (a[1][0], m[0])
                x, y = (z.args[1][0] if callee(z) == 'builtins.set' and len(z.args[1]) == 1 else z for z in (x, y))
                if x.op not in ('list', 'tuple', 'const') and y.op not in ('list', 'tuple', 'const'):
                    x = self(x)
                    if x.op == 'dictkeys' or x in self.dicts:
                        x = x.args[0] if x.op == 'dictkeys' else x
                        el = lambda i: mk('keyof', x, i)
                    else:
                        el = lambda i: mk('item', x, i)
                    lp = mk('loop', 0, mk('range', const(0), mk('len', x), ONE))
                    return self(mk('call', mk('glob', 'numpy.all'), (mk('listx', mk('entry', mk('in', el(mk('lv', lp)), y), mk('tuple', lp), mk('tuple'))),), ()))
            if m and m[1] in ('issuperset', 'issubset', 'intersection', 'difference', 'union', 'isdisjoint') and len(a[1]) == 1 and not a[2] and a[1][0].op in ('list', 'tuple'):
                return mk('call', mk('attr', self(m[0]), m[1]), (mk('tuple', *sorted({self(x) for x in a[1][0].args}, key=_id)),), ())
            if 'reshape' in self.keepc and not a[2]:
                sh = None
                if m and m[1] == 'reshape' and a[1]:
                    src, sh = m[0], a[1]
                elif c == 'numpy.reshape' and len(a[1]) == 2:
                    src, sh = a[1][0], a[1][1:]
                if c == 'casadi.reshape' and len(a[1]) in (2, 3):
                    sh = a[1][1:]
                    if len(sh) == 1 and sh[0].op in ('tuple', 'list'):
                        sh = sh[0].args
                    return mk('columnwise', self(a[1][0]), tuple(self(x) for x in sh))
                if sh is not None:
                    if len(sh) == 1 and sh[0].op in ('tuple', 'list'):
                        sh = sh[0].args
                    return mk('reshape', self(src), tuple(self(x) for x in sh))
            if m and m[1] == 'astype' and len(a[1]) == 1:
                k, rest = self.coef(self(m[0]))
                return self.scale(mk('call', mk('attr', rest, 'astype'), (self(a[1][0]),), ()), k)
            if c in ('casadi.Function', 'casadi.nlpsol', 'casadi.integrator', 'casadi.rootfinder') and len(a[1]) > 1 and a[1][0].op == 'const':
                return super().rule(mk('call', a[0], (const('_'),) + a[1][1:], a[2]), n) or self.plain(mk('call', a[0], (const('_'),) + a[1][1:], a[2]))
            if 'flatten' in self.keepc and not a[2]:
                if m and (m[1] in ('flatten', 'ravel') and not a[1] or m[1] == 'reshape' and len(a[1]) == 1 and is_const(a[1][0], -1)):
                    return self.flat(m[0])
                if c == 'numpy.ravel' and len(a[1]) == 1:
                    return self.flat(a[1][0])
            if c in self.keepc or m and m[1] in self.keepc and m[1] != 'reshape':
                return self.plain(t)
        return super().rule(t, n)

    def cmp(self, op, x, y):
        r = super().cmp(op, x, y)
        return self.nothing(r) if r.op == 'eq0' else r

    def ge(self, x, y):
        r = super().ge(x, y)
        return self.nothing(r) if r.op == 'ge0' else r

    def nothing(self, r):
        """comparisons of numbers of elements with zero"""
        t = r.args[0]
        ps = t.args[0] if t.op == 'sum' else ((t, 1, 1),) if t.op == 'len' else ((t.args[2][0][0], t.args[0], t.args[1]),) if t.op == 'prod' and len(t.args[2]) == 1 and t.args[2][0][1] == 1 else ()
        ls = [(b, Fraction(p, q)) for b, p, q in ps if b.op == 'len']
        k = sum((Fraction(p, q) for b, p, q in ps if b is ONE), Fraction(0))
        if not ls or len(ls) + sum(b is ONE for b, p, q in ps) != len(ps) or len({c for _, c in ls}) > 1:
            return r
        c = ls[0][1]
        if r.op == 'ge0' and c == 1 and k == -1:
            neg = True          # at least one element
        elif k == 0 and (r.op == 'eq0' or c < 0):
            neg = False
        else:
            return r
        es = []
        for b, _ in ls:
            e = self.empty(b.args[0])
            es.append(mk('eq0', b) if e is None else e)
        e = conj(es)
        if e.op == 'and':
            e = mk('and', *sorted(set(e.args), key=_id))
        return not_(e) if neg else e

    @staticmethod
    def asdict(t):
        """a copy with elements stored under names is a dictionary"""
        out = t.args[1:]
        if all(len(w.args[0].args) == 1 and is_const(w.args[0].args[0]) and isinstance(w.args[0].args[0].args[0], str) and w.args[2] is TRUE and not w.args[3].args for w in out) and len({w.args[0] for w in out}) == len(out):
            x = mk('star', t.args[0])
            return mk('dict', tuple(sorted(((w.args[0].args[0], w.args[1]) for w in out), key=lambda y: str(y[0].args[0]))), (mk('entry', mk('tuple', x, x), mk('tuple'), mk('tuple')),))
        return t

    @staticmethod
    def spreadrange(e):
        while e.op == 'entry' and e.args[0].op == 'spread' and callee(e.args[0].args[0]) in ('builtins.list', 'builtins.tuple') and len(e.args[0].args[0].args[1]) == 1:
            e = mk('entry', mk('spread', e.args[0].args[0].args[1][0]), *e.args[1:])
        if e.op == 'entry' and e.args[0].op == 'spread' and e.args[0].args[0].op == 'range' and not e.args[1].args:
            lp = mk('loop', 0, e.args[0].args[0])
            return mk('entry', mk('lv', lp), mk('tuple', lp), e.args[2])
        return e

    def onedim(self, x):
        if x.op == 'sum':
            return any(self.onedim(b) for b, p, q in x.args[0])
        if x.op == 'item' and is_const(x.args[1]) and isinstance(x.args[1].args[0], int):
            y = x.args[0]
            return callee(y) in ('numpy.where', 'numpy.nonzero') or y.op == 'call' and y.args[0].op == 'func' and y.args[0].args[0].name in ('_get_active_constraints', '_detect_undetermined_sym_var')
        return callee(x) in ('numpy.arange', 'numpy.linspace')

    def empty(self, x):
        """a filtered collection is empty if no element passes"""
        if x.op == 'listx' and len(x.args) == 1 and x.args[0].op == 'entry' and x.args[0].args[2].args and x.args[0].args[1].args and x.args[0].args[0].op != 'spread':
            _, ls, gs = x.args[0].args
            return self(mk('call', mk('glob', 'numpy.all'), (mk('listx', mk('entry', not_(conj(list(gs.args))), ls, mk('tuple'))),), ()))
        if x.op == 'listx' and len(x.args) > 1 and all(e.op == 'entry' and e.args[2].args and not e.args[1].args and e.args[0].op != 'spread' for e in x.args):
            r = conj([not_(conj(list(e.args[2].args))) for e in x.args])
            return mk('and', *sorted(set(r.args), key=_id)) if r.op == 'and' else r
        if x.op == 'sum' and len(x.args[0]) == 2:
            d = {c: b for b, p, q in x.args[0] for c in [Fraction(p, q)]}
            if set(d) == {1, -1} and all(callee(b) == 'builtins.set' for b in d.values()):
                return self(mk('call', mk('attr', d[1], 'issubset'), (d[-1],), ()))
        return None

    def member(self, x, y):
        """x is one of the names a structure was declared with"""
        m = method(y)
        if not m or m[1] not in ('sym_struct', 'struct') or len(y.args[1]) != 1 or y.args[2] or x.op not in ('keyof', 'const'):
            return None
        es = y.args[1][0]
        if es.op in ('list', 'tuple'):
            es = mk('listx', *[mk('entry', e, mk('tuple'), mk('tuple')) for e in es.args])
        if es.op != 'listx':
            return None
        out = []
        for e in es.args:
            v, ls, gs = e.args
            if callee(v) != 'casadi.entry' or not v.args[1]:
                return None
            nm = v.args[1][0]
            if nm.op == 'const' and not ls.args:
                out.append(conj(list(gs.args) + [self.cmp('==', x, nm)]))
            elif nm.op == 'keyof' and x.op == 'keyof' and nm.args[0] is x.args[0] and len(ls.args) == 1 and nm.args[1] is mk('lv', ls.args[0]) and x.args[1].op == 'lv' and x.args[1].args[0].args[1] is ls.args[0].args[1]:
                i, j = nm.args[1], x.args[1]
                out.append(self(subst(conj(list(gs.args)), lambda t: j if t is i else None)))
            else:
                return None
        return disj(out)

    def signature(self, f):
        """parameters (without self) and constant defaults of the package function a call goes to"""
        sig = self.it.p.__dict__.setdefault('signatures', {})
        if not sig:
            for x in self.it.p.funcs:
                a = x.node.args
                ps = [y.arg for y in a.posonlyargs + a.args]
                d = dict(zip(ps[len(ps) - len(a.defaults):], a.defaults))
                if x.cls is not None:
                    ps = ps[1:]
                r = (tuple(ps), tuple((k, repr(v.value)) for k, v in d.items() if isinstance(v, ast.Constant)))
                if a.vararg:
                    r = None
                if x.cls is not None:
                    sig[x.name] = r if sig.get(x.name, r) == r else None
                sig[x.node] = r
        if f.op == 'func':
            r = sig.get(f.args[0].node)
            return (('self',) * (f.args[0].cls is not None) + r[0], r[1]) if r is not None else None
        if f.op == 'glob':
            return EXTERNAL.get(f.args[0])
        return sig.get(f.args[1]) if f.op == 'attr' else None

    def positional(self, t):
        """arguments given by name and arguments left at their default"""
        f, pos, kw = t.args
        if f.op not in ('func', 'attr', 'glob') or any(x.op == 'star' for x in pos) or not pos and not kw:
            return t
        s = self.signature(f)
        if s is None or any(k == '**' or k not in s[0] for k, _ in kw):
            return t
        d, named = dict(s[1]), dict(kw)
        pos = list(pos)
        while named and len(pos) < len(s[0]) and s[0][len(pos)] in named:
            pos.append(named.pop(s[0][len(pos)]))
        while not named and pos and len(pos) <= len(s[0]) and pos[-1].op == 'const' and d.get(s[0][len(pos) - 1]) == repr(pos[-1].args[0]):
            pos.pop()
        for k in [k for k, v in named.items() if v.op == 'const' and d.get(k) == repr(v.args[0])]:
            named.pop(k)
        return mk('call', f, tuple(pos), tuple(sorted(named.items()))) if (len(pos), len(named)) != (len(t.args[1]), len(kw)) else t

    def copied(self, t):
        """a dictionary built key by key from another one, or from the fields of a record, is a copy of it"""
        kn, dy = t.args
        if len(dy) == 1 and not kn and dy[0].args[0].op == 'tuple':
            k, v = dy[0].args[0].args
            if k.op == 'star' and k is v and k.args[0].op == 'asdict':
                return self(k.args[0])
        out, change = [], False
        for e in dy:
            ls, gs = e.args[1], e.args[2]
            k, v = e.args[0].args if e.args[0].op == 'tuple' else (None, None)
            cut = []
            for g in gs.args:
                c = g.args[0] if g.op == 'not' else TRUE
                if c.op == 'cmp' and c.args[0] == '==' and k in c.args[1:] and any(y.op == 'const' for y in c.args[1:]):
                    cut.append(next(y for y in c.args[1:] if y.op == 'const'))
                else:
                    cut = None
                    break
            if k is not None and k.op == 'keyof' and len(ls.args) == 1 and cut is not None and k.args[1].op == 'lv' and k.args[1].args[0] is ls.args[0]:
                x = self(k.args[0])
                r = ls.args[0].args[1]
                if x.op in ('asdict', 'sym', 'attr', 'item') and r.op == 'range' and is_const(r.args[0], 0) and self(r.args[1]) is self(mk('len', x)) and \
                        (v.op == 'item' and self(v.args[0]) is x and v.args[1] is k or v.op == 'getattr' and v.args[1] is k and mk('asdict', self(v.args[0])) is x):
                    for q in cut:
                        x = mk('without', x, q)
                    s = mk('star', x)
                    e, change = mk('entry', mk('tuple', s, s), mk('tuple'), mk('tuple')), True
            out.append(e)
        return self(mk('dict', kn, tuple(out))) if change else None

    def function(self, t):
        """a local function or lambda is what it returns and changes for symbolic arguments"""
        if t in self.forms:
            return self.forms[t]
        self.forms[t] = mk('unk', 'recursive function')
        if self.st is None:
            return t
        fi, env = self.it.closures[t.args[0]]
        a = fi.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        kw = {x.arg: mk('sym', '%' + x.arg) for x in a.kwonlyargs}
        if a.kwarg:
            kw['**'] = mk('sym', '%kwargs')
        if a.vararg:
            pos = pos + [None]
        args = [mk('sym', '%%%d' % i) if n else mk('star', mk('sym', '%args')) for i, n in enumerate(pos)]
        it, ev, muted = self.it, self.it.events, self.it.muted
        it.events, it.muted = [], 0
        st = self.st.copy()
        st.guards = ()
        try:
            try:
                r = it.freeze(it.inline(fi, args, kw, st, None, closure_env=env), st)
            except DeadPath:
                r = mk('raises')
            evs = it.events
        finally:
            it.events, it.muted = ev, muted
        out = [self(r)]
        for e in evs:
            if e.kind in ('setitem', 'setattr', 'raise') or e.kind == 'call' and e.info == 'effect' and not (callee(e.result) or '').startswith(('builtins.print', 'warnings.', 'logging.')):
                g = conj([self(x.term()) for x in e.guards])
                if e.kind == 'call':
                    out.append(mk('effect', self(e.result), g, mk('tuple', *[self(x) for x in e.loops])))
                elif e.kind == 'raise':
                    out.append(mk('raise', g))
                else:
                    out.append(mk(e.kind, self(e.base), self(e.key) if isinstance(e.key, Term) else const(e.key), self(e.value), g))
        dfl = [self(it.ev(d, Frame(fi, None, None, env), self.st.copy())) for d in a.defaults]
        r = mk('function', len(pos), mk('tuple', *dfl), *out)
        b = out[0]
        if len(out) == 1 and not dfl and not a.kwonlyargs and b.op == 'call' and b.args[0].op == 'sym' and not str(b.args[0].args[0]).startswith('%'):
            # a function that only passes its arguments on is the function it calls
            if list(b.args[1]) == args and list(b.args[2]) == ([('**', kw['**'])] if a.kwarg else []):
                r = b.args[0]
        self.forms[t] = r
        return r

    def recurrence(self, t):
        """a variable changed by a loop is named by its recurrence, not by its identifier"""
        lp, name = t.args[0], t.args[1]
        if not isinstance(name, str) or re.fullmatch(r'_\d*', name) or (lp, name) in self.busy:
            return mk('carry', self(lp), name)
        r = self.closed(t)
        if r is not None:
            return r
        if t in self.stack:
            return mk('carry', self(lp), '_%d' % (len(self.stack) - 1 - self.stack.index(t)))
        c = self.induct.get((lp, name))
        if not c or len(c) != 1:
            return mk('carryx', self(lp), name)
        init, body = next(iter(c))
        i = self(init)
        old, self.memo = self.memo, {}
        self.stack.append(t)
        try:
            b = self(body)
        finally:
            self.stack.pop()
            self.memo = old
        return mk('carry', self(lp), mk('rec', i, b))

    def total(self, t):
        """a value accumulated over a loop is a sum of the added values"""
        out = []

        def go(x, loops, guards, k, carry):
            if x.op == 'after':
                if x.args[0].op != 'loop' or x.args[0].args[1].op == 'while':
                    return False
                return go(x.args[2], loops, guards, k, carry) and go(x.args[3], loops + (x.args[0],), guards, k, carry | {mk('carry', x.args[0], x.args[1])})
            if x.op == 'bin' and x.args[0] in '+-':
                return go(x.args[1], loops, guards, k, carry) and go(x.args[2], loops, guards, -k if x.args[0] == '-' else k, carry)
            if x in carry:
                return True
            if x.op == 'ite' and any(y in carry for z in x.args[1:] for y in walk(z)):
                if any(y in carry for y in walk(x.args[0])):
                    return False
                return go(x.args[1], loops, guards + (x.args[0],), k, carry) and go(x.args[2], loops, guards + (mk('not', x.args[0]),), k, carry)
            if x.op == 'call' and callee(x) == 'builtins.sum' and len(x.args[1]) == 1 and not x.args[2]:
                es = entries_of(x.args[1][0])
                if es is not None and all(l.op == 'loop' and l.args[1].op != 'while' for _, ls, _ in es for l in ls) and not any(v.op in ('spread', 'setat') for v, _, _ in es):
                    return all(go(v, loops + tuple(ls), guards + tuple(gs), k, carry) for v, ls, gs in es)
            if x.op == 'sumover' and all(l.op == 'loop' and l.args[1].op != 'while' for l in x.args[1].args):
                return go(x.args[0], loops + x.args[1].args, guards + x.args[2].args, k, carry)
            if x.op in ('list', 'tuple', 'listx', 'cat', 'dict', 'strop', 'fmtstr', 'setat') or x.op == 'const' and not isinstance(x.args[0], (int, float)) or any(y in carry for y in walk(x)):
                return False
            out.append((x, loops, guards, k))
            return True
        if not go(t, (), (), 1, frozenset()):
            return None
        if any(x is t for x, _, _, _ in out):
            return None
        r = const(0)
        for x, loops, guards, k in out:
            v = self(x)
            vs = [self.scale(b, Fraction(p, q)) for b, p, q in v.args[0]] if v.op == 'sum' else [v]
            for v in vs:
                c, v = self.coef(v)
                if c == 0:
                    continue
                g = sorted({y for y in (self(z) for z in guards) if y is not TRUE}, key=_id)
                if FALSE in g:
                    continue
                if loops or g:
                    v = mk('sumover', v, mk('tuple', *[self(l) for l in loops]), mk('tuple', *g))
                r = self.bin('+', r, self.scale(v, k*c))
        return self.whole(r)

    def whole(self, r):
        """x[0] + sum of x[1:] is the sum of x"""
        if r.op != 'sum':
            return r
        for v, p, q in r.args[0]:
            if v.op != 'sumover' or len(v.args[1].args) != 1 or v.args[2].args or v.args[0].op != 'item':
                continue
            lp, x = v.args[1].args[0], v.args[0].args[0]
            iv = mk('lv', lp)
            if any(y is iv for y in walk(x)) or lp.args[1].op != 'range' or (mk('item', x, const(0)), p, q) not in [tuple(e) for e in r.args[0]]:
                continue
            n = self(mk('len', x))
            if v.args[0].args[1] is self(mk('bin', '+', iv, const(1))) and lp.args[1] is self(mk('range', const(0), mk('bin', '-', n, const(1)), const(1))):
                l2 = mk('loop', lp.args[0], self(mk('range', const(0), n, const(1))))
                full = mk('sumover', mk('item', x, mk('lv', l2)), mk('tuple', l2), mk('tuple'))
                out = const(0)
                for w, a, b in r.args[0]:
                    if w is not v and w is not mk('item', x, const(0)):
                        out = self.bin('+', out, self.scale(w, Fraction(a, b)))
                return self.bin('+', out, self.scale(full, Fraction(p, q)))
        return r

    def whileloop(self, t):
        """a while loop is named by its condition"""
        c = self.it.whiles.get(t)
        if not c or len(c) != 1:
            return t
        if t in self.open:
            return mk('loop', t.args[0], const('self'))
        if t in self.forms:
            return self.forms[t]
        old, self.memo = self.memo, {}
        self.open.append(t)
        try:
            r = mk('loop', t.args[0], mk('while', self(next(iter(c)))))
        finally:
            self.open.pop()
            self.memo = old
        if not self.open:
            self.forms[t] = r
        return r

    def plain(self, t):
        return mk('call', self(t.args[0]), tuple(self(x) for x in t.args[1]), tuple((k, self(v)) for k, v in t.args[2]))

    def text(self, t):
        """strings put together in different ways"""
        ps = self.textparts(t)
        if ps is None:
            return None
        out = []
        for p in ps:
            for q in (p.args if p.op == 'cat' else (p,)):
                if q.op == 'const' and isinstance(q.args[0], str) and out and out[-1].op == 'const':
                    out[-1] = const(out[-1].args[0] + q.args[0])
                elif not (q.op == 'const' and q.args[0] == ''):
                    out.append(q)
        if len(out) == 1 and out[0].op == 'const':
            return out[0]
        return mk('cat', *out)

    @staticmethod
    def same_method(f):
        """the method of the one or the other object is the method of one of them"""
        def go(f):
            if f.op == 'ite':
                p, q = go(f.args[1]), go(f.args[2])
                return (ite(f.args[0], p[0], q[0]), p[1]) if p and q and p[1] == q[1] else None
            return (f.args[0], f.args[1]) if f.op == 'attr' else None
        r = go(f)
        return mk('attr', *r) if r else None

    def flat(self, x):
        """the elements of an array, of a casadi matrix or of the vector of a structure"""
        if x.op == 'ite':
            return self(ite(x.args[0], *[mk('call', mk('attr', y, 'flatten'), (), ()) for y in x.args[1:]]))
        if x.op == 'call' and x.args[0].op == 'ite' and self.same_method(x.args[0]) is not None:
            x = mk('call', self.same_method(x.args[0]), x.args[1], x.args[2])
        m = method(x)
        if m and m[1] == 'full' and not x.args[1] and not x.args[2]:
            return self.flat(m[0])
        return mk('flat', self(x))

    def textval(self, x):
        x = self(x)
        if x.op == 'const' and isinstance(x.args[0], (int, str)):
            return const(str(x.args[0]))
        return x

    def textparts(self, t):
        o, a = t.op, t.args
        if o == 'cat':
            return [self(x) for x in a]
        if o == 'fmtstr':
            out = []
            for p in a:
                if p.op == 'fmtval':
                    if p.args[1] is NONE:
                        out.append(self.textval(p.args[0]))
                        continue
                    fs = self(p.args[1])
                    if fs.op != 'const':
                        return None
                    out.append(mk('fmtspec', self(p.args[0]), fs))
                else:
                    out.append(p)
            return out
        if o == 'strop' and a[0] == 'format' and a[1].op == 'const':
            kw = dict(a[3])
            out, auto = [], 0
            try:
                for lit, field, fs, conv in string.Formatter().parse(a[1].args[0]):
                    if lit:
                        out.append(const(lit))
                    if field is None:
                        continue
                    if conv or '{' in fs:
                        return None
                    if field == '':
                        v = a[2][auto]
                        auto += 1
                    else:
                        v = a[2][int(field)] if field.isdigit() else kw[field]
                    out.append(mk('fmtspec', self(v), const(fs)) if fs else self.textval(v))
            except (KeyError, IndexError, ValueError):
                return None
            return out
        if o == 'strop' and a[0] == 'join' and a[1].op == 'const' and len(a[2]) == 1 and a[2][0].op in ('list', 'tuple'):
            out = []
            for i, x in enumerate(a[2][0].args):
                if i:
                    out.append(a[1])
                out.append(self.textval(x))
            return out
        if o == 'bin' and a[0] == '+':
            def leaves(t):
                return leaves(t.args[1]) + leaves(t.args[2]) if t.op == 'bin' and t.args[0] == '+' else [t]
            ls = leaves(t)
            if len(ls) > 2:
                ls = [self(x) for x in ls]
                if any(q.op == 'cat' or (q.op == 'const' and isinstance(q.args[0], str)) for q in ls):
                    return ls       # everything added to a text is a text
            x, y = self(a[1]), self(a[2])
            if any(q.op == 'cat' or (q.op == 'const' and isinstance(q.args[0], str)) or q.op == 'attr' and q.args[1] in self.it.p.text_fields() for q in (x, y)):
                return [x, y]
            return None
        if o == 'bin' and a[0] == '%' and a[1].op == 'const' and isinstance(a[1].args[0], str):
            vals = list(a[2].args) if a[2].op == 'tuple' else [a[2]]
            parts = a[1].args[0].split('%s')
            if len(parts) != len(vals) + 1 or any('%' in p for p in parts):
                return None
            out = [const(parts[0])]
            for v, p in zip(vals, parts[1:]):
                out += [self.textval(v), const(p)]
            return out
        return None


class SpecMod:
    cache = {}

    def __init__(self, project, name):
        p = os.path.join(HERE, 'specs', name + '.py')
        src = open(p).read()
        tree = ast.parse(src)
        self.m = ModInfo('spec.' + name, p, 'spec/%s.py' % name, tree, src)
        self.funcs = {}
        for n in tree.body:
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                project._bind(self.m, [n])
        for n in tree.body:
            if isinstance(n, ast.FunctionDef):
                self.funcs[n.name] = FuncInfo(n, self.m)
                self.m.names[n.name] = ('func', self.funcs[n.name])


def spec_run(ctx, modname, fname, cls=None, args=None, presets=None, facts=None, noinline=None, kwargs=None, like=None):
    key = ('spec', modname, fname, cls, tuple(args) if args is not None else None, tuple(sorted((presets or {}).items(), key=repr)), tuple((facts or {}).items()), str(noinline))
    if key in ctx.cache2:
        return ctx.cache2[key]
    mk_ = ('specmod', modname)
    if mk_ not in ctx.cache2:
        ctx.cache2[mk_] = SpecMod(ctx.p, modname)
    f = ctx.cache2[mk_].funcs[fname]
    it, st = ctx.interp(presets, facts, noinline)
    av = []
    s = None
    if cls is not None:
        s = it.new_inst(st, ctx.cls(cls), 'self', lazy=True)
        av.append(s)
    av += list(args) if args is not None else [mk('sym', a.arg) for a in (f.node.args.posonlyargs + f.node.args.args)[len(av):]]
    kwargs = dict(kwargs or {})
    av = entry_args(f.node.args, av, kwargs)
    try:
        it.entry = True
        r = it.inline(f, av, kwargs, st, None)
    except DeadPath:
        r = None
    res = Run(it, st, s, it.freeze(r, st) if r is not None else None)
    ctx.cache2[key] = res
    return res


def unspecified(e):
    """`raise KeyboardInterrupt` in a reference marks cases the property says nothing about"""
    return e.value is not None and e.value.op == 'glob' and e.value.args[0] == 'builtins.KeyboardInterrupt'


def root_of(t):
    while t.op in ('ver', 'item') or (t.op == 'attr' and (t.args[0].op in ('ver', 'item') or t.args[1] in ('master', 'cat'))):
        t = t.args[0]
    return t


def unver(t):
    while t.op == 'ver':
        t = t.args[0]
    if t.op in ('item', 'attr'):
        return mk(t.op, unver(t.args[0]), *t.args[1:])
    return t


class CondOnly(Assume):
    def go(self, t, cond=False):
        if t.op in ('and', 'or', 'not'):
            return Assume.go(self, t, cond)
        v = self.fact(t)
        return t if v is None else const(v)


class View:
    """normalised observables of one run"""

    def __init__(self, run, keep=()):
        self.run = run
        self.n = CNorm(run.it, keep, run.st)
        self._dead = None

    def guard(self, e, raises=False):
        gs = [g for g in e.guards if raises or g.kind != 'raise']
        cs = []
        for g in gs:
            t = self.n(g.term())
            cs.append(t)
        c = conj(cs)
        if c.op == 'and':
            c = mk('and', *sorted(set(c.args), key=_id))
        if e.loops and c.op != 'const':
            # inside a loop over n elements n > 0 holds
            f = {}
            for l in e.loops:
                rg = self.n(l).args[1]
                if rg.op == 'range' and is_const(rg.args[0], 0):
                    n = rg.args[1]
                    for t, v in ((self.n.ge(n, ONE), True), (self.n.cmp('<', const(0), n), True), (self.n.cmp('==', n, const(0)), False)):
                        if t.op == 'not':
                            t, v = t.args[0], not v
                        if t.op != 'const':
                            f[t] = v
                    f[n] = True
                    if n.op == 'len':
                        f[n.args[0]] = True
            # only conditions, never the values inside them
            c = CondOnly(self.n, f)(c)
        return c

    @staticmethod
    def within(c):
        """if something is an element of x, x is not empty"""
        if c.op != 'and':
            return c
        full = {mk('len', x.args[1]) for x in c.args if x.op == 'in'} | {x.args[1] for x in c.args if x.op == 'in'}

        def redundant(x):
            return x in full or x.op in ('ge0', 'not') and any(is_nonempty(x, y) for y in full)
        return mk('and', *sorted({x for x in c.args if not redundant(x)}, key=_id)) if any(redundant(x) for x in c.args) else c

    def dead(self):
        """conditions under which the run raises"""
        if self._dead is None:
            self._dead = [self.guard(e) for e in self.run.events if e.kind == 'raise']
        return self._dead

    def loc(self, base, key):
        """place of an element store: object and flattened index"""
        t = mk('item', base, key)
        ar = arr_ref(t)
        if ar is not None:
            return mk('loc', self.n(ar[0].args[0] if ar[0].op == 'alloc' else ar[0]), *[self.n(x) for x in ar[1]])
        ks = []
        while t.op in ('item', 'ver'):
            if t.op == 'item':
                ks[:0] = list(t.args[1].args) if t.args[1].op == 'tuple' else [t.args[1]]
            t = t.args[0]
        return mk('loc', self.n(t), *[self.n(x) for x in ks])

    @staticmethod
    def updates(call, depth=0):
        """(key, value, loops) of x.update(...)"""
        def every(d):       # all entries of another dictionary
            if d.op not in ('sym', 'attr', 'item', 'getattr'):
                return mk('star', d), mk('star', d), ()
            lp = mk('loop', depth, mk('range', const(0), mk('len', d), const(1)))
            k = mk('keyof', d, mk('lv', lp))
            return k, mk('item', d, k), (lp,)
        out = []
        for a in call.args[1]:
            if a.op != 'dict':
                out.append(every(a))
                continue
            for k, v in a.args[0]:
                if v.op == 'ite' and UNDEF in v.args[1:]:
                    return [(mk('unk', 'update'), a, ())]
                out.append((k, v, ()))
            for en in a.args[1]:
                if en.args[0].op != 'tuple' or en.args[2].args:
                    return [(mk('unk', 'update'), a, ())]
                out.append((en.args[0].args[0], en.args[0].args[1], en.args[1].args))
        for k, v in call.args[2]:
            out.append((const(k), v, ()) if k != '**' else every(v))
        return out

    def wrap(self, e, *ts):
        return mk('obs', *(tuple(self.n(t) if isinstance(t, Term) else const(t) for t in ts) + (self.guard(e), mk('tuple', *[self.n(l) for l in e.loops]))))

    def get(self, what):
        """list of (label, term, loc)"""
        r = self.run
        k, _, arg = what.partition(' ')
        if k == 'return':
            return [('return', self.n(r.ret) if r.ret is not None else NONE, '')]
        if k == 'attr':
            loc = ''
            for e in r.sets(arg):
                loc = e.loc
            return [(arg, self.n(r.attr(arg)), loc)]
        if k == 'stores':
            out = []
            # the attribute itself and objects put there
            mine = {mk('attr', r.self, arg)} if r.self is not None else set()
            mine |= {root_of(e.value) for e in r.events if e.kind == 'setattr' and e.base is r.self and e.key == arg and e.value.op not in ('const', 'glob')}
            for e in r.events:
                if e.kind == 'setitem':
                    b = root_of(e.base)
                    h = r.st.heap.get(b.args[0]) if b.op == 'obj' and '#' in b.args[0] and '.' not in b.args[0].split('#', 1)[1] else None
                    if b in mine or arg == '*' and not (b.op == 'alloc' and fresh_copy(b.args[0]) or h is not None and h.kind == 'dict'):
                        k = self.loc(e.base, e.key) if arg == '*' else self.n(e.key)
                        out.append((short(k), k, self.n(e.value), self.guard(e), mk('tuple', *[self.n(l) for l in e.loops]), e.loc, e))
                elif e.kind == 'call' and e.result is not None and method(e.result) and method(e.result)[1] == 'update':
                    b = root_of(method(e.result)[0])
                    if b in mine or arg == '*':
                        for kt, vt, ls in self.updates(e.result, len(e.loops)):
                            k = self.loc(method(e.result)[0], kt) if arg == '*' else self.n(kt)
                            out.append((short(k), k, self.n(vt), self.guard(e), mk('tuple', *[self.n(l) for l in e.loops + tuple(x for x in ls if x not in e.loops)]), e.loc, e))
                elif e.kind == 'setattr_dyn' and e.key is not None and e.base is not r.self and (arg == '*' or e.base.op == 'attr' and e.base.args == (r.self, arg)):
                    k = mk('tuple', self.n(e.base), self.n(e.key))
                    out.append((short(k), k, self.n(e.value), self.guard(e), mk('tuple', *[self.n(l) for l in e.loops]), e.loc, e))
                elif e.kind == 'setattr' and e.base is not r.self and (arg == '*' or e.base.op == 'attr' and e.base.args == (r.self, arg) or e.base.op == 'obj' and e.base.args[0].endswith('.' + arg)):
                    k = const('.' + str(e.key))
                    if arg == '*':
                        k = mk('tuple', self.n(e.base), k)
                    out.append(('.' + str(e.key), k, self.n(e.value), self.guard(e), mk('tuple', *[self.n(l) for l in e.loops]), e.loc, e))
            return overridden(r.events, out)
        if k == 'setattrs':
            out = []
            for e in r.events:
                if e.kind in ('setattr', 'setattr_dyn') and e.base is r.self and (isinstance(e.key, Term) or not arg or e.key in arg.split('|')):
                    key = self.n(e.key) if isinstance(e.key, Term) else const(e.key)
                    out.append((short(key), key, self.n(e.value), self.guard(e), mk('tuple', *[self.n(l) for l in e.loops]), e.loc, e))
            return overridden(r.events, out)
        if k == 'appends':
            # elements added to a list attribute of self (append, extend, +=)
            out = []
            for e in r.events:
                els = None
                if e.kind == 'call' and e.result is not None and method(e.result) and method(e.result)[1] in ('append', 'extend', 'insert'):
                    b, m = method(e.result)
                    if (arg == '*' or root_of(b) is mk('attr', r.self, arg)) and e.args:
                        els = [e.args[0]] if m == 'append' else list(e.args[0].args) if m == 'extend' and e.args[0].op in ('list', 'tuple') else [mk(m, *e.args)]
                elif e.kind == 'setattr' and e.base is r.self and (e.key == arg or arg == '*'):
                    v, me = e.value, mk('attr', r.self, e.key)
                    b = me
                    if v.op == 'bin' and v.args[0] == '+' and root_of(v.args[1]) is me and v.args[2].op in ('list', 'tuple'):
                        els = list(v.args[2].args)
                    elif v.op == 'listx' and v.args and v.args[0].args[0] is mk('spread', me):
                        els = [x.args[0] for x in v.args[1:]]
                    elif arg != '*':
                        els = [mk('assigned', v)]
                for x in els or ():
                    out.append((short(self.n(x)), self.wrap(e, *((unver(b), x) if arg == '*' else (x,))), e.loc))
            return out
        if k == 'calls':
            out = []
            names = arg.split('|')
            for e in r.events:
                if e.kind != 'call' or e.result is None or e.result.op != 'call':
                    continue
                v = one_callee(e.result)
                f = v.args[0]
                c = callee(v)
                nm = c or (f.args[1] if f.op == 'attr' else f.args[0].name if f.op == 'func' else None)
                if nm in names or (c and c.split('.')[-1] in names):
                    out.append((nm, self.wrap(e, v), e.loc))
            return out
        if k == 'order':
            # which of two effects comes first, for all pairs that can both happen
            names, seen = arg.split('|'), []
            for e in r.events:
                nm = None
                if e.kind == 'call' and e.result is not None and e.result.op == 'call':
                    f = one_callee(e.result).args[0]
                    nm = (callee(e.result) or '').split('.')[-1] or (f.args[1] if f.op == 'attr' else f.args[0].name if f.op == 'func' else None)
                elif e.kind == 'setattr' and e.base is r.self:
                    nm = '.' + e.key
                if nm in names:
                    seen.append((nm, {(g.cond, g.pol) for g in e.guards}, e.loc))
            out = {}
            for i, (x, g, _) in enumerate(seen):
                for y, h, loc in seen[i + 1:]:
                    if x != y and not any((c, not p) in g for c, p in h):
                        out.setdefault((x, y), loc)
            return [('%s before %s' % k2, mk('obs', const(k2[0]), const(k2[1])), loc) for k2, loc in out.items()]
        if k == 'kwcalls':
            # one observation per keyword: update(a=1, b=2) is update(a=1); update(b=2)
            out = []
            for e in r.events:
                if e.kind != 'call' or e.result is None or e.result.op != 'call':
                    continue
                f = one_callee(e.result).args[0]
                nm = f.args[1] if f.op == 'attr' else f.args[0].name if f.op == 'func' else None
                if nm == arg:
                    for kw, v in e.result.args[2]:
                        if kw == '**' and v.op == 'dict' and all(x.args[0].op == 'tuple' for x in v.args[1]):
                            # one keyword per entry
                            for q, x in v.args[0]:
                                out.append((str(q.args[0]), self.wrap(e, q, x), e.loc))
                            for x in v.args[1]:
                                q, y = x.args[0].args
                                out.append((short(self.n(q)), mk('obs', self.n(q), self.n(y), self.within(conj([self.guard(e)] + [self.n(g) for g in x.args[2].args])), self.n(mk('tuple', *(e.loops + x.args[1].args)))), e.loc))
                            continue
                        out.append((kw, self.wrap(e, const(kw), v), e.loc))
            return out
        if k == 'raises':
            out = []
            for e in r.events:
                if e.kind == 'raise' and not unspecified(e):
                    c = self.guard(e)
                    for x in split(c):
                        out.append((short(x), x, e.loc))
            return out
        raise KeyError(what)


def is_nonempty(x, n):
    """n - 1 >= 0 or not n == 0"""
    if x.op == 'not':
        return x.args[0].op == 'eq0' and x.args[0].args[0] is n or x.args[0].op == 'ge0' and x.args[0].args[0] is mk('prod', -1, 1, ((n, 1),))
    d = x.args[0]
    return d.op == 'sum' and sorted((show(b), p, q) for b, p, q in d.args[0]) == sorted([(show(n), 1, 1), (show(ONE), -1, 1)])


def split(c):
    """a raise condition as a list of disjuncts"""
    if c.op in ('not', 'and'):
        # refused if one element fails: the condition inside the loop over the elements
        def opened(x):
            if x.op == 'not' and callee(x.args[0]) == 'numpy.all' and len(x.args[0].args[1]) == 1:
                l = x.args[0].args[1][0]
                if l.op == 'listx' and len(l.args) == 1 and len(l.args[0].args[1].args) == 1 and l.args[0].args[0].op == 'in':
                    return conj(list(l.args[0].args[2].args) + [not_(l.args[0].args[0])])
            return x
        d = opened(c) if c.op == 'not' else conj([opened(x) for x in c.args])
        if d is not c:
            return split(d)
    if c.op == 'or':
        return [y for x in c.args for y in split(x)]
    if c.op == 'not' and c.args[0].op == 'and':
        return [y for x in c.args[0].args for y in split(not_(x))]
    if c.op == 'and':
        for i, x in enumerate(c.args):
            s = split(x)
            if len(s) > 1:
                out = []
                for y in s:
                    z = conj(list(c.args[:i]) + [y] + list(c.args[i + 1:]))
                    if z.op == 'and':
                        z = mk('and', *sorted(set(z.args), key=_id))
                    out += split(z)
                return out
    return [c]


def short(t, n=70):
    s = show(t)
    return s if len(s) <= n else s[:n] + '~'


VACUOUS = []       # (property, key, observable) without any expectation, for tools/vacuous.py
ATOMS = set()     # functions deliberately kept as calls on both sides of the current comparison


def one_callee(t):
    """the method called on a choice of objects is the method of the chosen object"""
    def leaves(f):
        return leaves(f.args[1]) + leaves(f.args[2]) if f.op == 'ite' else [f]

    def base(f):
        return ite(f.args[0], base(f.args[1]), base(f.args[2])) if f.op == 'ite' else f.args[0]
    f = t.args[0]
    if f.op == 'ite' and all(x.op == 'attr' for x in leaves(f)) and len({x.args[1] for x in leaves(f)}) == 1:
        return mk('call', mk('attr', base(f), leaves(f)[0].args[1]), *t.args[1:])
    return t


def opaque(t, vocab=()):
    for x in walk(t):
        if x.op in UNKNOWN:
            return x
        if x.op == 'call' and x.args[0].op == 'func':
            f = x.args[0].args[0]
            if not ({f.name, f.qual, '%s.%s' % (f.cls.name, f.name) if f.cls else f.name} & ATOMS):
                return x
        c = callee(x)
        if c and not c.startswith(VOCAB):
            return x
    return None


def overridden(run_events, obs):
    """obs: list of [label, key, value, guard, loops, loc, event]; a later store to the same place hides an earlier one"""
    out = []
    for i, (l, k, v, g, lo, loc, e) in enumerate(obs):
        for l2, k2, v2, g2, lo2, loc2, e2 in obs[i + 1:]:
            if k2 is k and lo2 is lo and e2.base is e.base and e2.kind == e.kind and not any(x.op == 'ver' or x is k for x in walk(v2)):
                g = conj([g, not_(g2)])
        if g is not FALSE:
            out.append((l, mk('obs', k, v, g, lo), loc))
    return out


def loops_of(t):
    out = {}
    for x in walk(t):
        if x.op == 'loop':
            out[x] = x.args[1]
    return out


def report_pair(R, k, loc, g, w):
    if any(isinstance(x, Term) and x.op == 'while' for x in loops_of(w).values()):
        lg = [x for x in loops_of(g).values() if isinstance(x, Term)]
        if lg and not any(x.op == 'while' and x.args[0].op != 'const' for x in lg):
            R.unk(k, loc, 'loop written in another way')
            return
    if opaque(g) is not None and opaque(w) is None:
        R.unk(k, loc, 'cannot compare %s' % short(opaque(g), 120))
    else:
        R.bad(k, loc, 'got %s expected %s' % diff(g, w))


def compare(R, key, got, want, what, where, only_expected=False, only_actual=False):
    """got/want: View"""
    gs, ws = got.get(what), want.get(what)
    dead = want.dead()
    if what == 'return' or what.startswith('attr '):
        (lg, g, loc), (lw, w, _) = gs[0], ws[0]
        k = '%s:%s' % (key, what)
        try:
            d = differ(got.n, g, w, dead)
        except TooMany:
            R.unk(k, loc or where, 'too many cases')
            return
        if d is None:
            R.ok(k, loc or where, short(g, 200))
        else:
            report_pair(R, k, loc or where, *d)
        return
    if what == 'raises':
        skip = disj([want.guard(e) for e in want.run.events if e.kind == 'raise' and unspecified(e)])
        if not only_actual:
            al = disj([x for _, x, _ in gs] + [skip])
            for l, w, _ in ws:
                k = '%s:%s:%s' % (key, what, l)
                if al is w or any(x is w for _, x, _ in gs) or taut(got.n, disj([not_(w), al])):
                    R.ok(k, where, short(w, 200))
                else:
                    near = next((x for x in gs if opaque(x[1]) is not None), None)
                    if near is not None:
                        R.unk(k, near[2], 'cannot compare %s' % short(opaque(near[1]), 120))
                    else:
                        R.bad(k, where, 'not refused: %s' % short(w, 400))
        if not only_expected:
            al = disj([x for _, x, _ in ws] + [skip])
            for l, g, loc in gs:
                k = '%s:%s:unexpected %s' % (key, what, l)
                if any(x is g for _, x, _ in ws) or taut(got.n, disj([not_(g), al])):
                    continue
                if opaque(g) is not None:
                    R.unk(k, loc, 'not in the reference: %s' % short(g, 200))
                else:
                    R.bad(k, loc, 'refused although allowed: %s' % short(g, 400))
        return
    rest = list(gs)
    missing = []
    for l, w, _ in ws:
        m = next((x for x in rest if x[1] is w), None)
        if m is not None:
            rest.remove(m)
            if not only_actual:
                R.ok('%s:%s:%s' % (key, what, l), m[2] or where, short(m[1], 200))
        else:
            missing.append((l, w))
    if (missing and not only_actual) or (rest and not only_expected):
        mode = 'expected' if only_expected else 'actual' if only_actual else None
        try:
            d = differ_sets(got.n, [x[1] for x in rest], [w for _, w in missing], dead, mode)
        except TooMany:
            R.unk('%s:%s' % (key, what), where, 'too many cases')
            return
        if d is None:
            for l, w in missing:
                if not only_actual:
                    R.ok('%s:%s:%s' % (key, what, l), where, short(w, 200))
            return
        dg, dw = d
        if mode is None or mode == 'expected':
            pass
        loc_of = {}
        for x in rest:
            loc_of.setdefault(short(x[1].args[0]), x[2])
        dg = [(short(t.args[0]), t, loc_of.get(short(t.args[0]), where)) for t in dg]
        if not only_actual:
            for w in dw:
                l = short(w.args[0])
                near = next((x for x in dg if x[0] == l), None)
                k = '%s:%s:%s' % (key, what, l)
                if near is not None:
                    report_pair(R, k, near[2], near[1], w)
                    dg.remove(near)
                else:
                    R.bad(k, where, 'missing: %s' % short(w, 400))
        if not only_expected:
            for l, g, loc in dg:
                k = '%s:%s:unexpected %s' % (key, what, l)
                if opaque(g) is not None:
                    R.unk(k, loc, 'not in the reference: %s' % short(g, 200))
                else:
                    R.bad(k, loc, 'not allowed by the property: %s' % short(g, 400))


def diff(g, w):
    """innermost difference of two terms, for messages"""
    while g.op == w.op and len(g.args) == len(w.args):
        d = [(a, b) for a, b in zip(g.args, w.args) if a is not b and a != b]
        if len(d) != 1:
            break
        a, b = d[0]
        while isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            dd = [(x, y) for x, y in zip(a, b) if x is not y and x != y]
            if len(dd) != 1:
                break
            a, b = dd[0]
        if not (isinstance(a, Term) and isinstance(b, Term)):
            break
        g, w = a, b
    return short(g, 500), short(w, 500)


def default_values(fi, v):
    a = fi.node.args
    pos = a.posonlyargs + a.args
    out = {}
    for i, d in enumerate(a.defaults):
        out[len(pos) - len(a.defaults) + i] = d
    for x, d in zip(a.kwonlyargs, a.kw_defaults):
        if d is not None:
            out[x.arg] = d
    it = v.run.it
    ev, muted = it.events, it.muted
    it.events, it.muted = [], 0
    try:
        st = v.run.st.copy()
        st.guards = ()
        return {k: (pos[k].arg if isinstance(k, int) else k, v.n(it.ev(d, Frame(fi, None, None), st))) for k, d in out.items()}
    finally:
        it.events, it.muted = ev, muted


def defaults(R, key, where, fi, sp, g, w):
    """what an omitted argument means, for the arguments with a default in the reference"""
    want = default_values(sp, w)
    if not want:
        return
    got = default_values(fi, g)
    for k, (name, t) in want.items():
        kk = '%s:default %s' % (key, name)
        if k not in got:
            R.bad(kk, where, 'no default, expected %s' % short(t))
        elif got[k][1] is t:
            R.ok(kk, where, short(t))
        else:
            report_pair(R, kk, where, got[k][1], t)


def check(ctx, R, cls, meth, modname, fname, observe, key=None, presets=None, facts=None, noinline=None, args=None, mode=None, keep=(), func=None):
    """compare method (or module function `func`) with reference function; 'a|b': either reference is fine"""
    if '|' in fname:
        best = None
        for f in fname.split('|'):
            sub = type(R)(R.prop)
            sub.use(R.rule, R.rules.get(R.rule, ''))
            r = check(ctx, sub, cls, meth, modname, f, observe, key, presets, facts, noinline, args, mode, keep, func)
            rank = (sub.count('violation'), sub.count('undecided'))
            if best is None or rank < best[0]:
                best = (rank, sub, r)
            if rank[0] == 0:
                break
        for k, (st, wh, tx) in best[1].obl.items():
            R.add(st, k[len(R.rule) + 1:], wh, tx)
        return best[2]
    ATOMS.clear()
    ATOMS.update(noinline or ())
    key = key or func or '%s.%s' % (cls, meth)
    for n in noinline or ():
        n = n.split('.')[-1]
        if n.startswith('_') and not n.startswith('__') and not any(x.name == n for x in ctx.p.funcs):
            R.unk(key + ':helper', '', 'private method %s not found: its calls cannot be followed' % n)
            return
    if func is not None:
        fi = ctx.p.func(func)
        if fi is None:
            R.bad(key + ':exists', func, 'function not found')
            return
        got = ctx.run_func(func, args=args, presets=presets, facts=facts, noinline=noinline)
        where = fi.loc
    else:
        c = ctx.cls(cls)
        f = ctx.p.find_method(c, meth) if c is not None else None
        p = ctx.p.find_prop(c, meth.split('.')[0]) if c is not None and f is None else None
        if p is not None:
            f = p.fset if meth.endswith('.setter') else p.fget
        if f is None:
            private = meth.startswith('_') and not meth.startswith('__')
            (R.unk if private else R.bad)(key + ':exists', cls, 'method %s not found' % meth)
            return
        where = f.loc
        if args is None:
            args = [mk('sym', a.arg) for a in f.node.args.posonlyargs + f.node.args.args][1:]
        got = ctx.run_fi(cls, f, args=args, presets=presets, facts=facts, noinline=noinline)
    want = spec_run(ctx, modname, fname, cls=cls if func is None else None, args=args, presets=presets, facts=facts, noinline=noinline)
    g, w = View(got, keep), View(want, keep)
    d = [{v.n(x) for x in v.run.it.dictlike} for v in (g, w)]
    if d[0] or d[1]:
        g, w = View(got, keep), View(want, keep)
        g.n.dicts = w.n.dicts = d[0] | d[1]
    defaults(R, key, where, fi if func is not None else f, ctx.cache2[('specmod', modname)].funcs[fname], g, w)
    for what in observe:
        m = what[:1]
        n = len(R.obl)
        if m in '<>':
            compare(R, key, g, w, what[1:], where, only_expected=(m == '>'), only_actual=(m == '<'))
        else:
            compare(R, key, g, w, what, where)
        if len(R.obl) == n:
            VACUOUS.append((R.prop, key, what))
            if m != '>':
                R.ok('%s:%s:nothing' % (key, what), where, 'nothing expected and nothing found')
    return g, w
