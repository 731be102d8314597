"""Equality of gated terms up to the order and nesting of their conditions (Shannon expansion over the atomic conditions)."""
from fractions import Fraction
from .terms import *
from .alg import ONE, _id

LIMIT = 4096


class TooMany(Exception):
    pass


# truthiness of one value cannot hold together with another (isinstance of unrelated built-in types, is None)
EXCL = {'builtins.str', 'builtins.tuple', 'builtins.list', 'builtins.dict', 'builtins.float', 'numpy.ndarray', 'builtins.int'}


def conds(t, cond=False):
    """atomic conditions occurring in condition positions of t, outermost first"""
    out, todo, seen = [], [(t, cond)], set()
    while todo:
        x, c = todo.pop(0)
        if (x, c) in seen:
            continue
        seen.add((x, c))
        if c:
            if x.op in ('and', 'or', 'not'):
                todo += [(y, True) for y in children(x)]
            elif x.op == 'ite':
                todo += [(x.args[0], True), (x.args[1], True), (x.args[2], True)]
            elif x.op != 'const':
                out.append(x)
            continue
        if x.op == 'ite':
            todo.append((x.args[0], True))
            todo += [(x.args[1], False), (x.args[2], False)]
        elif x.op in ('and', 'or', 'not'):
            todo.append((x, True))
        elif x.op in ('obs', 'write'):
            todo.append((x.args[-2], True))
            todo += [(y, False) for y in children(x)]
        else:
            todo += [(y, False) for y in children(x)]
    # conditions that contain no other conditions first, so that their value is fixed before they are used inside others
    return out


def implied(a, val):
    """further (atom, value) facts that follow from a == val"""
    out = []
    if val and a.op == 'isinst':
        x, ty = a.args
        if ty.op == 'glob' and ty.args[0] in EXCL:
            for q in EXCL:
                if q != ty.args[0]:
                    out.append((mk('isinst', x, mk('glob', q)), False))
            out.append((mk('cmp', 'is', x, NONE), False))
            out.append((mk('cmp', '==', x, NONE), False))
    return out


def entries(es):
    """elements of a list or dictionary filled by loops: their conditions are a set, impossible ones do not exist"""
    out = []
    for e in es:
        if e.op == 'entry' and e.args[2].args:
            lits = {x for g in e.args[2].args for x in (g.args if g.op == 'and' else (g,))} - {TRUE}
            if FALSE in lits:
                continue
            e = mk('entry', e.args[0], e.args[1], mk('tuple', *sorted(lits, key=_id)))
        out.append(e)
    return out


def linear(t):
    """t == factor * form + offset: (form, factor, offset), form with leading coefficient 1"""
    if t.op == 'sum':
        parts, off = [], Fraction(0)
        for b, p, q in t.args[0]:
            if b is ONE:
                off += Fraction(p, q)
            else:
                parts.append((b, Fraction(p, q)))
    elif t.op == 'prod' and len(t.args[2]) == 1 and t.args[2][0][1] == 1:
        parts, off = [(t.args[2][0][0], Fraction(t.args[0], t.args[1]))], Fraction(0)
    elif t.op == 'const':
        return None
    else:
        parts, off = [(t, Fraction(1))], Fraction(0)
    if not parts:
        return None
    parts.sort(key=lambda x: _id(x[0]))
    f = parts[0][1]
    return tuple((b, c / f) for b, c in parts), f, off


def whole(form):
    """takes integer values only"""
    return all(c.denominator == 1 and b.op in ('len', 'lv') for b, c in form)


# terms that are conditions wherever they occur; other terms only count as decided where their truth matters
BOOL = {'cmp', 'ge0', 'eq0', 'in', 'isinst', 'exc', 'not', 'and', 'or', 'hasattr', 'raisewhen'}


class Bounds:
    """what decided comparisons say about linear forms: least and greatest value (strict?), excluded values"""

    def __init__(self, facts):
        self.b = {}
        for c, v in facts.items():
            if c.op in ('ge0', 'eq0') and isinstance(v, bool):
                l = linear(c.args[0])
                if l is not None:
                    self.add(c.op, v, *l)
            elif c.op == 'len' and isinstance(v, bool):
                self.add('eq0', not v, *linear(c))
            elif c.op in ('sym', 'attr', 'item', 'dictkeys', 'listx') and isinstance(v, bool):
                self.add('eq0', not v, *linear(mk('len', c)))       # a collection is true if it is not empty

    def get(self, form):
        r = self.b.get(form)
        if r is None:
            lo = (Fraction(0), False) if len(form) == 1 and form[0][0].op == 'len' else None
            r = self.b[form] = [lo, None, set()]
        return r

    def add(self, op, v, form, f, off):
        r, k = self.get(form), -off / f
        if op == 'eq0':
            if v:
                self.low(r, k, False)
                self.high(r, k, False)
            else:
                r[2].add(k)
        elif v:         # f * form + off >= 0
            (self.low if f > 0 else self.high)(r, k, False)
        else:
            (self.high if f > 0 else self.low)(r, k, True)
        for _ in range(8):
            a, z = r[0], r[1]
            if whole(form):
                if r[0] is not None:
                    x = -(-r[0][0] // 1)
                    r[0] = (x + 1 if r[0][1] and x == r[0][0] else x, False)
                if r[1] is not None:
                    x = r[1][0] // 1
                    r[1] = (x - 1 if r[1][1] and x == r[1][0] else x, False)
            if r[0] is not None and not r[0][1] and r[0][0] in r[2]:
                r[0] = (r[0][0], True)
            if r[1] is not None and not r[1][1] and r[1][0] in r[2]:
                r[1] = (r[1][0], True)
            if (a, z) == (r[0], r[1]):
                break

    @staticmethod
    def low(r, k, strict):
        if r[0] is None or k > r[0][0] or k == r[0][0] and strict:
            r[0] = (k, strict)

    @staticmethod
    def high(r, k, strict):
        if r[1] is None or k < r[1][0] or k == r[1][0] and strict:
            r[1] = (k, strict)

    def decide(self, op, t):
        l = linear(t)
        if l is None:
            return None
        form, f, off = l
        r = self.b.get(form)
        if r is None:
            if not (len(form) == 1 and form[0][0].op == 'len'):
                return None
            r = [(Fraction(0), False), None, set()]
        lo, hi, ex = r
        k = -off / f
        below = hi is not None and (hi[0] < k or hi[0] == k and hi[1])       # form < k
        above = lo is not None and (lo[0] > k or lo[0] == k and lo[1])       # form > k
        if op == 'eq0':
            if below or above or k in ex or whole(form) and k.denominator != 1:
                return False
            if lo is not None and hi is not None and lo[0] == hi[0] == k:
                return True
            return None
        least, most = lo is not None and lo[0] >= k, hi is not None and hi[0] <= k
        if f > 0:
            return True if least else False if below else None
        return True if most else False if above else None


class Assume:
    """simplification of normalised terms under decided conditions"""

    def __init__(self, n, facts):
        self.n, self.f, self.memo = n, facts, {}
        self.eq, self.none = {}, set()
        self.bounds = Bounds(facts)
        for c, v in facts.items():
            if v and c.op == 'cmp' and c.args[0] == '==':
                x, y = c.args[1:]
                if y is NONE:
                    self.none.add(x)
                if y.op == 'const':
                    self.eq[x] = y
                elif x.op == 'const':
                    self.eq[y] = x

    def __call__(self, t, cond=False):
        if isinstance(t, tuple):
            return tuple(self(x, cond) for x in t)
        if not isinstance(t, Term):
            return t
        r = self.memo.get((t, cond))
        if r is None:
            r = self.go(t, cond)
            self.memo[t, cond] = r
        return r

    def fact(self, t):
        v = self.f.get(t)
        if v is not None:
            return v
        if t.op == 'cmp' and t.args[0] == '==':
            for x, y in (t.args[1:], t.args[:0:-1]):
                e = self.eq.get(x)
                if e is not None and y.op == 'const' and e is not y:
                    return False
        if t.op in ('ge0', 'eq0'):
            return self.bounds.decide(t.op, t.args[0])
        if t.op in ('sym', 'attr', 'item', 'dictkeys', 'listx', 'len'):
            v = self.bounds.decide('eq0', t if t.op == 'len' else mk('len', t))
            return None if v is None else not v
        return None

    def go(self, t, cond=False):
        o, a, n = t.op, t.args, self.n
        if t in self.none:
            return NONE
        if cond or o in BOOL:
            v = self.fact(t)
            if v is not None:
                return const(v)
        if o == 'ite':
            c = self(a[0], True)
            if c.op == 'const':
                return self(a[1] if c.args[0] else a[2], cond)
            return ite(c, self(a[1], cond), self(a[2], cond))
        if o == 'not':
            return not_(self(a[0], True))
        if o == 'and' or o == 'or':
            r = (conj if o == 'and' else disj)([self(x, True) for x in a])
            return mk(o, *sorted(set(r.args), key=_id)) if r.op == o else r
        if o in ('const', 'sym', 'glob', 'obj'):
            return t
        if o == 'sum':
            r = None
            for b, p, q in a[0]:
                x = n.scale(self(b), Fraction(p, q))
                r = x if r is None else n.bin('+', r, x)
            return r
        if o == 'prod':
            r = const(1)
            for b, p in a[2]:
                x = self(b)
                for _ in range(abs(p) if isinstance(p, int) or p.denominator == 1 else 0):
                    r = n.mul(r, x, 1 if p > 0 else -1)
            return n.scale(r, Fraction(a[0], a[1]))
        if o == 'mat':
            r = self(a[0])
            for x in a[1:]:
                r = n.bin('@', r, self(x))
            return r
        if o in ('obs', 'write') and len(a) > 1:
            na = tuple(self(x, i == len(a) - 2) if isinstance(x, (Term, tuple)) else x for i, x in enumerate(a))
        elif o == 'entry' and len(a) == 3 and a[2].op == 'tuple':
            na = (self(a[0]), self(a[1]), mk('tuple', *[self(x, True) for x in a[2].args]))
        else:
            na = tuple(self(x) if isinstance(x, (Term, tuple)) else x for x in a)
        if na == a:
            return t
        if o == 'filled':
            ws = sorted({w for w in na[1:] if w.args[-2] is not FALSE}, key=_id)
            return n.asdict(mk('filled', na[0], *ws)) if ws else na[0]
        if o == 'listx':
            return mk(o, *entries(na))
        if o == 'dict' and len(na) == 2:
            return mk(o, na[0], tuple(entries(na[1])))
        r = mk(o, *na)
        if o in ('cmp', 'bin', 'item', 'call', 'cat', 'len', 'isinst', 'in') or o == 'tuple' and na and na[0].op == 'item':
            r = n(r)
        v = self.fact(r) if cond or r.op in BOOL else None
        return r if v is None else const(v)


def explore(n, state, cancel, cond=False):
    """decision tree over the conditions of `state` = (gs, ws, dead).  cancel(gs, ws) -> reduced pair, or None when equal.
    Returns None if equal in every case not excluded by `dead`, else the reduced pair of one differing case."""
    count = [0]

    def pick(ts, cond=False):
        for t in ts:
            cs = conds(t, cond)
            if cs:
                return next((c for c in cs if not any(conds(x) for x in children(c))), None) or pick(list(children(cs[0])))
        return None

    def rec(gs, ws, dead, fs):
        if any(d is TRUE for d in dead):
            return None
        c = cancel(gs, ws)
        if c is None:
            return None
        gs, ws = c
        atom = pick(list(gs) + list(ws), cond) or pick(dead, True)
        if atom is None:
            return gs, ws
        for v in (True, False):
            count[0] += 1
            if count[0] > LIMIT:
                raise TooMany()
            f2 = dict(fs)
            f2[atom] = v
            for q, w in implied(atom, v):
                f2.setdefault(q, w)
            s = Assume(n, f2)
            r = rec([s(t, cond) for t in gs], [s(t, cond) for t in ws], [d for d in (s(d, True) for d in dead) if d is not FALSE], f2)
            if r is not None:
                return r
        return None
    return rec(*state, {})


def taut(n, t):
    """t holds under every assignment of its atoms"""
    def cancel(gs, ws):
        return None if gs[0] is TRUE else (gs, ws)
    try:
        return explore(n, ([t], [], []), cancel, True) is None
    except TooMany:
        return False


def differ(n, a, b, dead=()):
    """None if a == b wherever no condition in `dead` holds, else (a', b') in one differing case"""
    def cancel(gs, ws):
        return None if gs[0] is ws[0] else (gs, ws)
    r = explore(n, ([a], [b], list(dead)), cancel)
    return None if r is None else (r[0][0], r[1][0])


def differ_sets(n, gs, ws, dead=(), only=None):
    """gs, ws: lists of obs terms (..., guard, loops).  None if the same multiset of effects happens in every case,
    else (rest of gs, rest of ws) of one differing case.  only='expected': extra effects in gs are allowed; 'actual': missing ones"""
    def cancel(gs, ws):
        g = [t for t in gs if t.args[-2] is not FALSE]
        w = []
        for t in ws:
            if t.args[-2] is FALSE:
                continue
            if t in g:
                g.remove(t)
            else:
                w.append(t)
        if (not g or only == 'expected') and (not w or only == 'actual'):
            return None
        return g, w
    return explore(n, (list(gs), list(ws), list(dead)), cancel)
