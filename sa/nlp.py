"""The optimisation problem a class builds in setup(), read off the value graph of the solver creation call."""
from fractions import Fraction
from .ctx import *
from .terms import *
from .alg import ONE, _cnum

X, P, AUX = mk('sym', 'OPT_X'), mk('sym', 'OPT_P'), mk('sym', 'OPT_AUX')


class NotFound(Exception):
    pass


def unwrap(t):
    while True:
        if t.op == 'call' and callee(t) in ('casadi.vertcat', 'casadi.veccat', 'casadi.vec') and len(t.args[1]) == 1 and t.args[1][0].op != 'star':
            t = t.args[1][0]
        elif t.op == 'attr' and t.args[1] in ('cat', 'master'):
            t = t.args[0]
        else:
            return t


def entries_of(t):
    """entries (value, loops, guards) of a frozen list term"""
    if t.op in ('list', 'tuple'):
        return [(x, (), ()) for x in t.args]
    if t.op == 'listx':
        return [(e.args[0], e.args[1].args, e.args[2].args) for e in t.args]
    return None


def bounds(nfm, d):
    """(lower, upper) of a linear normal form over loop variables; None = unknown"""
    lo = hi = Fraction(0)
    sl, sh = {}, {}
    for b, c in nfm.parts(d).items():
        if b is ONE:
            for m in (sl, sh):
                m[ONE] = m.get(ONE, 0) + c
        elif b.op == 'lv' and b.args[0].args[1].op == 'range':
            top = nfm.bin('-', nfm(b.args[0].args[1].args[1]), ONE)
            up, dn = (sh, sl) if c > 0 else (sl, sh)
            for q, k in nfm.parts(top).items():
                up[q] = up.get(q, 0) + c * k
        else:
            for m in (sl, sh):
                m[b] = m.get(b, 0) + c
    f = lambda m: nfm.mksum(m)
    return f(sl), f(sh)


ALLOC = {'numpy.zeros', 'numpy.ones', 'numpy.empty', 'numpy.full', 'numpy.resize', 'numpy.array', 'numpy.zeros_like', 'numpy.ones_like', 'numpy.ndarray'}


COPY = {'numpy.copy', 'copy.copy', 'copy.deepcopy', 'casadi.vertcat', 'casadi.horzcat', 'casadi.veccat', 'builtins.dict', 'builtins.list', 'scipy.sparse.lil_matrix', 'casadi.DM', 'numpy.concatenate'}


def fresh_copy(t):
    """a new object with the contents of another one"""
    return method(t) is not None and method(t)[1] in ('copy', '__copy__', '__deepcopy__') or callee(t) in COPY


def is_alloc(t):
    while True:
        if t.op == 'alloc':
            t = t.args[0]
        elif t.op == 'bin':
            t = t.args[2] if t.args[1].op in ('const', 'un') else t.args[1]
        elif method(t) and method(t)[1] in ('astype', 'copy', 'reshape'):
            t = method(t)[0]
        else:
            return callee(t) in ALLOC


def arr_ref(t):
    """(allocation, indices) of an element of a numpy work array"""
    idx = []
    while t.op in ('item', 'ver'):
        if t.op == 'item':
            k = t.args[1]
            idx[:0] = list(k.args) if k.op == 'tuple' else [k]
        t = t.args[0]
    if idx and (t.op == 'alloc' or is_alloc(t)):
        return t, tuple(idx)
    return None


def sub_args(t, m):
    """substitute Function inputs by arguments (a struct used as a constructor `S(value)` stays what it is)"""
    memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, Term):
            return x
        if x in m:
            return m[x]
        r = memo.get(x)
        if r is None:
            if x.op == 'call' and x.args[0] in m:
                r = mk('call', x.args[0], go(x.args[1]), go(x.args[2]))
            else:
                na = tuple(go(a) for a in x.args)
                r = x if na == x.args else mk(x.op, *na)
            memo[x] = r
        return r
    return go(t)


def number(t):
    """a number written out (so struct(t) is filled with it, not a relabelled vector)"""
    if t.op == 'const':
        return True
    if t.op == 'glob':
        return t.args[0] in ('numpy.inf', 'numpy.nan', 'numpy.pi', 'casadi.inf')
    if t.op in ('prod', 'sum', 'un', 'bin'):
        return all(number(x) for x in walk(t) if x is not t and x.op not in ('prod', 'sum', 'un', 'bin'))
    return False


STRUCTS = {'_x', '_u', '_z', '_p', '_tvp', '_w', '_v', '_y', '_aux', '_p_est', '_p_set', '_eps', '_nl_cons', 'x', 'u', 'z', 'p', 'tvp', 'w', 'v', 'y'}


def key_of(base, key):
    ks = key.args if key.op == 'tuple' else (key,)
    if base.op == 'item' and base.args[1].op == 'tuple':
        return base.args[0], base.args[1].args + tuple(ks)
    return base, tuple(ks)


def fn_def(t):
    """(name, inputs, outputs) when t is casadi.Function(name, [ins], [outs])"""
    if callee(t) == 'casadi.Function' and len(t.args[1]) >= 3 and t.args[1][1].op in ('list', 'tuple') and t.args[1][2].op in ('list', 'tuple'):
        n = t.args[1][0]
        return (n.args[0] if n.op == 'const' else None), t.args[1][1].args, t.args[1][2].args
    return None


POSITIVE = {'collocation_deg', 'collocation_ni', 'n_horizon'}


def positive(n, d):
    """a lower bound of a term, using that horizon and collocation settings are at least 1 (None: unknown)"""
    if _cnum(d) is not None:
        return _cnum(d)
    if d.op == 'attr' and d.args[1] in POSITIVE:
        return 1
    if d.op == 'prod':
        r = Fraction(d.args[0], d.args[1])
        if r < 0:
            return None
        for b, p in d.args[2]:
            q = positive(n, b)
            if q is None or q < 0 or p < 0:
                return None
            r *= q ** p
        return r
    if d.op == 'sum':
        r = Fraction(0)
        for b, p, q in d.args[0]:
            x = positive(n, b)
            if x is None or Fraction(p, q) < 0 and _cnum(b) is None:
                return None
            r += Fraction(p, q) * x
        return r
    return None


class Norm(NF):
    """normal form with index arithmetic, struct access flattening and Function application"""

    def __init__(self, scale=None, xobj=None, reduce=True, induct=None):
        super().__init__(coerce=True, rewrite=self.rule)
        self.sc, self.xobj, self.reduce, self.induct = scale or {}, xobj, reduce, induct or {}
        self.busy = set()
        self.last = {}      # variable -> (number of indices before the last, normal form of its last dimension)
        self.selfun = None  # a Function that only re-arranges its arguments

    def rule(self, t, n):
        o, a = t.op, t.args
        if o == 'arr':
            return t
        if o == 'alloc':
            return self(a[0])
        if o in ('carry', 'after'):
            r = self.closed(t)
            if r is not None:
                return r
        if o == 'item':
            base = a[0]
            ar = arr_ref(t)
            if ar is not None:
                return mk('arr', self(ar[0]), tuple(self(x) for x in ar[1]))
            if base.op == 'call':
                d = fn_def(base.args[0])
                if d and self.reduce and a[1].op == 'const' and isinstance(a[1].args[0], int):
                    r = self.apply(d, base, a[1].args[0])
                    if r is not None:
                        return r
            b, k = self(base), self(a[1])
            if b is X or b is P or b is AUX or (b.op == 'item' and b.args[0] in (X, P, AUX)):
                b, ks = key_of(b, k)
                return self.xitem(b, ks)
            if b.op == 'physx':
                ks = k.args if k.op == 'tuple' else (k,)
                r = self.xitem(X, ks)
                s = self.sc.get(ks[0].args[0] if ks[0].op == 'const' else None)
                return self.mul(r, s) if s is not None else r
            if b.op == 'item' and b.args[1].op == 'tuple' and b.args[0].op in ('ver', 'call', 'sym') and k.op != 'slice':
                b2, ks = key_of(b, k)
                return mk('item', b2, mk('tuple', *ks))
            if k.op not in ('tuple', 'slice', 'const') and b.op in ('ver', 'call'):
                return mk('item', b, mk('tuple', k))
            return mk('item', b, k)
        if o == 'call':
            c = callee(t)
            if c in ('builtins.min', 'builtins.max', 'numpy.minimum', 'numpy.maximum', 'numpy.min', 'numpy.max') and len(a[1]) == 2 and not a[2]:
                x, y = self(a[1][0]), self(a[1][1])
                lo, hi = bounds(self, self.bin('-', x, y))
                h, l = _cnum(hi), _cnum(lo)
                mn = c.endswith('min') or c.endswith('minimum')
                if self.ge(x, y) is TRUE:
                    return y if mn else x
                if self.ge(y, x) is TRUE:
                    return x if mn else y
                if h is not None and h <= 0:
                    return x if mn else y
                if l is not None and l >= 0:
                    return y if mn else x
                xs = sorted((x, y), key=id)
                return mk('call', mk('glob', 'builtins.min' if mn else 'builtins.max'), tuple(xs), ())
            d = fn_def(a[0])
            if d and self.reduce and len(d[2]) == 1:
                r = self.apply(d, t, 0)
                if r is not None:
                    return r
            if a[0].op == 'attr' and a[0].args[1] in STRUCTS and len(a[1]) == 1 and not a[2]:
                v = self(a[1][0])
                if not number(v):
                    return v        # struct(vector): the same vector with labels
            if c in ('casadi.vertcat', 'casadi.veccat') and len(a[1]) == 1 and a[1][0].op == 'star':
                v = self(a[1][0].args[0])
                if v.op == 'item' and v.args[0] is X:
                    k = v.args[1].args
                    if k[0].op == 'const' and self.last.get(k[0].args[0]) == (len(k), ONE):
                        return self(mk('item', X, mk('tuple', *(k + (const(0),)))))
                return mk('vcat', v)
            if (a[0] is X or a[0] is self.xobj) and len(a[1]) == 1:
                v = self(a[1][0])
                if v.op == 'prod' and v.args[:2] == (1, 1) and any(b is X and p == 1 for b, p in v.args[2]) and len(v.args[2]) == 2:
                    return mk('physx', v)
        if o == 'cmp':
            return self.cmp(a[0], self(a[1]), self(a[2]))
        if o == 'not':
            return not_(self(a[0]))
        if o == 'ite':
            c, x, y = self(a[0]), self(a[1]), self(a[2])
            p, neg = (c.args[0], True) if c.op == 'not' else (c, False)
            if p.op == 'ge0' and x.op not in ('ite', 'obj', 'list', 'dict'):
                # x if x > y else y
                for u, w, mx in ((x, y, True), (y, x, False)):
                    d = _cnum(self.bin('-', p.args[0], self.bin('-', u, w)))
                    if d in (0, 1, -1):
                        return self(mk('call', mk('glob', 'builtins.max' if mx != neg else 'builtins.min'), (x, y), ()))
            return ite(c, x, y)
        if o == 'and':
            return conj([self(x) for x in a])
        if o == 'or':
            return disj([self(x) for x in a])
        return None

    def xitem(self, b, ks):
        if b is X and ks[0].op == 'const':
            l = self.last.get(ks[0].args[0])
            if l is not None and l[0] == len(ks) - 1 and l[1] is ONE and ks[-1].op == 'const' and ks[-1].args[0] in (-1, 0):
                ks = ks[:-1] + (const(0),)
        return mk('item', b, mk('tuple', *ks))

    def closed(self, t):
        """closed form of an induction variable (constant step)"""
        lp, name = t.args[0], t.args[1]
        if t.op == 'carry':
            c = self.induct.get((lp, name))
            if not c or len(c) != 1:
                return None
            init, body = next(iter(c))
            count = mk('lv', lp)
        else:
            init, body = t.args[2], t.args[3]
            if lp.args[1].op != 'range':
                return None
            count = lp.args[1].args[1]
        k = (lp, name)
        if k in self.busy:
            return None
        cv = mk('carry', lp, name)
        self.busy.add(k)
        old, self.memo = self.memo, {}
        try:
            # the carry itself is kept symbolic while its own step is computed
            b = self(body)
        finally:
            self.busy.discard(k)
            self.memo = old
        nlp = self(lp)
        cvn = mk('carry', nlp, name)
        if t.op == 'carry' and cv not in (bs := set(walk(b))) and cvn not in bs and not any(x.op == 'after' or x.op == 'lv' and x.args[0] in (lp, nlp) for x in bs) and lp.args[1].op == 'range' and is_const(lp.args[1].args[0], 0):
            # from the second iteration on always the same value
            return ite(self.cmp('==', mk('lv', nlp), const(0)), self(init), b)
        step = self.bin('-', b, cvn)
        sub = set(walk(step))
        if cv in sub or cvn in sub or mk('lv', lp) in sub or mk('lv', nlp) in sub or any(x.op in ('after',) for x in sub):
            return None
        if t.op == 'carry' and step.op == 'const' or True:
            return self.bin('+', self(init), self.mul(self(count), step))

    def apply(self, d, t, j):
        name, ins, outs = d
        pos, kw = t.args[1], t.args[2]
        if kw or len(pos) != len(ins) or j >= len(outs) or any(p.op == 'star' for p in pos):
            return None
        u_ins = [unwrap(i) for i in ins]
        sub = set()
        for x in outs:
            sub |= set(walk(x))
        hit = sum(1 for i in u_ins if i in sub)
        if hit * 2 < len(ins):
            return None
        if any(x.op == 'listx' for x in sub):
            return None
        m = {i: p for i, p in zip(u_ins, pos)}
        return self(sub_args(outs[j], m))

    def mul(self, x, y, e=1):
        r = NF.mul(self, x, y, e)
        if self.selfun and r.op == 'prod':
            fs = [(b, p) for b, p in r.args[2] if b.op == 'call' and b.args[0] in self.selfun]
            if len(fs) > 1 and len({b.args[0] for b, p in fs}) == 1:
                f = fs[0][0].args[0]
                cols = None
                for b, p in fs:
                    cur = [x if p == 1 else mk('prod', 1, 1, ((x, p),)) if x.op != 'prod' else None for x in b.args[1]]
                    if None in cur:
                        return r
                    cols = cur if cols is None else [NF.mul(self, q, w) for q, w in zip(cols, cur)]
                rest = tuple((b, p) for b, p in r.args[2] if (b, p) not in fs)
                c = mk('call', f, tuple(cols), ())
                out = c if not rest else NF.mul(self, c, mk('prod', r.args[0], r.args[1], rest))
                return out
        return r

    def cmp(self, op, x, y):
        if op in ('is', 'is not'):
            op = {'is': '==', 'is not': '!='}[op]
        if op == '!=':
            return not_(self.cmp('==', x, y))
        if op in ('<', '>='):
            r = self.ge(x, y)
            return not_(r) if op == '<' else r
        if op in ('>', '<='):
            r = self.ge(y, x)
            return not_(r) if op == '>' else r
        if op == '==':
            if x.op == 'const' and y.op == 'const':
                return const(x.args[0] == y.args[0])
            d = self.bin('-', x, y) if not any(z.op == 'const' and (z.args[0] is None or isinstance(z.args[0], (str, bool))) for z in (x, y)) else None
            if d is not None:
                if _cnum(d) is not None:
                    return const(_cnum(d) == 0)
                lo, hi = bounds(self, d)
                if (_cnum(lo) is not None and _cnum(lo) > 0) or (_cnum(hi) is not None and _cnum(hi) < 0):
                    return FALSE
                p = self.parts(d)
                first = min(((b, c) for b, c in p.items() if b is not ONE), key=lambda z: id(z[0]))
                return mk('eq0', self.scale(d, 1 / first[1]))
            xs = sorted((x, y), key=id)
            return mk('cmp', '==', *xs)
        return mk('cmp', op, x, y)

    def ge(self, x, y):
        """x >= y"""
        d = self.bin('-', x, y)
        c = _cnum(d)
        if c is not None:
            return const(c >= 0)
        s = positive(self, d)
        if s is not None and s >= 0:
            return TRUE
        s = positive(self, self.scale(d, Fraction(-1)))
        if s is not None and s > 0:
            return FALSE
        if any(b.op == 'lv' for b in self.parts(d)):
            lo, hi = bounds(self, d)
            l, h = _cnum(lo), _cnum(hi)
            if l is not None and l >= 0:
                return TRUE
            if h is not None and h < 0:
                return FALSE
            if h == 0:
                return self.cmp('==', d, const(0))
            if l == -1:
                return not_(self.cmp('==', self.bin('+', d, ONE), const(0)))
        return mk('ge0', d)


class Piece:
    """value added under loops and guards"""
    __slots__ = ('v', 'loops', 'guards', 'coef')

    def __init__(self, v, loops, guards):
        self.v, self.loops, self.guards = v, loops, guards

    def __repr__(self):
        return '%s @%s |%s' % (show(self.v), [show(l) for l in self.loops], [show(g) for g in self.guards])


def pieces(t, n, loops=(), guards=(), carry=()):
    """additive contributions of an accumulated term"""
    if t.op == 'after':
        lp, name, init, body = t.args
        return pieces(init, n, loops, guards, carry) + pieces(body, n, loops + (lp,), guards, carry + ((lp, name),))
    if t.op == 'bin' and t.args[0] == '+':
        return pieces(t.args[1], n, loops, guards, carry) + pieces(t.args[2], n, loops, guards, carry)
    if t.op == 'sumover':
        return pieces(t.args[0], n, loops + t.args[1].args, guards + tuple((n(g), True) for g in t.args[2].args), carry)
    if t.op == 'carry' and (t.args[0], t.args[1]) in carry:
        return []
    if t.op == 'ite':
        c = n(t.args[0])
        a = pieces(t.args[1], n, loops, guards + ((c, True),), carry)
        b = pieces(t.args[2], n, loops, guards + ((c, False),), carry)
        out = []
        nb = list(b)
        for p in a:
            m = None
            for q in nb:
                if q.v is p.v and q.loops == p.loops and set(q.guards) == (set(p.guards) - {(c, True)}) | {(c, False)}:
                    m = q
                    break
            if m is not None:
                nb.remove(m)
                out.append(Piece(p.v, p.loops, tuple(g for g in p.guards if g != (c, True))))
            else:
                out.append(p)
        return out + nb
    if callee(t) in ('builtins.sum', 'casadi.sum1') and len(t.args[1]) == 1:
        x = t.args[1][0]
        if callee(x) in ('casadi.vertcat', 'casadi.veccat') and len(x.args[1]) == 1 and x.args[1][0].op == 'star':
            x = x.args[1][0].args[0]
        es = entries_of(x)
        if es is not None and callee(t) == 'builtins.sum' or es is not None and x is not t.args[1][0]:
            out = []
            for v, ls, gs in es:
                out += pieces(v, n, loops + ls, guards + tuple((n(g), True) for g in gs), carry)
            return out
    v = n(t)
    if _cnum(v) == 0:
        return []
    gs = []
    for c, p in guards:
        while c.op == 'not':
            c, p = c.args[0], not p
        if c.op == 'const':
            if bool(c.args[0]) != p:
                return []
            continue
        if (c, not p) in gs:
            return []
        if (c, p) not in gs:
            gs.append((c, p))
    return [Piece(v, tuple(n(l) for l in loops), tuple(gs))]


def renorm(n, t):
    """rebuild a normal form after a substitution"""
    if not isinstance(t, Term):
        return t
    if t.op == 'prod':
        r = n.scale(ONE, Fraction(t.args[0], t.args[1]))
        for b, p in t.args[2]:
            q = renorm(n, b)
            for _ in range(abs(p)):
                r = NF.mul(n, r, q, 1 if p > 0 else -1)
        return r
    if t.op == 'sum':
        r = const(0)
        for b, p, q in t.args[0]:
            r = n.bin('+', r, n.scale(renorm(n, b), Fraction(p, q)))
        return r
    if t.op in ('sym', 'const', 'glob', 'obj', 'loop', 'lv'):
        return t

    def ch(x):
        if isinstance(x, Term):
            return renorm(n, x)
        if isinstance(x, tuple):
            return tuple(ch(y) for y in x)
        return x
    return mk(t.op, *[ch(x) for x in t.args])


def outside(t):
    """subterms, without the loops they belong to and the bodies of functions"""
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            todo += x
        elif isinstance(x, Term) and x not in seen:
            seen.add(x)
            yield x
            if x.op not in ('lv', 'loop', 'obj', 'sym', 'const', 'glob') and not fn_def(x):
                todo += x.args


def peeled(p, pos, n):
    """first iteration of an inner loop: no loop; the others: a loop that starts later"""
    if pos.op != 'eq0' or pos.args[0].op != 'lv':
        return p
    i = pos.args[0]
    l, r = i.args[0], i.args[0].args[1]
    if r.op != 'range' or l.args[0] == 0 or not is_const(r.args[0], 0) or not is_const(r.args[2], 1) or any(y is i for q in p.loops if q is not l for y in walk(q)):
        return p
    top = n(r.args[1])
    if n.ge(top, ONE) is not TRUE:
        return p
    val = (pos, True) in p.guards
    l2 = mk('loop', l.args[0], mk('range', const(0), n.bin('-', top, ONE), const(1)))
    to = const(0) if val else n.bin('+', mk('lv', l2), ONE)
    f = lambda x: to if x is i else x if x.op == 'lv' else None
    sub = lambda t: renorm(n, subst(t, f))
    return Piece(sub(p.v), tuple(q if q is not l else l2 for q in p.loops if q is not l or not val), tuple((sub(c), b) for c, b in p.guards if c is not pos))


def cases(ps, n, among=None):
    """pieces whose value depends on the position in a loop (first iteration, last iteration), one per case"""
    out, todo = [], list(ps or ())
    lv = {mk('lv', l) for p in among or todo for l in p.loops}
    while todo:
        p = todo.pop(0)
        c = None
        if len(p.guards) < 6:
            for x in outside(p.v):
                if x.op == 'ite' and x.args[0].op in ('eq0', 'ge0', 'not') and any(y in lv for y in walk(x.args[0])):
                    c = x.args[0]
                    break
        if c is None:
            out.append(p)
            continue
        pos, split = c, []
        while pos.op == 'not':
            pos = pos.args[0]
        for val in (True, False):
            if (pos, not val) in p.guards:
                continue
            neg = mk('not', pos)
            memo = {}

            def f(x):
                if x.op == 'lv':
                    return x
                if x.op == 'ite' and x.args[0] in (pos, neg):
                    return subst(x.args[1 if (x.args[0] is pos) == val else 2], f, memo)
                return None
            v = renorm(n, subst(p.v, f, memo))
            if v is p.v:
                split = None
                break
            split.append(Piece(v, p.loops, p.guards if (pos, val) in p.guards else p.guards + ((pos, val),)))
        if split is None:
            out.append(p)
        else:
            todo[:0] = [peeled(q, pos, n) for q in split]
    return out


class NLP:
    def __init__(self, ctx, cls, presets, facts=None, run=None, d=None):
        self.ctx, self.cls, self.presets = ctx, cls, presets
        if run is None:
            run, d = self.from_setup(ctx, cls, presets, facts)
        else:
            self.sev = None
        r = self.run = run
        self.it, self.st = r.it, r.st
        self.dict = d
        self.opt_x, self.opt_p = unwrap(d['x']), unwrap(d['p'])
        self.smemo = {}
        # scaling objects: opt_x(1) with per-variable stores
        sc = {}
        for e in r.events:
            if e.kind == 'setitem' and self.short(e.base).op == 'call' and self.short(e.base).args[0] is X and e.key.op == 'const':
                if _cnum(self.short(e.base).args[1][0]) == 1:
                    sc[e.key.args[0]] = e.value
        n0 = Norm()
        self.scale = {k: n0(v) for k, v in sc.items()}
        self.n = Norm(self.scale, induct=self.it.induct)
        self.layout_x, self.layout_p = self.layout(self.opt_x), self.layout(self.opt_p)
        for v, kw in self.layout_x.items():
            rep = kw.get('repeat')
            if rep is not None and rep.op in ('list', 'tuple'):
                self.n.last[v] = (len(rep.args), self.n(rep.args[-1]))
        self.n.selfun = ctx.selection_functions(cls)
        self.obj = cases(pieces(self.short(d['f']), self.n), self.n)
        self.g = self.consvec(d['g'])
        self.gc = cases(self.g, self.n)

    def from_setup(self, ctx, cls, presets, facts):
        r = ctx.run(cls, 'setup', presets=presets, facts=facts)
        S = [e for e in r.events if e.kind == 'call' and callee(e.result) == 'casadi.nlpsol']
        if len(S) != 1:
            raise NotFound('%s.setup: expected one solver creation call, found %d' % (cls, len(S)))
        self.sev = S[0]
        a = [r.it.freeze(x, r.st) for x in S[0].args]
        d = None
        for x in a:
            if x.op == 'dict':
                d = {k if not isinstance(k, Term) else k.args[0]: v for k, v in x.args[0]}
                if 'x' in d and 'f' in d:
                    break
        if d is None:
            raise NotFound('%s.setup: problem dictionary of the solver not recognised' % cls)
        return r, d

    def setting(self, name):
        s = self.it.load_attr(self.run.self, 'settings', self.st)
        return self.it.freeze(self.it.load_attr(s, name, self.st), self.st)

    def consvec(self, t):
        if callee(t) in ('casadi.vertcat', 'casadi.veccat'):
            es = []
            for x in t.args[1]:
                if x.op == 'star':
                    e = entries_of(x.args[0])
                    if e is None:
                        return None
                    es += e
                else:
                    es.append((x, (), ()))
            es = [(v, ls, self.when(gs)) for v, ls, gs in es]
            return [Piece(self.n(self.short(v)), tuple(self.n(self.short(l)) for l in ls), gs) for v, ls, gs in es if gs is not None]
        return None

    def when(self, gs):
        out = []
        for g in gs:
            c, p = self.n(self.short(g)), True
            while c.op == 'not':
                c, p = c.args[0], not p
            if c.op == 'const':
                if bool(c.args[0]) != p:
                    return None         # never added
            elif (c, p) not in out:
                out.append((c, p))
        return tuple(out)

    def short(self, t):
        def f(x):
            if x is self.opt_x:
                return X
            if x is self.opt_p:
                return P
            return None
        return subst(t, f, self.smemo)

    def layout(self, t):
        """variable name -> keyword arguments of its struct entry"""
        out = {}
        if t.op != 'call' or not t.args[1]:
            return out
        for v, ls, gs in entries_of(t.args[1][0]) or []:
            if callee(v) == 'casadi.entry' and v.args[1] and v.args[1][0].op == 'const':
                out[v.args[1][0].args[0]] = dict(v.args[2])
        return out
