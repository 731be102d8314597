"""Algebraic normal form of value-graph terms.

Sums, products and matrix products are flattened, numeric constants folded, transposition is pushed inwards,
single-element concatenations and vector/array coercions are dropped.  Two terms with the same normal form denote
the same value whatever way the source spells them."""
from fractions import Fraction
from .terms import *

_seq = {}


def _id(t):
    """order of first appearance: only used to sort operands inside one process"""
    return _seq.setdefault(t, len(_seq))


def num(v):
    return const(v)


def _cnum(t):
    if t.op == 'const' and isinstance(t.args[0], (int, float)) and not isinstance(t.args[0], bool):
        v = t.args[0]
        if v != v or v in (float('inf'), float('-inf')):
            return None
        return Fraction(v)
    return None


def _back(fr):
    return const(int(fr)) if fr.denominator == 1 else const(float(fr))


# calls that only change the container of a value, never the value
COERCE = {'casadi.DM', 'casadi.vertcat', 'casadi.veccat', 'numpy.array', 'numpy.asarray', 'numpy.atleast_1d', 'casadi.horzcat', 'numpy.copy',
          'copy.copy', 'copy.deepcopy', 'casadi.densify', 'numpy.atleast_2d', 'casadi.vec'}
COERCE_M = {'full', 'copy', 'toarray', 'flatten', 'ravel'}
COERCE_A = {'cat', 'master'}


def callee(t):
    """dotted name of an external call, or None"""
    if t.op == 'call' and t.args[0].op == 'glob':
        return t.args[0].args[0]
    return None


def method(t):
    """(base, name) of a method call on an opaque value"""
    if t.op == 'call' and t.args[0].op == 'attr':
        return t.args[0].args
    return None


LIMITS = frozenset(('lbx', 'ubx', 'lbg', 'ubg', '_x_lb', '_x_ub', '_u_lb', '_u_ub', '_z_lb', '_z_ub', '_p_est_lb', '_p_est_ub',
                    '_x_terminal_lb', '_x_terminal_ub', '_lb_opt_x', '_ub_opt_x', 'lb_opt_x', 'ub_opt_x', 'nlp_cons_lb', 'nlp_cons_ub',
                    '_nlp_cons_lb', '_nlp_cons_ub', 'cons_lb', 'cons_ub'))


def unbounded(t):
    """limits of variables and constraints may be infinite: they do not cancel"""
    while True:
        if t.op == 'prod':
            return any(unbounded(b) for b, _ in t.args[2])
        if t.op == 'attr' and isinstance(t.args[1], str):
            if t.args[1] in LIMITS:
                return True
            t = t.args[0]
        elif t.op in ('item', 'index'):
            if t.args[1].op == 'const' and t.args[1].args[0] in LIMITS:
                return True
            t = t.args[0]
        else:
            return False


class NF:
    def __init__(self, coerce=True, rewrite=None, cat=False):
        self.coerce, self.rw, self.cat = coerce, rewrite, cat
        self.memo = {}

    def __call__(self, t):
        if isinstance(t, tuple):
            return tuple(self(x) for x in t)
        if not isinstance(t, Term):
            return t
        r = self.memo.get(t)
        if r is None:
            r = self.go(t)
            self.memo[t] = r
        return r

    def go(self, t):
        if self.rw is not None:
            r = self.rw(t, self)
            if r is not None:
                return r
        o, a = t.op, t.args
        if o == 'const' or o == 'sym' or o == 'glob' or o == 'obj':
            if o == 'const' and isinstance(a[0], float) and a[0] == int(a[0] if abs(a[0]) < 1e15 else 0):
                return const(int(a[0]))
            return t
        if o == 'bin':
            op, x, y = a[0], self(a[1]), self(a[2])
            return self.bin(op, x, y)
        if o == 'un':
            x = self(a[1])
            if a[0] == '-':
                return self.scale(x, Fraction(-1))
            if a[0] == '+':
                return x
            return mk('un', a[0], x)
        if o == 'attr' and a[1] == 'T':
            return self.T(self(a[0]))
        if o == 'attr' and self.coerce and a[1] in COERCE_A:
            return self(a[0])
        if o == 'call':
            c = callee(t)
            pos, kw = a[1], a[2]
            if c in ('casadi.mtimes', 'numpy.matmul', 'numpy.dot', 'casadi.mul') and not kw:
                xs = pos
                if len(pos) == 1 and pos[0].op == 'list':
                    xs = pos[0].args
                if len(xs) >= 2:
                    r = self(xs[0])
                    for x in xs[1:]:
                        r = self.bin('@', r, self(x))
                    return r
            if c == 'numpy.eye' and len(pos) == 1 and not kw:
                return self(mk('call', mk('glob', 'numpy.identity'), pos, ()))
            if c in ('numpy.vstack', 'numpy.hstack') and len(pos) == 1 and not kw and pos[0].op in ('list', 'tuple') and not any(x.op == 'star' for x in pos[0].args):
                rows = [mk('list', x) for x in pos[0].args] if c == 'numpy.vstack' else [mk('list', *pos[0].args)]
                return self(mk('call', mk('glob', 'numpy.block'), (mk('list', *rows),), ()))
            if c in ('casadi.transpose', 'numpy.transpose') and len(pos) == 1 and not kw:
                return self.T(self(pos[0]))
            if c in ('numpy.sum', 'casadi.sum1') and False:
                pass
            if c in ('casadi.times', 'numpy.multiply') and len(pos) == 2 and not kw:
                return self.bin('*', self(pos[0]), self(pos[1]))
            if c in ('casadi.rdivide', 'numpy.divide', 'numpy.true_divide') and len(pos) == 2 and not kw:
                return self.bin('/', self(pos[0]), self(pos[1]))
            if c in ('casadi.plus', 'numpy.add') and len(pos) == 2 and not kw:
                return self.bin('+', self(pos[0]), self(pos[1]))
            if c in ('casadi.minus', 'numpy.subtract') and len(pos) == 2 and not kw:
                return self.bin('-', self(pos[0]), self(pos[1]))
            if c in ('numpy.linalg.inv', 'scipy.linalg.inv', 'casadi.inv', 'numpy.linalg.pinv') and len(pos) == 1:
                return mk('inv', self(pos[0]))
            if c in ('numpy.linalg.solve', 'scipy.linalg.solve') and len(pos) == 2 and not kw:
                return self.bin('@', mk('inv', self(pos[0])), self(pos[1]))
            if c == 'casadi.solve' and len(pos) >= 2:
                return self.bin('@', mk('inv', self(pos[0])), self(pos[1]))
            if self.coerce:
                if c in COERCE and len(pos) == 1 and pos[0].op not in ('star', 'list', 'listx'):
                    return self(pos[0])
                if c in ('casadi.reshape', 'numpy.reshape') and len(pos) >= 2:
                    return self(pos[0])
                m = method(t)
                if m and m[1] in COERCE_M and not pos:
                    return self(m[0])
                if m and m[1] == 'transpose' and not pos and not kw:
                    return self.T(self(m[0]))
                if m and m[1] == 'reshape':
                    return self(m[0])
                if m and m[1] == 'dot' and len(pos) == 1:
                    return self.bin('@', self(m[0]), self(pos[0]))
        return mk(o, *[self.child(x) for x in a])

    def child(self, x):
        if isinstance(x, Term):
            return self(x)
        if isinstance(x, tuple):
            return tuple(self.child(y) for y in x)
        return x

    # ---- sums: mk('sum', ((coef, term)...)) ; products: mk('prod', ((base, exp)...))
    def parts(self, t):
        c = _cnum(t)
        if c is not None:
            return {ONE: c} if c else {}
        if t.op == 'sum':
            return {b: Fraction(n, d) for b, n, d in t.args[0]}
        if t.op == 'prod':
            k, rest = self.coef(t)
            return {rest: k}
        return {t: Fraction(1)}

    def coef(self, t):
        """numeric coefficient and the rest of a product"""
        if t.op != 'prod':
            return Fraction(1), t
        k = Fraction(t.args[0], t.args[1])
        fs = t.args[2]
        if len(fs) == 1 and fs[0][1] == 1:
            return k, fs[0][0]
        return k, mk('prod', 1, 1, fs)

    def mksum(self, d):
        d = {b: c for b, c in d.items() if c}
        if not d:
            return const(0)
        if len(d) == 1:
            (b, c), = d.items()
            if b is ONE:
                return _back(c)
            return self.scale(b, c)
        it = sorted(d.items(), key=lambda x: _id(x[0]))
        return mk('sum', tuple((b, c.numerator, c.denominator) for b, c in it))

    def scale(self, t, c):
        if c == 0:
            return const(0)
        n = _cnum(t)
        if n is not None:
            return _back(n * c)
        if t.op == 'sum':
            return self.mksum({b: k * c for b, k in self.parts(t).items()})
        k, rest = self.coef(t)
        k = k * c
        if k == 1:
            return rest
        fs = rest.args[2] if rest.op == 'prod' else ((rest, 1),)
        return mk('prod', k.numerator, k.denominator, fs)

    def mul(self, x, y, e=1):
        n = _cnum(y)
        if n is not None and (e == 1 or n):
            return self.scale(x, n if e == 1 else 1 / n)
        if e == 1:
            n = _cnum(x)
            if n is not None:
                return self.scale(y, n)
        kx, rx = (_cnum(x), None) if _cnum(x) is not None else self.coef(x)
        ky, ry = self.coef(y)
        if kx == 0:
            return const(0)
        f = {}
        for r, s in ((rx, 1), (ry, e)):
            if r is None:
                continue
            for b, p in (r.args[2] if r.op == 'prod' else ((r, 1),)):
                f[b] = f.get(b, 0) + p * s
        k = kx * (ky if e == 1 else 1 / ky)
        f = {b: p for b, p in f.items() if p}
        if not f:
            return _back(k)
        if len(f) == 1 and k == 1:
            (b, p), = f.items()
            if p == 1:
                return b
        return mk('prod', k.numerator, k.denominator, tuple(sorted(f.items(), key=lambda z: _id(z[0]))))

    def bin(self, op, x, y):
        if op in '+-' and len(op) == 1:
            if x.op in ('tuple', 'list', 'listx', 'str') or y.op in ('tuple', 'list', 'listx'):
                return mk('bin', op, x, y)
            if any(z.op == 'const' and isinstance(z.args[0], (str, type(None))) for z in (x, y)):
                return mk('bin', op, x, y)
            d = dict(self.parts(x))
            for b, c in self.parts(y).items():
                d[b] = d.get(b, 0) + (c if op == '+' else -c)
                if not d[b] and unbounded(b):
                    d[mk('nan', b)] = 1     # inf - inf
            return self.mksum(d)
        if op == '*':
            if x.op in ('tuple', 'list', 'listx') or y.op in ('tuple', 'list', 'listx') or any(
                    z.op == 'const' and isinstance(z.args[0], str) for z in (x, y)):
                return mk('bin', op, x, y)
            return self.mul(x, y)
        if op == '/':
            return self.mul(x, y, -1)
        if op == '@':
            k1, x = self.coef(x)
            k2, y = self.coef(y)
            fs = (x.args if x.op == 'mat' else (x,)) + (y.args if y.op == 'mat' else (y,))
            fs = tuple(f for f in fs if not self.is_eye(f)) or fs[:1]
            r = mk('mat', *fs) if len(fs) > 1 else fs[0]
            return self.scale(r, k1 * k2)
        if op == '**':
            n = _cnum(y)
            if n is not None and n.denominator == 1 and 1 <= n <= 8:
                r = x
                for _ in range(int(n) - 1):
                    r = self.mul(r, x)
                return r
            return mk('bin', op, x, y)
        return mk('bin', op, x, y)

    @staticmethod
    def is_eye(t):
        return callee(t) in ('numpy.eye', 'numpy.identity', 'casadi.DM.eye')

    def T(self, t):
        if t.op == 'const':
            return t
        if t.op == 'T':
            return t.args[0]
        if t.op == 'sum':
            return self.mksum({(b if b is ONE else self.T(b)): c for b, c in self.parts(t).items()})
        k, rest = self.coef(t)
        if rest.op == 'mat':
            r = mk('mat', *[self.T(f) for f in reversed(rest.args)])
        elif self.is_eye(rest):
            r = rest
        elif rest.op == 'prod':
            r = mk('prod', 1, 1, tuple(sorted(((self.T(b), p) for b, p in rest.args[2]), key=lambda z: _id(z[0]))))
        else:
            r = mk('T', rest)
        return self.scale(r, k)


ONE = const(1)
nf = NF()


def eq(a, b, n=None):
    n = n or nf
    return n(a) is n(b)


def affine_sub(a, b):
    """a-b folded, as a plain term usable inside ranges"""
    n = NF(coerce=False)
    return denorm(n.bin('-', n(a), n(b)))


def denorm(t):
    """normal form back to 'bin' terms (linear part only)"""
    if t.op == 'sum':
        r = None
        c0 = None
        for b, p, q in t.args[0]:
            if b is ONE:
                c0 = Fraction(p, q)
                continue
            x = denorm(b)
            c = Fraction(p, q)
            if r is None:
                r = x if c == 1 else mk('bin', '*', _back(c), x)
            elif c == 1:
                r = mk('bin', '+', r, x)
            elif c == -1:
                r = mk('bin', '-', r, x)
            else:
                r = mk('bin', '+', r, mk('bin', '*', _back(c), x))
        if c0 is not None and c0:
            r = mk('bin', '+' if c0 > 0 else '-', r, _back(abs(c0)))
        return r
    if t.op == 'prod':
        r = None
        k = Fraction(t.args[0], t.args[1])
        for b, p in t.args[2]:
            if p == 1:
                r = denorm(b) if r is None else mk('bin', '*', r, denorm(b))
            elif p > 0:
                for _ in range(p):
                    r = denorm(b) if r is None else mk('bin', '*', r, denorm(b))
        for b, p in t.args[2]:
            if p < 0:
                for _ in range(-p):
                    r = mk('bin', '/', r if r is not None else ONE, denorm(b))
        return r if k == 1 else mk('bin', '*', _back(k), r)
    if t.op in ('mat',):
        r = denorm(t.args[0])
        for x in t.args[1:]:
            r = mk('bin', '@', r, denorm(x))
        return r
    if t.op == 'T':
        return mk('attr', denorm(t.args[0]), 'T')

    def go(x):
        if isinstance(x, Term):
            return denorm(x)
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        return x
    return mk(t.op, *[go(x) for x in t.args])
