"""Hash-consed terms of the gated value graph."""


class Term:
    __slots__ = ('op', 'args', 'hash')

    def __repr__(self):
        return show(self)


_table = {}


def mk(op, *args):
    key = (op,) + tuple((type(a).__name__, a) if isinstance(a, (bool, int, float, str)) else a for a in args)
    t = _table.get(key)
    if t is None:
        t = Term()
        t.op, t.args, t.hash = op, args, hash(key)
        _table[key] = t
    return t


def const(v):
    return mk('const', v)


NONE, TRUE, FALSE = const(None), const(True), const(False)
UNDEF = mk('undef')


def is_const(t, *vals):
    if t.op != 'const':
        return False
    return not vals or any(type(t.args[0]) is type(v) and t.args[0] == v for v in vals)


def cval(t, default=None):
    return t.args[0] if t.op == 'const' else default


def children(t):
    for a in t.args:
        if isinstance(a, Term):
            yield a
        elif isinstance(a, tuple):
            for b in a:
                if isinstance(b, Term):
                    yield b
                elif isinstance(b, tuple):
                    for c in b:
                        if isinstance(c, Term):
                            yield c
                        elif isinstance(c, tuple):
                            for d in c:
                                if isinstance(d, Term):
                                    yield d


def walk(t, seen=None):
    """every distinct sub-term"""
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        stack.extend(children(x))


def subst(t, f, memo=None):
    """rebuild bottom-up, f(term)->term or None"""
    if memo is None:
        memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, Term):
            return x
        if x in memo:
            return memo[x]
        r = f(x)
        if r is None:
            na = tuple(go(a) for a in x.args)
            r = x if na == x.args else mk(x.op, *na)
            r2 = f(r) if r is not x else None
            if r2 is not None:
                r = r2
        memo[x] = r
        return r
    return go(t)


def show(t, d=0):
    if isinstance(t, tuple):
        return '(' + ', '.join(show(x, d) for x in t) + ')'
    if not isinstance(t, Term):
        n = getattr(t, 'qual', None)
        return n or repr(t)
    if d > 14:
        return '...'
    o, a = t.op, t.args
    s = lambda x: show(x, d + 1)
    if o == 'const':
        return repr(a[0])
    if o == 'sym':
        return '$' + a[0]
    if o == 'obj':
        return '<%s>' % a[0]
    if o == 'attr':
        return '%s.%s' % (s(a[0]), a[1])
    if o == 'item':
        return '%s[%s]' % (s(a[0]), s(a[1]))
    if o == 'tuple':
        return '(' + ', '.join(s(x) for x in a) + ')'
    if o == 'list':
        return '[' + ', '.join(s(x) for x in a) + ']'
    if o == 'glob':
        return a[0]
    if o == 'call':
        return '%s(%s)' % (s(a[0]), ', '.join([s(x) for x in a[1]] + ['%s=%s' % (k, s(v)) for k, v in a[2]]))
    if o == 'bin':
        return '(%s %s %s)' % (s(a[1]), a[0], s(a[2]))
    if o == 'cmp':
        return '(%s %s %s)' % (s(a[1]), a[0], s(a[2]))
    if o == 'not':
        return 'not ' + s(a[0])
    if o == 'ite':
        return 'ite(%s ? %s : %s)' % (s(a[0]), s(a[1]), s(a[2]))
    if o == 'lv':
        return 'i%d{%s}' % (a[0].args[0], s(a[0].args[1]))
    if o == 'slice':
        return ':'.join('' if is_const(x, None) else s(x) for x in a)
    if o in ('func', 'class', 'bound'):
        return '%s:%s' % (o, ','.join(s(x) for x in a))
    return '%s{%s}' % (o, ', '.join(s(x) for x in a))


def not_(c):
    if c.op == 'not':
        return c.args[0]
    if c.op == 'const':
        return const(not c.args[0])
    return mk('not', c)


def ite(c, a, b):
    if a is b:
        return a
    if c.op == 'const':
        return a if c.args[0] else b
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return not_(c)
    return mk('ite', c, a, b)


def conj(cs):
    out = []
    for c in cs:
        if c.op == 'and':
            xs = c.args
        else:
            xs = (c,)
        for x in xs:
            if x is TRUE:
                continue
            if x is FALSE:
                return FALSE
            if x not in out:
                out.append(x)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk('and', *out)


def disj(cs):
    out = []
    for c in cs:
        if c.op == 'or':
            xs = c.args
        else:
            xs = (c,)
        for x in xs:
            if x is FALSE:
                continue
            if x is TRUE:
                return TRUE
            if x not in out:
                out.append(x)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return mk('or', *out)
