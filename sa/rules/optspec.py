"""Shared view of the two optimisation problems (MPC, MHE): configurations, canonical pieces, expected pieces."""
import itertools
from ..nlp import *

HASP = mk('hasattr', mk('obj', 'self'), const('p_fun'))
HAST = mk('hasattr', mk('obj', 'self'), const('tvp_fun'))
SETCLS = {'controller.MPC': 'MPCSettings', 'estimator.MHE': 'MHESettings'}


def configs(cls, tier, **fix):
    dims = {'model_type': ['discrete', 'continuous'], 'nl_cons_single_slack': [False, True], 'nl_cons_check_colloc_points': [False, True]}
    if cls.endswith('MPC'):
        dims['open_loop'] = [False, True]
        dims['rterm'] = [False, True]
    for k, v in fix.items():
        dims[k] = [v]
    names = list(dims)
    allc = [dict(zip(names, c)) for c in itertools.product(*dims.values())]
    if tier == 'thorough':
        return allc
    # quick: every single value of every dimension and every pair with the model type
    out, seen = [], set()
    for c in allc:
        pairs = {(a, c[a], b, c[b]) for a in c for b in c if a < b}
        if pairs - seen:
            out.append(c)
            seen |= pairs
    return out


def view(ctx, cls, cfg):
    key = ('nlpview', cls, tuple(sorted(cfg.items())))
    if key in ctx.cache2:
        return ctx.cache2[key]
    S = SETCLS[cls]
    ps = {(S, 'state_discretization'): 'collocation', (S, 'collocation_type'): 'radau', (S, 'cons_check_colloc_points'): cfg.get('cons_check_colloc_points', True),
          (S, 'use_terminal_bounds'): True}
    for k, v in cfg.items():
        if k == 'model_type':
            ps[('Model', 'model_type')] = v
        elif k != 'rterm':
            ps[(S, k)] = v
    facts = {HASP: True, HAST: True}
    if 'rterm' in cfg:
        facts[mk('item', mk('attr', mk('obj', 'self'), 'flags'), const('rterm_fun'))] = cfg['rterm']
    v = NLP(ctx, cls, ps, facts)
    v.cfg = cfg
    v.facts = facts
    v.N = v.n(v.setting('n_horizon'))
    ctx.cache2[key] = v
    return v


def cfgname(cfg):
    sh = {'nl_cons_single_slack': 'single_slack', 'nl_cons_check_colloc_points': 'nl_colloc', 'cons_check_colloc_points': 'bnd_colloc'}
    return ','.join([cfg['model_type']] + [('' if v else 'no_') + sh.get(k, k) for k, v in sorted(cfg.items()) if k != 'model_type'])


# ------------------------------------------------------------ term builders
def T(*xs):
    return mk('tuple', *[x if isinstance(x, Term) else const(x) for x in xs])


class B:
    """builders in the normal form of one NLP view"""

    def __init__(self, v):
        self.v, self.n = v, v.n
        self.self = mk('obj', 'self')
        self.model = mk('obj', 'self.model')

    def x(self, *k):
        return self.n(mk('item', X, T(*k)))

    def p(self, *k):
        return self.n(mk('item', P, T(*k)))

    def scaling(self, var):
        return self.n(mk('attr', self.self, var + '_scaling'))

    def ph(self, var, *k):
        """physical value of a decision variable"""
        t = self.x(var, *k)
        if var in ('_x', '_u', '_z', '_p_est'):
            return self.n.mul(t, self.scaling(var))
        return t

    def add(self, a, b):
        return self.n.bin('+', self.t(a), self.t(b))

    def add(self, a, b):
        return self.n.bin('+', self.t(a), self.t(b))

    def sub(self, a, b):
        return self.n.bin('-', self.t(a), self.t(b))

    def div(self, a, b):
        return self.n.bin('/', self.t(a), self.t(b))

    def mul(self, a, b):
        return self.n.bin('*', self.t(a), self.t(b))

    def t(self, a):
        return a if isinstance(a, Term) else const(a)

    def mfun(self, name, *args):
        return mk('call', mk('attr', self.model, name), tuple(args), ())

    def sfun(self, name, *args):
        return mk('call', mk('attr', self.self, name), tuple(args), ())

    def attr(self, name):
        return mk('attr', self.self, name)

    def ite(self, c, a, b):
        return ite(self.n(c), self.t(a), self.t(b))


def heads(t):
    """what functions a piece applies (for matching actual with expected)"""
    out = set()
    for x in walk(t):
        if x.op == 'call':
            f = x.args[0]
            if f.op == 'attr':
                out.add(f.args[1])
            elif fn_def(f):
                out.add(fn_def(f)[0])
        elif x.op == 'item' and x.args[0] is X and x.args[1].args[0].op == 'const':
            pass
    return out


UNKNOWN = {'unk', 'undef', 'lambda', 'while'}
KNOWN_EXT = ('casadi.', 'numpy.', 'builtins.min', 'builtins.max', 'builtins.sum', 'builtins.len', 'builtins.range', 'builtins.abs', 'builtins.int', 'builtins.float')


def opaque(t):
    """does the term contain constructs the normal form cannot decide?"""
    for x in walk(t):
        if x.op in UNKNOWN or x.op in ('carry', 'after'):
            return x
        c = callee(x)
        if c and not c.startswith(KNOWN_EXT):
            return x
    return None
