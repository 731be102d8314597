"""C03 constraints and limits, C04 objective: the problem handed to the solver compared with a reference formulation."""
from . import prop
from .optspec import *
from ..nlp import renorm, cases
from .nlp_rules import lab, subst_n, CLS
from .. import spec
from ..alg import _id

REF = {'controller.MPC': 'mpc_problem', 'estimator.MHE': 'mhe_problem'}


def refview(ctx, cls, cfg):
    key = ('nlpref', cls, tuple(sorted(cfg.items())))
    if key in ctx.cache2:
        return ctx.cache2[key]
    v = view(ctx, cls, cfg)
    run = spec.spec_run(ctx, 'problem', REF[cls], cls=cls, presets=v.presets, facts=v.facts)
    d = {k.args[0] if isinstance(k, Term) else k: x for k, x in run.ret.args[0]}
    w = NLP(ctx, cls, v.presets, run=run, d=d)
    w.N, w.cfg = v.N, cfg
    ctx.cache2[key] = w
    return w


def canon(v, p):
    """(value, loops, guards) with loop variables fixed by a guard replaced by their value"""
    n, val = v.n, p.v
    for g, pos in p.guards:
        if pos and g.op == 'eq0':
            for b, c in n.parts(g.args[0]).items():
                if b.op == 'lv' and abs(c) == 1:
                    rest = n.bin('-', n.scale(g.args[0], 1 / c), b)
                    val = subst_n(n, val, b, n.scale(rest, Fraction(-1)))
                    break
    return (val, p.loops, tuple(sorted(p.guards, key=lambda g: _id(g[0]))))


def neg(v, k):
    return (v.n.scale(k[0], Fraction(-1)),) + k[1:]


def text(v, k):
    return lab(v, k[0]) + (' for ' + ', '.join(show(l) for l in k[1]) if k[1] else '') + (' if ' + ', '.join(('' if p else 'not ') + show(g) for g, p in k[2]) if k[2] else '')


KINDS = ['nl_cons_fun', 'ifcn', 'epsterm', 'epsterm_fun', 'rterm_fun', 'mterm_fun', 'lterm_fun', 'arrival_cost_fun', 'stage_cost_fun', '_meas_fun', '_rhs_fun', '_alg_fun']


def name_of(v, k):
    """what a constraint is, for keys"""
    hs = heads(k[0])
    t = k[0]
    nm = next((h for h in KINDS if h in hs), None) or '+'.join(sorted(h for h in hs if isinstance(h, str))[:3]) or 'linear'
    if t.op == 'sum':
        nm += ' (difference)'
    return nm


def missing_names(ctx, t):
    """attribute names used by the reference that do not occur anywhere in the analysed sources"""
    ns = ctx.cache2.get('names')
    if ns is None:
        import ast
        ns = set()
        for m in ctx.p.mods.values():
            for x in ast.walk(m.tree):
                if isinstance(x, ast.Attribute):
                    ns.add(x.attr)
                elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                    ns.add(x.name)
                elif isinstance(x, ast.Constant) and isinstance(x.value, str):
                    ns.add(x.value)
        ctx.cache2['names'] = ns
    return {x.args[1] for x in walk(t) if x.op == 'attr' and isinstance(x.args[1], str) and x.args[0].op == 'obj' and x.args[1] not in ns}


def match(ctx, R, v, w, key, got, want, loc, sign=False, dup=False):
    gk = [canon(v, p) for p in got]
    wk = [canon(w, p) for p in want]
    used = set()
    for i, k in enumerate(wk):
        nm = '%s:%s' % (key, name_of(w, k))
        m = [j for j, g in enumerate(gk) if (g == k or sign and g == neg(w, k)) and (dup or j not in used)]
        if m:
            used |= set(m) if dup else {m[0]}
            R.ok(nm, loc, text(w, k))
            continue
        gone = missing_names(ctx, k[0])
        near = [g for j, g in enumerate(gk) if j not in used and g not in wk and name_of(v, g) == name_of(w, k)]
        if gone:
            R.unk(nm, loc, 'the reference uses %s, no longer present' % sorted(gone))
        elif any(opaque(g[0]) is not None for j, g in enumerate(gk) if j not in used):
            R.unk(nm, loc, 'some terms of the problem are not decided')
        elif near:
            R.bad(nm, loc, 'got %s, expected %s' % tuple(spec.diff(mk('t', *flat(near[0])), mk('t', *flat(k)))))
        else:
            R.bad(nm, loc, 'missing: %s' % text(w, k))
    for j, g in enumerate(gk):
        if j in used or g in wk and dup:
            continue
        nm = '%s:unexpected %s' % (key, name_of(v, g))
        if opaque(g[0]) is not None:
            R.unk(nm, loc, text(v, g))
        elif dup and repeats(g, gk):
            R.ok(nm + ' (repeats another row)', loc, text(v, g))
        elif any(R.obl.get('%s:%s:%s' % (R.rule, key, name_of(w, k)), ('',))[0] == 'violation' for k in wk if name_of(w, k) == name_of(v, g)):
            continue
        elif any(R.obl.get('%s:%s:%s' % (R.rule, key, name_of(w, k)), ('',))[0] == 'undecided' for k in wk):
            R.unk(nm, loc, text(v, g))
        else:
            R.bad(nm, loc, 'not allowed by the property: %s' % text(v, g))


def flat(k):
    return [k[0], mk('tuple', *k[1]), mk('tuple', *[g if p else not_(g) for g, p in k[2]])]


def repeats(g, gk):
    """a row that only repeats the last iteration of another row (same function, loops added)"""
    for h in gk:
        if h is not g and h[0] is g[0] and set(g[1]) <= set(h[1]):
            return True
    return False


def constraints(ctx, R, tier):
    R.use('constraints', 'every promised constraint of every stage, branch and configuration is in the problem, and nothing else; limits sit in the same position')
    for cls in CLS:
        for cfg in configs(cls, tier, **({'rterm': False} if cls.endswith('MPC') else {})):
            v, w = view(ctx, cls, cfg), refview(ctx, cls, cfg)
            nm = '%s[%s]' % (cls.split('.')[1], cfgname(cfg))
            loc = v.sev.loc
            if v.g is None:
                R.unk(nm, loc, 'constraint vector not recognised')
                continue
            match(ctx, R, v, w, nm, v.gc, w.gc, loc, sign=True, dup=True)
            limits(ctx, R, v, w, nm, loc)


def limits(ctx, R, v, w, nm, loc):
    """lower and upper limit of each row, position by position"""
    lims = {}
    for side, at in (('lower', '_nlp_cons_lb'), ('upper', '_nlp_cons_ub')):
        lims[side] = v.consvec(v.short(v.run.attr(at)))
        if lims[side] is None:
            R.unk('%s:%s limits' % (nm, side), loc, 'limit vector not recognised')
            return
    ref = {}
    for side, at in (('lower', 'lb'), ('upper', 'ub')):
        ref[side] = w.consvec(w.short(w.dict[at]))
    wk = [(canon(w, q), i) for i, p in enumerate(w.g) for q in cases([p], w.n, w.g)]
    for side in ('lower', 'upper'):
        ls = lims[side]
        if len(ls) != len(v.g):
            R.bad('%s:%s limits' % (nm, side), loc, '%d blocks of limits for %d blocks of constraints' % (len(ls), len(v.g)))
            continue
        for g, l in zip(v.g, ls):
          for c in [canon(v, q) for q in cases([g], v.n, v.g)]:
            key = '%s:%s limit of %s' % (nm, side, name_of(v, c))
            if (g.loops, g.guards) != (l.loops, l.guards):
                R.bad(key, loc, 'limits are added under other loops or conditions than the constraint')
                continue
            j = next((i for k, i in wk if k == c or k == neg(w, c)), None)
            if j is None:
                j = next((i for k, i in wk if k[0] is c[0]), None)
            if j is None:
                R.unk(key, loc, 'constraint not in the reference')
                continue
            want = ref[side][j].v
            if l.v is want or zero(want) and zero(l.v):
                R.ok(key, loc, show(l.v)[:100])
            elif opaque(l.v) is not None or zero(want) and zero(l.v) is None:
                R.unk(key, loc, lab(v, l.v))
            else:
                R.bad(key, loc, 'got %s, expected %s' % spec.diff(l.v, want))


def zero(t):
    if callee(t) in ('numpy.zeros', 'casadi.DM.zeros', 'casadi.DM', 'numpy.zeros_like'):
        return True
    if t.op == 'const':
        return t.args[0] == 0
    if t.op == 'prod' or callee(t) in ('numpy.ones', 'casadi.DM.ones', 'numpy.full'):
        return False
    if callee(t) in ('numpy.full',) and len(t.args[1]) > 1:
        return zero(t.args[1][1])
    return None if opaque(t) is not None else False


def layout(ctx, R, tier):
    R.use('variables', 'decision variables and parameters of the problem: one entry per declared quantity, stage, branch and point')
    for cls in CLS:
        for cfg in configs(cls, tier, **({'rterm': False} if cls.endswith('MPC') else {})):
            v, w = view(ctx, cls, cfg), refview(ctx, cls, cfg)
            nm = '%s[%s]' % (cls.split('.')[1], cfgname(cfg))
            for what, a, b in (('x', v.layout_x, w.layout_x), ('p', v.layout_p, w.layout_p)):
                for q in sorted(set(a) | set(b)):
                    key = '%s:%s[%s]' % (nm, what, q)
                    if q not in a:
                        R.bad(key, v.sev.loc, 'missing in the problem') if a else R.unk(key, v.sev.loc, 'layout not recognised')
                        continue
                    if q not in b:
                        R.unk(key, v.sev.loc, 'additional entry')
                        continue
                    for f in ('repeat', 'struct'):
                        x, y = a[q].get(f), b[q].get(f)
                        x, y = rep(v.n, x), rep(w.n, y)
                        if x is y:
                            R.ok(key + '.' + f, v.sev.loc, show(x)[:120])
                        elif x is None or y is None or opaque(x) is not None or x.op not in ('list', 'sum', 'const', 'attr', 'obj', 'call'):
                            R.unk(key + '.' + f, v.sev.loc, 'got %s' % (x,))
                        else:
                            R.bad(key + '.' + f, v.sev.loc, 'got %s expected %s' % (lab(v, x), lab(v, y)))


def rep(n, x):
    if x is None:
        return None
    if x.op in ('list', 'tuple'):
        xs = [n(y) for y in x.args]
        return xs[0] if len(xs) == 1 else mk('list', *xs)
    return n(x)


@prop('C03', 'The constraint vector and limits handed to the solver, for every configuration, compared with a reference formulation of both problems.', floor=60)
def c03(ctx, R, tier):
    constraints(ctx, R, tier)
    layout(ctx, R, tier)


@prop('C04', 'The objective handed to the solver, split into its additive terms with loops and conditions, compared with a reference formulation.', floor=40)
def c04(ctx, R, tier):
    R.use('objective', 'every promised cost term is in the objective exactly once with its weight, and nothing else')
    for cls in CLS:
        for cfg in configs(cls, tier):
            v, w = view(ctx, cls, cfg), refview(ctx, cls, cfg)
            nm = '%s[%s]' % (cls.split('.')[1], cfgname(cfg))
            match(ctx, R, v, w, nm, v.obj, w.obj, v.sev.loc)
