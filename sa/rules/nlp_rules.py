"""C01 units, C02 stage agreement, C03 constraints, C04 objective: obligations on the built optimisation problem."""
from . import prop
from .optspec import *
from ..nlp import renorm, cases

CLS = ('controller.MPC', 'estimator.MHE')


def role_of(t):
    """role of a Function input (symbolic struct)"""
    t = unwrap(t)
    while t.op == 'call' and callee(t) in ('copy.copy', 'copy.deepcopy'):
        t = t.args[1][0]
    if t.op == 'attr':
        return t.args[1].lstrip('_')
    if t.op == 'call' and method(t) and method(t)[1] == 'sym_struct':
        if 'slack' in show(t):
            return 'eps'
        names = {x.args[1] for x in walk(t) if x.op == 'attr' and x.args[0].op == 'obj' and x.args[1] in STRUCTS}
        return names.pop().lstrip('_') if len(names) == 1 else 'struct'
    if t.op == 'call' and method(t) and method(t)[1] == 'sym' and t.args[1]:
        n = t.args[1][1] if len(t.args[1]) > 1 else None
        if n is not None:
            names = [x.args[1] for x in walk(n) if x.op == 'attr' and x.args[1].startswith('n_')]
            for q in ('n_x', 'n_u', 'n_z', 'n_tvp', 'n_p', 'n_w'):
                if q in names:
                    return q[2:] + ('_col' if n.op != 'attr' else '')
    if t.op == 'ite':
        return role_of(t.args[1])
    return None


def fun_roles(ctx, cls, fterm):
    """input roles of a called Function: from the Function itself or from where the attribute is defined"""
    d = fn_def(fterm)
    if d:
        return [role_of(i) for i in d[1]], d[0]
    if fterm.op == 'attr':
        owner = fterm.args[0]
        c = cls
        if owner is mk('obj', 'self.model'):
            c = 'model.Model'
        rs = []
        for val, loc in ctx.defs(c).get(fterm.args[1], []):
            d = fn_def(val)
            if d:
                rs.append(tuple(role_of(i) for i in d[1]))
        if rs and len(set(rs)) == 1:
            return list(rs[0]), fterm.args[1]
        if rs:
            return None, fterm.args[1]
    return None, fterm.args[1] if fterm.op == 'attr' else None


def walk_top(t):
    """subterms outside the bodies of Function definitions"""
    seen, todo, out = set(), [t], []
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            todo += reversed(x)
        elif isinstance(x, Term) and x not in seen:
            seen.add(x)
            out.append(x)
            if fn_def(x) or x.op in ('lv', 'loop'):
                continue
            todo += reversed(x.args)
    return out


def find_calls(t, pred):
    return [x for x in walk_top(t) if x.op == 'call' and pred(x)]


def free_loops(pc):
    """loops whose element occurs in a piece outside of that loop (value of the last iteration)"""
    return [x.args[0] for x in walk_top(pc.v) if x.op == 'lv' and x.args[0] not in pc.loops]


class Shape:
    """the loops and tree indices used by the dynamics of one problem"""

    def __init__(self, v):
        self.v, n = v, v.n
        self.mpc = v.cls.endswith('MPC')
        self.b = B(v)
        self.ok = False
        self.dyn = None
        self.nxt = None
        for pc in v.g or []:
            # continuity: something minus the end state of the next stage
            d = n.parts(pc.v)
            xs = [(b, c) for b, c in d.items() if b.op == 'item' and b.args[0] is X and b.args[1].args[0] is const('_x')]
            if pc.loops and xs and len(d) == 2:
                self.dyn, self.nxt = pc, xs[0][0]
                self.rest = [b for b in d if b is not self.nxt][0]
                break
        if self.dyn is None:
            return
        zs = v.n.last.get('_z')
        self.points = zs[1] if zs else None
        self.loops = self.dyn.loops
        self.lv = [mk('lv', l) for l in self.loops]
        self.k = self.lv[0]
        need = 3 if self.mpc else 1
        if len(self.loops) != need:
            return
        self.ok = True
        self.s = self.lv[1] if self.mpc else None
        self.br = self.lv[2] if self.mpc else None
        self.child = self.nxt.args[1].args[2] if self.mpc and len(self.nxt.args[1].args) > 3 else None
        self.su = (const(0) if v.cfg.get('open_loop') else self.s) if self.mpc else None
        self.k1 = n.bin('+', self.k, ONE)
        # parameter scenario used by the dynamics
        self.cur = None
        for x in walk(self.rest):
            if x.op == 'item' and x.args[0] is P and x.args[1].args[0] is const('_p') and len(x.args[1].args) == 2:
                self.cur = x.args[1].args[1]

    # expected physical/scaled terms -------------------------------------
    def X(self, var, k, *i, child=False, scaled=False):
        b = self.b
        if self.mpc:
            sc = self.child if child else (self.su if var == '_u' else self.s)
            key = (k, sc) + i
        else:
            key = (k,) + i
        return b.x(var, *key) if scaled else b.ph(var, *key)

    def p_phys(self):
        b = self.b
        if self.mpc:
            return [b.p('_p', self.cur)]
        f = sorted(self.v.n.selfun or [], key=id)
        return [mk('call', fn, (b.ph('_p_est'), b.p('_p_set')), ()) for fn in f]


def strip_scale(n, t):
    """forget scaling factors (keeps only which quantity of which stage is meant)"""
    def f(x):
        if x.op == 'attr' and isinstance(x.args[1], str) and x.args[1].endswith('_scaling'):
            return ONE
        return None
    return renorm(n, subst(t, f))


def judge(R1, R2, v, key, got, want, loc):
    """want: acceptable normal forms.  R1: unit obligation, R2: stage obligation (either may be None)"""
    n = v.n
    full = any(got is w for w in want)
    bare = full or any(strip_scale(n, got) is strip_scale(n, w) for w in want)
    o = opaque(got)
    t = 'got %s, expected %s' % (lab(v, got), ' or '.join(lab(v, w) for w in want))
    if R2 is not None:
        if bare:
            R2.ok(key, loc, lab(v, got))
        elif o is not None:
            R2.unk(key, loc, t)
        else:
            R2.bad(key, loc, t)
    if R1 is not None and bare:
        if full:
            R1.ok(key, loc, lab(v, got))
        else:
            R1.bad(key, loc, t)


def lab(v, t):
    def f(x):
        if x is v.N:
            return mk('sym', 'N')
        if x.op == 'lv' and x.args[0].op == 'loop':
            return mk('sym', 'ksbi?????'[min(x.args[0].args[0], 8)])
        if x.op == 'call' and fn_def(x):
            return mk('sym', 'F_' + str(fn_def(x)[0]))
        if x.op == 'arr':
            r = mk('item', mk('sym', 'tree'), mk('tuple', *x.args[1]))
            return subst(r, f)
        if x.op == 'sum':
            r = None
            for b, p, q in x.args[0]:
                y = subst(b, f)
                c = Fraction(p, q)
                if c != 1:
                    y = mk('bin', '*', const(float(c)), y) if c != -1 else mk('un', '-', y)
                r = y if r is None else mk('bin', '+', r, y)
            return r
        if x.op == 'prod':
            r = None
            if (x.args[0], x.args[1]) != (1, 1):
                r = const(x.args[0] / x.args[1])
            for b, p in x.args[2]:
                y = subst(b, f)
                if p != 1:
                    y = mk('bin', '**', y, const(p))
                r = y if r is None else mk('bin', '*', r, y)
            return r
        return None
    return show(subst(t, f))


def locate(v, name):
    for e in v.run.events:
        if e.kind == 'call' and e.result is not None and e.result.op == 'call':
            f = e.result.args[0]
            if (f.op == 'attr' and f.args[1] == name) or (fn_def(f) and fn_def(f)[0] == name):
                return e.loc
    return v.sev.loc


def expected_args(sh, fname):
    """role -> acceptable physical terms for the functions of the problem"""
    b, k = sh.b, sh.k
    z0 = [sh.X('_z', k, 0, child=sh.mpc), sh.X('_z', k, -1, child=sh.mpc)]
    e = {'x': [sh.X('_x', k, -1)], 'u': [sh.X('_u', k)], 'z': z0, 'tvp': [b.p('_tvp', k)], 'p': sh.p_phys()}
    if not sh.mpc:
        e.update({'w': [b.x('_w', k)], 'v': [b.x('_v', k)], 'p_est': [b.ph('_p_est')], 'p_set': [b.p('_p_set')]})
    else:
        e.update({'w': [b.mfun('_w', const(0))]})
    eps = mk('call', mk('glob', 'builtins.min'), (k, b.sub(n_eps(sh), 1)), ())
    e['eps'] = [sh.v.n(sh.b.x('_eps', sh.v.n(eps), sh.s) if sh.mpc else sh.b.x('_eps', sh.v.n(eps)))]
    return e


def n_eps(sh):
    return ONE if sh.v.cfg['nl_cons_single_slack'] else sh.v.N


def call_obl(ctx, R1, R2, sh, key, call, want):
    """obligations for each argument of one function application"""
    v = sh.v
    roles, name = fun_roles(ctx, v.cls, call.args[0])
    loc = locate(v, name)
    R = R1 or R2
    if roles is None or len(roles) != len(call.args[1]):
        R.unk('%s:signature' % key, loc, 'signature of %s not resolved' % name)
        return
    for r, a in zip(roles, call.args[1]):
        if r in want:
            judge(R1, R2, v, '%s:%s(%s)' % (key, name, r), a, want[r], loc)
        else:
            R.unk('%s:%s(%s)' % (key, name, r), loc, 'no expectation for input role %s' % r)


def model_calls(sh):
    """every application of a model function inside the constraints and objective of the problem"""
    seen = []
    for pc in list(sh.v.gc or []) + list(sh.v.obj):
        for c in find_calls(pc.v, lambda x: x.args[0].op == 'attr' and x.args[0].args[0] is sh.b.model and x.args[0].args[1].endswith('_fun')):
            if c not in seen:
                seen.append(c)
    return seen


def stage_rules(ctx, R1, R2, tier):
    """all function applications of the problem take the quantities of one stage, in physical units"""
    for cls in CLS:
        for cfg in configs(cls, tier):
            v = view(ctx, cls, cfg)
            sh = Shape(v)
            nm = '%s[%s]' % (cls.split('.')[1], cfgname(cfg))
            R = R2 or R1
            if not sh.ok:
                R.unk(nm + ':dynamics', v.sev.loc, 'dynamics constraint not recognised')
                continue
            want = expected_args(sh, None)
            disc = cfg['model_type'] == 'discrete'
            # --- model functions
            for c in model_calls(sh):
                f = c.args[0].args[1]
                if f in ('_rhs_fun', '_alg_fun'):
                    w = dict(want)
                    if sh.mpc:
                        w['p'] = w['p'] + [v.n.mul(w['p'][0], sh.b.attr('_p_scaling'))]
                    call_obl(ctx, R1, R2, sh, nm, c, w)
                elif f == '_meas_fun':
                    w = dict(want)
                    w['x'] = [sh.X('_x', sh.k1, -1)]
                    call_obl(ctx, R1, R2, sh, nm, c, w)
            # --- collocation step
            if not disc:
                fi = [x for pc in v.g for x in find_calls(pc.v, lambda x: fn_def(x.args[0]) and (sh.rest in walk_items(pc.v) or True))]
                ic = [x for x in find_calls(sh.rest, lambda x: fn_def(x.args[0]))]
                for c in ic[:1]:
                    w = {'x': [sh.X('_x', sh.k, -1, scaled=True)], 'u': [sh.X('_u', sh.k, scaled=True)], 'tvp': want['tvp'],
                         'x_col': [mk('vcat', sh.X('_x', sh.k1, mk('slice', NONE, const(-1), NONE), child=sh.mpc, scaled=True))],
                         'z_col': [mk('vcat', sh.X('_z', sh.k, child=sh.mpc, scaled=True))], 'w': want['w']}
                    if sh.mpc:
                        w['p'] = want['p']
                    else:
                        f = sorted(v.n.selfun or [], key=id)
                        w['p'] = [mk('call', fn, (sh.b.x('_p_est'), v.n.mul(sh.b.p('_p_set'), sh.b.scaling('_p_set'), -1)), ()) for fn in f] + \
                                 [mk('call', fn, (sh.b.x('_p_est'), sh.b.p('_p_set')), ()) for fn in f]
                    call_obl(ctx, R1, R2, sh, nm, c, w)
            # --- initial value
            # --- user functions
            for pc in v.gc:
                fr = free_loops(pc)
                if fr and any(q.v is pc.v and set(q.loops) == set(pc.loops) | set(fr) for q in v.gc):
                    continue        # repeats the last of the looped constraints
                for c in find_calls(pc.v, lambda x: fn_def(x.args[0]) and 'eps' in [role_of(i) for i in fn_def(x.args[0])[1]] and len(x.args[1]) > 1):
                    w = dict(want)
                    w['z'] = w['z'][:1]
                    extra = [l for l in pc.loops if l not in sh.loops]
                    if extra:
                        # point 0 is the node itself; the following points are stored with the next node
                        i = mk('lv', extra[0])
                        z = v.n.cmp('==', i, const(0))
                        if sh.points is not None and v.n.bin('+', v.n(extra[0].args[1].args[1]), ONE) is sh.points:
                            # the later points only
                            y = dict(w)
                            y['x'] = [sh.X('_x', sh.k1, i, child=sh.mpc)]
                            y['z'] = [sh.X('_z', sh.k, sh.b.add(i, 1), child=sh.mpc)]
                            call_obl(ctx, R1, R2, sh, nm + ':later points', c, y)
                            continue
                        for at0 in (True, False):
                            if (z, not at0) in pc.guards:
                                continue
                            y = dict(w)
                            y['x'] = [sh.X('_x', sh.k, -1)] if at0 else [sh.X('_x', sh.k1, sh.b.sub(i, 1), child=sh.mpc)]
                            y['z'] = [sh.X('_z', sh.k, 0 if at0 else i, child=sh.mpc)]
                            c2 = mk('call', c.args[0], tuple(assume(v.n, t, z, at0, i) for t in c.args[1]), c.args[2])
                            call_obl(ctx, R1, R2, sh, nm + (':first point' if at0 else ':later points'), c2, y)
                        continue
                    call_obl(ctx, R1, R2, sh, nm, c, w)
            for pc in v.obj:
                for c in find_calls(pc.v, lambda x: (x.args[0].op == 'attr' and x.args[0].args[0] is sh.b.self and x.args[0] not in (v.n.selfun or ())) or fn_def(x.args[0])):
                    roles, name = fun_roles(ctx, cls, c.args[0])
                    if roles is None:
                        R.unk('%s:%s' % (nm, name), v.sev.loc, 'signature not resolved')
                        continue
                    w = dict(want)
                    if set(roles) <= {'x', 'tvp', 'p'} and 'u' not in roles and sh.mpc:      # terminal cost
                        w['x'] = [sh.X('_x', sh.k1, -1, child=True)]
                        w['tvp'] = [sh.b.p('_tvp', sh.k1)]
                    if 'x_prev' in roles or 'p_est_prev' in roles:
                        w.update({'x': [sh.X('_x', const(0), -1)], 'x_prev': [sh.b.p('_x_prev')], 'p_est_prev': [sh.b.p('_p_est_prev')]})
                        roles2 = list(roles)
                        # x, x_prev, p_est, p_est_prev share their symbol names: order as declared
                    if 'u_prev' in roles:
                        z = [g for g in pc.guards if g[0].op == 'eq0' and g[0].args[0] is sh.k]
                        first = any(g[1] for g in z)
                        if first:
                            w = {r: [subst_n(v.n, t, sh.k, const(0)) for t in ts] for r, ts in w.items()}
                            w['u_prev'] = [sh.b.p('_u_prev')]
                            c = mk('call', c.args[0], tuple(subst_n(v.n, t, sh.k, const(0)) for t in c.args[1]), c.args[2])
                        else:
                            pa = parent_of(sh, c.args[1][roles.index('u_prev')])
                            w['u_prev'] = [sh.b.ph('_u', sh.b.sub(sh.k, 1), pa)] if pa is not None else []
                    call_obl(ctx, R1, R2, sh, nm, c, w)
            # --- auxiliary expressions
            for e in v.run.events:
                if e.kind == 'setitem' and e.value is not None and e.value.op == 'call' and e.value.args[0].op == 'attr' and e.value.args[0].args[1] == '_aux_expression_fun':
                    c = v.n(v.short(e.value))
                    w = dict(want)
                    if sh.mpc:
                        # nodes beyond the branching stage repeat the last scenario: only stage agreement is required
                        kk = [x for x in walk(v.n(v.short(e.key))) if x is sh.k]
                        sv = [a.args[1].args[2] for a in c.args[1] for a in walk(a) if a.op == 'item' and a.args[0] is X and a.args[1].args[0] is const('_x') and len(a.args[1].args) == 4]
                        key = v.n(v.short(e.key))
                        if sv and sv[0] is not sh.s:
                            continue
                        w['z'] = w['z'] + [sh.X('_z', sh.k, 0), sh.X('_z', sh.k, -1)]
                    call_obl(ctx, R1, R2, sh, nm + ':aux', c, w)


def walk_items(t):
    return list(walk(t))


def parent_of(sh, t):
    """the tree element used as scenario index of the previous input"""
    for x in walk(t):
        if x.op == 'item' and x.args[0] is X and x.args[1].args[0] is const('_u'):
            s = x.args[1].args[2]
            if s.op == 'arr' and len(s.args[1]) == 2 and s.args[1][0] is sh.k and s.args[1][1] is sh.su:
                return s
            if sh.v.cfg.get('open_loop') and s is const(0):
                return s
    return None


def assume(n, t, cond, val, i):
    def f(x):
        if x.op == 'lv':
            return x
        if x.op == 'ite' and x.args[0] is cond:
            return subst(x.args[1 if val else 2], f)
        return None
    t = subst(t, f)
    return subst_n(n, t, i, const(0)) if val else renorm(n, t)


def subst_n(n, t, a, b):
    return renorm(n, subst(t, lambda x: b if x is a else x if x.op == 'lv' else None))


@prop('C01', 'Every application of a model, cost or constraint function in both problems is found in the value graph and its arguments are compared with decision variable times scaling factor in the same role.', floor=100)
def c01(ctx, R, tier):
    R.use('units', 'every model, cost and constraint function is applied to decision variables multiplied by their scaling factor and to unscaled parameters')
    stage_rules(ctx, R, None, tier)


@prop('C02', 'Every application of a model, cost or constraint function in both problems is found in the value graph and the stage, scenario and collocation indices of its arguments are compared.', floor=100)
def c02(ctx, R, tier):
    R.use('stage', 'all arguments of one function application belong to the same stage, scenario and collocation point, in the role the function declares')
    stage_rules(ctx, None, R, tier)
