"""Defaults of the settings classes, read from the class bodies."""
import ast
from . import prop
from ..project import dotted
from .spec_rules import ASSUME

COLL = dict(state_discretization='collocation', collocation_type='radau', collocation_deg=2, collocation_ni=1, nl_cons_check_colloc_points=False,
            nl_cons_single_slack=False, cons_check_colloc_points=True, store_full_solution=False, store_lagr_multiplier=True,
            store_solver_stats=['success', 't_wall_total'], nlpsol_opts={}, n_horizon=None, t_step=None)
DOCUMENTED = {
    'controller.MPCSettings': dict(COLL, n_robust=0, open_loop=False, use_terminal_bounds=False),
    'controller.LQRSettings': dict(t_step=None, n_horizon=None),
    'estimator.MHESettings': dict(COLL, meas_from_data=False),
    'simulator.SimulatorSettings': dict(t_step=None),
    'simulator.ContinousSimulatorSettings': dict(t_step=None, abstol=1e-10, reltol=1e-10, integration_tool='cvodes', integration_opts={}),
}


class Unread(Exception):
    pass


def value(ctx, mod, e, depth=0):
    """(value, is a fresh object per instance)"""
    if isinstance(e, ast.Call) and (dotted(e.func) or '').split('.')[-1] == 'field':
        for kw in e.keywords:
            if kw.arg == 'default':
                return value(ctx, mod, kw.value)
            if kw.arg == 'default_factory':
                f = kw.value
                if isinstance(f, ast.Name) and f.id in ('dict', 'list') and f.id not in mod.names:
                    return {'dict': {}, 'list': []}[f.id], True
                if isinstance(f, ast.Lambda):
                    return value(ctx, mod, f.body)[0], True
                t = ctx.p.resolve(mod, dotted(f) or '?')
                if t and t[0] == 'func':
                    ret = [n for n in ast.walk(t[1].node) if isinstance(n, ast.Return)]
                    if len(ret) == 1:
                        return value(ctx, t[1].mod, ret[0].value)[0], True
                raise Unread
        raise Unread
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('dict', 'list') and not e.args and not e.keywords:
        return {'dict': {}, 'list': []}[e.func.id], False
    try:
        return ast.literal_eval(e), False
    except ValueError:
        pass
    if isinstance(e, ast.Name) and depth < 3:
        for n in mod.tree.body:
            if isinstance(n, (ast.Assign, ast.AnnAssign)) and any(isinstance(t, ast.Name) and t.id == e.id for t in (n.targets if isinstance(n, ast.Assign) else [n.target])):
                return value(ctx, mod, n.value, depth + 1)
    if isinstance(e, (ast.BinOp, ast.UnaryOp)) and all(isinstance(n, (ast.BinOp, ast.UnaryOp, ast.operator, ast.unaryop, ast.Constant)) for n in ast.walk(e)):
        try:
            return eval(compile(ast.Expression(e), '<const>', 'eval'), {'__builtins__': {}}), False     # arithmetic on constants only
        except Exception:
            pass
    raise Unread


@prop('C34', 'set_param and the helper methods of the settings classes compared with a reference; defaults compared with the documented ones.', ASSUME, floor=8)
def defaults(ctx, R, tier):
    R.use('default', 'every documented setting exists with its documented default, is accepted by the constructor, and objects are not shared between instances')
    for cn, doc in DOCUMENTED.items():
        c = ctx.cls(cn)
        if c is None:
            R.bad(cn, '', 'class not found')
            continue
        seen = {}
        init = ctx.p.find_method(c, '__init__')
        for k in ctx.p.mro(c):
            data = any((dotted(d.func if isinstance(d, ast.Call) else d) or '').split('.')[-1] == 'dataclass' for d in k.node.decorator_list)
            for n in k.node.body:
                if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                    seen.setdefault(n.target.id, (k, n, data))
                elif isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Name):
                            seen.setdefault(t.id, (k, n, False))
        for name, want in doc.items():
            key = '%s.%s' % (cn, name)
            if name not in seen:
                (R.unk if init is not None else R.bad)(key, c.mod.rel + ':%d' % c.node.lineno, 'setting is not declared')
                continue
            k, n, data = seen[name]
            loc = '%s:%d' % (k.mod.rel, n.lineno)
            if n.value is None:
                R.bad(key, loc, 'setting has no default')
                continue
            try:
                got, fresh = value(ctx, k.mod, n.value)
            except Unread:
                R.unk(key, loc, 'default is not a constant: ' + ast.unparse(n.value))
                continue
            if got != want or type(got) != type(want) and not (isinstance(got, (int, float)) and isinstance(want, (int, float)) and not isinstance(got, bool) and not isinstance(want, bool)):
                R.bad(key, loc, 'default is %r, documented is %r' % (got, want))
            elif isinstance(want, (list, dict)) and not (data and fresh) and init is None:
                R.bad(key, loc, 'one default object is shared by all instances')
            elif not data and init is None:
                R.bad(key, loc, 'setting is not a field of a dataclass: the constructor rejects it')
            else:
                R.ok(key, loc, '%s = %r' % (name, got))
