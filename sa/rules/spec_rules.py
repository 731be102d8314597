"""Rules decided by comparison with a reference formulation (sa/specs/*.py)."""
import os
from . import prop
from .. import spec

ASSUME = ['method calls on CasADi/NumPy objects mean what the libraries document', 'classes are used through their public methods']


def table(ctx, R, rows):
    for row in rows:
        cls, meth, mod, fn, obs = row[:5]
        kw = dict(row[5]) if len(row) > 5 else {}
        try:
            spec.check(ctx, R, cls, meth, mod, fn, obs, **kw)
        except Exception as e:      # code this analysis cannot read: no verdict
            if os.environ.get('SA_DEBUG'):
                raise
            R.unk('%s.%s' % (cls, meth), meth, 'not readable: %s: %s' % (type(e).__name__, str(e)[:200]))


NOUPD = {'noinline': ('Data.update',)}


@prop('C09', 'make_step of the MPC compared with a reference step: parameters handed to the problem, order with respect to the solver call, returned input, recorded row and advanced state.', ASSUME, floor=8)
def mpc_step(ctx, R, tier):
    R.use('step', 'one closed loop call: current state, previous input, parameter trajectories enter the problem before the solution; first-stage results are returned, recorded once and kept')
    table(ctx, R, [('controller.MPC', 'make_step', 'steps', 'mpc_make_step', ['return', 'kwcalls update', 'stores _opt_p_num', 'attr _t0', 'stores _u0', 'stores _x0', 'stores _z0', 'raises'], NOUPD)])


@prop('C10', 'make_step of the MHE compared with a reference step.', ASSUME, floor=8)
def mhe_step(ctx, R, tier):
    R.use('step', 'one estimation call: measurement recorded first, previous estimates and windows enter the problem before the solution; last-stage results are returned, recorded once and kept')
    table(ctx, R, [('estimator.MHE', 'make_step', 'steps', 'mhe_make_step', ['return', 'kwcalls update', 'stores _opt_p_num', 'attr _t0', 'stores _u0', 'stores _x0', 'stores _z0', 'stores _p_est0', 'raises'], NOUPD)])


@prop('C11', 'make_step and simulate of the simulator compared with a reference step.', ASSUME, floor=20)
def sim_step(ctx, R, tier):
    R.use('step', 'one simulation call: current state, input, parameters and noise of this call enter the integration; the measurement belongs to the new state; one row is recorded and the state advances')
    ob = ['return', 'kwcalls update', 'stores sim_x_num', 'stores sim_p_num', 'stores sim_z_num', 'attr _t0', 'stores _u0', 'stores _x0', 'raises']
    rows = [('simulator.Simulator', 'make_step', 'steps', 'sim_make_step', ob, dict(NOUPD, presets={('Model', 'model_type'): mt}, key='Simulator.make_step[%s]' % mt)) for mt in ('discrete', 'continuous')]
    rows.append(('simulator.Simulator', 'simulate', 'steps', 'sim_simulate', ['return', 'stores sim_x_num', 'stores sim_p_num', 'stores sim_z_num', 'stores sim_aux_num'], NOUPD))
    table(ctx, R, rows)


@prop('C12', 'Storage methods of the data class compared with a reference: declared fields, one appended row per update, queries by index, clearing.', ASSUME, floor=8)
def data_store(ctx, R, tier):
    R.use('store', 'update appends exactly one row to exactly the named fields; unknown fields are refused; export and queries return the recorded columns of the requested element')
    D = 'data.Data'
    table(ctx, R, [
        (D, '__init__', 'data', 'init', ['attr dtype', 'attr model', 'calls pop', 'attr data_fields', 'attr _x', 'attr _u', 'attr _z', 'attr _y', 'attr _p', 'attr _tvp', 'attr _time', 'attr _aux', 'attr meta_data', 'attr result_queries', 'raises']),
        (D, 'init_storage', 'data', 'init_storage', ['setattrs']),
        (D, 'update', 'data', 'update', ['setattrs', 'raises'], dict(keep=('reshape',))),
        (D, '__getitem__', 'data', 'getitem', ['return', 'calls append', 'raises']),
        (D, 'export', 'data', 'export', ['return']),
        (D, 'set_meta', 'data', 'set_meta', ['stores meta_data'])])


@prop('C13', 'Prediction query compared with a reference: which stored vector is read, which stage/scenario/collocation index is selected per variable type, and the cache of indices.', ASSUME, floor=3)
def data_prediction(ctx, R, tier):
    R.use('query', 'a prediction query returns the stored elements of the requested variable for every stage and every scenario line')
    table(ctx, R, [('data.MPCData', 'prediction', 'data', 'prediction', ['return', 'calls append', 'raises'], dict(keep=('reshape',))),
                   ('data.MPCData', '__init__', 'data', 'init_mpc', ['attr prediction_queries', 'attr data_fields', 'attr _x', 'raises'])])


OPT_NI = dict(noinline=('_update_bounds',))
MPC_, MHE_ = 'controller.MPC', 'estimator.MHE'


@prop('C05', 'Scenario tables, parameter combinations and the parameter function compared with a reference construction.', ASSUME, floor=6)
def tree(ctx, R, tier):
    R.use('tree', 'tables of the scenario tree: number of branches and nodes per stage, child, parent and branch offset, node of every scenario')
    table(ctx, R, [(MPC_, '_setup_scenario_tree', 'opt', 'scenario_tree', ['return', 'stores *', 'attr scenario_tree'])])
    R.use('values', 'every combination of the given parameter values is one entry of the parameter structure')
    table(ctx, R, [(MPC_, 'get_p_template', 'opt', 'get_p_template', ['return', 'attr n_combinations']),
                   (MPC_, 'set_uncertainty_values', 'opt', 'set_uncertainty_values', ['return', 'calls set_p_fun', 'stores *', '>raises'], dict(noinline=('set_p_fun', 'get_p_template'))),
                   (MPC_, 'set_p_fun', 'opt', 'set_p_fun_mpc', ['attr p_fun', 'stores flags', 'raises'])])


@prop('C07', 'Getters and setters of bounds and scaling, assembly of the bound vectors and of the constraint limits compared with a reference.', ASSUME, floor=30)
def bounds_rule(ctx, R, tier):
    R.use('access', 'reading returns and setting changes exactly the named bound or scaling factor; after the problem has been created the bound vectors are updated')
    for c in (MPC_, MHE_):
        table(ctx, R, [(c, 'bounds', 'opt', 'bounds_get', ['return', 'raises']), (c, 'bounds.setter', 'opt', 'bounds_set', ['stores *', 'calls _update_bounds', 'raises'], OPT_NI),
                       (c, 'scaling', 'opt', 'scaling_get', ['return', 'raises']), (c, 'scaling.setter', 'opt', 'scaling_set', ['stores *', 'raises']),
                       (c, 'lb_opt_x', 'opt', 'lb_get', ['return']), (c, 'ub_opt_x', 'opt', 'ub_get', ['return']),
                       (c, 'lb_opt_x.setter', 'opt', 'lb_set', ['stores _lb_opt_x', 'stores _ub_opt_x']), (c, 'ub_opt_x.setter', 'opt', 'ub_set', ['stores _lb_opt_x', 'stores _ub_opt_x'])])
    table(ctx, R, [(MPC_, 'terminal_bounds', 'opt', 'terminal_get', ['return', 'raises']),
                   (MPC_, 'terminal_bounds.setter', 'opt', 'terminal_set|terminal_set2', ['stores *', 'setattrs', 'calls _update_bounds', 'raises'], dict(OPT_NI, keep=('_x', 'copy.deepcopy')))])
    R.use('vectors', 'every bound is placed at every stage it is promised for')
    table(ctx, R, [(MPC_, '_update_bounds', 'opt', 'mpc_update_bounds', ['stores _lb_opt_x', 'stores _ub_opt_x']),
                   (MHE_, '_update_bounds', 'opt', 'mhe_update_bounds', ['stores _lb_opt_x', 'stores _ub_opt_x'])])
    R.use('colloc', 'with cons_check_colloc_points the bounds hold at every collocation point of every interval')
    table(ctx, R, [(MPC_, '_update_bounds', 'opt', 'mpc_interior_last', ['>stores _lb_opt_x', '>stores _ub_opt_x'], dict(key='last interval', presets={('MPCSettings', 'cons_check_colloc_points'): True}))])
    R.use('limits', 'limits and slacks of nonlinear constraints')
    for c in (MPC_, MHE_):
        table(ctx, R, [(c, 'set_nl_cons', 'opt', 'set_nl_cons', ['return', 'appends slack_vars_list', 'appends nl_cons_list', 'raises']),
                       (c, '_setup_nl_cons', 'opt', 'setup_nl_cons', ['setattrs _eps|_nl_cons|n_eps|epsterm_fun|_nl_cons_fun', 'attr slack_cost', 'stores _nl_cons', 'attr _nl_cons_ub', 'stores _eps_ub', 'stores _nl_cons_ub', 'stores _nl_cons_lb', 'attr _nl_cons_lb', 'attr _eps_lb', 'attr _eps_ub'])])


@prop('C08', 'solve(), the initial guess and the creation of the solver compared with a reference: arguments of the solver call and everything published afterwards.', ASSUME, floor=10)
def solve_rule(ctx, R, tier):
    R.use('solve', 'the solver gets the current guess, bounds, limits, parameters and multipliers; everything published belongs to the result of that call')
    for c in (MPC_, MHE_):
        table(ctx, R, [(c, 'solve', 'opt', 'solve', ['calls S', 'setattrs', 'stores _opt_x_num', 'stores opt_x_num_unscaled', 'stores opt_aux_num', 'stores flags'])])
    R.use('access', 'the published vectors are the ones of the problem')
    for c in (MPC_, MHE_):
        for q in ('opt_x_num', 'opt_p_num', 'opt_x', 'opt_p'):
            table(ctx, R, [(c, q, 'setup', 'get_' + q, ['return', 'raises']), (c, q + '.setter', 'setup', 'set_' + q, ['setattrs', 'raises'])])
    R.use('guess', 'the initial guess is the current initial state, input and algebraic state in scaled units at every stage')
    table(ctx, R, [(MPC_, 'set_initial_guess', 'opt', 'mpc_initial_guess', ['stores _opt_x_num', 'stores flags']),
                   (MHE_, 'set_initial_guess', 'opt', 'mhe_initial_guess', ['stores _opt_x_num', 'stores flags'])])
    R.use('create', 'the solver is created once from the assembled problem, with the data structure prepared for its results')
    ni = dict(noinline=('_prepare_data', 'Data.init_storage', 'set_meta'))
    for c, fn in ((MPC_, 'mpc_create_nlp'), (MHE_, 'mhe_create_nlp')):
        table(ctx, R, [(c, '_create_nlp', 'opt', fn, ['attr _nlp_cons', 'attr _nlp_cons_lb', 'attr _nlp_cons_ub', 'attr n_opt_lagr', 'attr nlp', 'attr S', 'calls set_meta', 'attr opt_aux_expression_fun', 'stores flags', 'calls _prepare_data'], ni),
                       (c, '_prepare_data', 'opt', 'prepare_data', ['stores *', 'calls init_storage', 'raises'], dict(noinline=('Data.init_storage',)))])
    R.use('compile', 'the compiled solver replaces the solver of the same problem; an existing library is reused unless overwriting is asked for')
    for c in (MPC_, MHE_):
        table(ctx, R, [(c, 'compile_nlp', 'opt', 'compile_nlp', ['attr S', 'calls generate_dependencies', 'calls subprocess.Popen|Popen', 'order generate_dependencies|Popen|wait|.S', 'raises'])])
    R.use('tvp', 'the template has one entry per stage including the last; functions with another structure are refused')
    for c in (MPC_, MHE_):
        table(ctx, R, [(c, 'get_tvp_template', 'opt', 'get_tvp_template_opt', ['return']),
                       (c, 'set_tvp_fun', 'opt', 'set_tvp_fun_opt', ['attr tvp_fun', 'stores flags', 'raises'])])
