"""Validation before setup, order of use, settings, initial values, resets, simulator set-up."""
from . import prop
from ..terms import mk, const
from .spec_rules import table, ASSUME, MPC_, MHE_

SIM_ = 'simulator.Simulator'
IT = 'model.IteratedVariables'
SETFUN = dict(noinline=('set_tvp_fun', 'set_p_fun', 'set_y_fun', 'get_tvp_template', 'get_p_template', 'get_y_template'))
C = 'controller.'
E = 'estimator.'


NEW = ['attr ' + a for a in '_x0 _u0 _z0 _t0 _x_lb _x_ub _u_lb _u_ub _z_lb _z_ub _x_scaling _u_scaling _z_scaling'.split()]


@prop('C15', 'Validation methods compared with the list of inputs that must be refused, cost functions and fresh objects compared with a reference.', ASSUME, floor=40)
def validation(ctx, R, tier):
    R.use('refuse', 'an incomplete or contradictory problem is refused before it is built; everything complete is accepted')
    table(ctx, R, [
        (MPC_, '_check_validity', 'setup', 'mpc_check', ['raises', 'calls set_tvp_fun|set_p_fun', 'setattrs'], SETFUN),
        (MHE_, '_check_validity', 'setup', 'mhe_check', ['raises', 'calls set_tvp_fun|set_p_fun', 'setattrs'], SETFUN),
        (SIM_, '_check_validity', 'setup', 'sim_check', ['raises', 'calls set_tvp_fun|set_p_fun', 'setattrs'], SETFUN),
        ('controller.MPCSettings', 'check_for_mandatory_settings', 'setup', 'need_both', ['raises']),
        ('controller.LQRSettings', 'check_for_mandatory_settings', 'setup', 'need_t_step', ['raises']),
        ('estimator.MHESettings', 'check_for_mandatory_settings', 'setup', 'need_both', ['raises']),
        ('simulator.SimulatorSettings', 'check_for_mandatory_settings', 'setup', 'need_t_step', ['raises'])])
    names = ('check_for_mandatory_settings', '_check_validity', '_setup_nl_cons', '_setup_discretization', '_setup_scenario_tree')
    ob = ['calls check_for_mandatory_settings|_check_validity']
    table(ctx, R, [(MPC_, '_prepare_nlp', 'setup', 'mpc_checks', ob, dict(noinline=names)), (MHE_, '_prepare_nlp', 'setup', 'mhe_checks', ob, dict(noinline=names)),
                   (SIM_, 'setup', 'setup', 'sim_checks', ob, dict(noinline=names))])
    R.use('cost', 'cost functions are built from the given expressions over the documented variables; wrong types and shapes are refused')
    table(ctx, R, [
        (MPC_, 'set_objective', 'setup', 'mpc_objective', ['attr mterm_fun', 'attr lterm_fun', 'attr mterm', 'attr lterm', 'stores flags', '>raises']),
        (MPC_, 'copy_struct', 'setup', 'copy_struct', ['return', 'raises']),
        (MPC_, 'set_rterm', 'setup', 'mpc_rterm', ['attr rterm_fun', 'stores rterm_factor', 'stores flags', 'raises']),
        (MHE_, 'set_objective', 'setup', 'mhe_objective', ['attr stage_cost_fun', 'attr arrival_cost_fun', 'stores flags', '>raises']),
        (MHE_, 'set_default_objective', 'setup', 'mhe_default_objective', ['calls set_objective', 'raises'], dict(noinline=('set_objective',)))])
    R.use('fresh', 'a new object has no bounds, unit scaling, zero initial values and nothing marked as set; models that were not set up are refused')
    table(ctx, R, [
        ('optimizer.Optimizer', '__init__', 'setup', 'opt_new', ['attr ' + a for a in 'flags _x_lb _x_ub _u_lb _u_ub _z_lb _z_ub _x_scaling _u_scaling _z_scaling _p_scaling nl_cons_list slack_vars_list slack_cost'.split()]),
        (IT, '__init__', 'setup', 'new_vars', ['attr _x0', 'attr _u0', 'attr _z0', 'attr _t0']),
        (MPC_, '__init__', 'setup', 'mpc_new', ['attr ' + a for a in 'model data _settings _opt_x_num _opt_p_num _x_terminal_lb _x_terminal_ub rterm_factor flags u_prev'.split()] + NEW + ['raises'], dict(keep=('MPCData',))),
        (MHE_, '__init__', 'setup', 'mhe_new', ['attr ' + a for a in 'model data settings _opt_x_num _opt_p_num _p_est _p_set _p_cat_fun n_p_est n_p_set _p_est_scaling _p_set_scaling _p_est_lb _p_est_ub _p_est0 _y_meas _x _p _w _v flags'.split()] + NEW + ['raises'], dict(keep=('Data',))),
        (MHE_, '__init__', 'setup', 'mhe_prev|mhe_prev2', ['attr _x_prev', 'attr _p_est_prev'], dict(keep=('copy.copy', 'copy.deepcopy'), key='MHE previous values')),
        *[(SIM_, '__init__', 'setup', 'sim_new', ['attr ' + a for a in 'model data _settings _x0 _u0 _z0 _t0 flags'.split()] + ['raises'],
           dict(facts={('eq', mk('attr', mk('sym', 'model'), 'model_type')): const(mt)}, key='Simulator[%s]' % mt)) for mt in ('continuous', 'discrete')]])


GATED = dict(noinline=('_prepare_nlp', '_create_nlp'))


@prop('C16', 'Every method that is only defined before or after a stage of setup compared with a reference of its gate.', ASSUME, floor=40)
def lifecycle(ctx, R, tier):
    R.use('order', 'setup prepares, then creates the problem, once each')
    for c in (MPC_, MHE_):
        table(ctx, R, [(c, 'setup', 'setup', 'opt_setup', ['calls _prepare_nlp|_create_nlp'], GATED),
                       (c, 'prepare_nlp', 'setup', 'prepare', ['calls _prepare_nlp|_create_nlp'], GATED),
                       (c, 'create_nlp', 'setup', 'create', ['calls _prepare_nlp|_create_nlp'], GATED)])
    R.use('gate', 'cost and constraints are readable after preparing and changeable only until the solver exists; parameters only before setup; settings objects stay')
    for c in (MPC_, MHE_):
        rows = []
        for q, f in (('nlp_obj', 'obj'), ('nlp_cons', 'cons'), ('nlp_cons_lb', 'cons_lb'), ('nlp_cons_ub', 'cons_ub')):
            rows += [(c, q, 'setup', f + '_get', ['return', 'raises']), (c, q + '.setter', 'setup', f + '_set', ['setattrs', 'raises'])]
        table(ctx, R, rows)
    table(ctx, R, [
        (MPC_, 'settings.setter', 'setup', 'keep_settings', ['setattrs', 'stores *']),
        (MPC_, 'settings', 'setup', 'get_private_settings', ['return']), (SIM_, 'settings', 'setup', 'get_private_settings', ['return']),
        (SIM_, 'settings.setter', 'setup', 'keep_settings', ['setattrs', 'stores *']),
        (MPC_, 'set_param', 'setup', 'set_param_mpc', ['raises']),
        (MHE_, 'set_param', 'setup', 'set_param_mhe', ['raises']),
        (SIM_, 'set_param', 'setup', 'set_param_mpc', ['raises'])])
    R.use('ready', 'solving, stepping and initial guesses are refused before setup')
    table(ctx, R, [
        (MPC_, 'solve', 'setup', 'solve_after_setup', ['>raises']), (MHE_, 'solve', 'setup', 'solve_after_setup', ['>raises']),
        (MPC_, 'make_step', 'setup', 'step_after_setup', ['>raises']), (MHE_, 'make_step', 'setup', 'step_after_setup', ['>raises']),
        (SIM_, 'make_step', 'setup', 'step_after_setup', ['>raises']), (SIM_, 'simulate', 'setup', 'solve_after_setup', ['>raises']),
        (SIM_, 'set_initial_guess', 'setup', 'solve_after_setup', ['raises']),
        (MPC_, 'set_initial_guess', 'setup', 'solve_after_setup', ['raises']), (MHE_, 'set_initial_guess', 'setup', 'solve_after_setup', ['raises'])])


WIN = dict(noinline=('set_tvp_fun', 'set_p_fun', 'set_y_fun', 'get_tvp_template', 'get_p_template', 'get_y_template'), presets={('MHESettings', 'meas_from_data'): True})


@prop('C10', 'make_step of the MHE compared with a reference step.', ASSUME)
def window(ctx, R, tier):
    R.use('window', 'the default measurement function returns the most recent measurements in order, the oldest repeated while fewer than the window are known')
    table(ctx, R, [(MHE_, '_check_validity', 'setup', 'mhe_default_window', ['calls set_y_fun'], WIN),
                   (MHE_, 'get_y_template', 'setup', 'mhe_y_template', ['return']),
                   (MHE_, 'set_y_fun', 'setup', 'mhe_y_fun', ['attr y_fun', 'stores flags', 'raises']),
                   (MHE_, 'get_p_template', 'setup', 'mhe_p_template', ['return']),
                   (MHE_, 'set_p_fun', 'setup', 'mhe_p_fun', ['attr p_fun', 'stores flags', 'raises'])])


@prop('C11', 'make_step and simulate of the simulator compared with a reference step.', ASSUME)
def sim_setup(ctx, R, tier):
    R.use('setup', 'the integrator advances exactly the equations of the model by one sampling time with the given tolerances')
    ob = ['attr ' + a for a in 'sim_x_num sim_z_num sim_p_num sim_aux_num simulator sim_aux_expression_fun'.split()] + ['stores flags']
    pre = lambda mt: {('Model', 'model_type'): mt}
    table(ctx, R, [
        (SIM_, 'setup', 'setup', 'sim_setup_discrete', ob + ['attr discrete_dae_solver'], dict(presets=pre('discrete'), noinline=('_check_validity',), key='Simulator.setup[discrete]')),
        (SIM_, 'setup', 'setup', 'sim_setup_continuous', ob, dict(presets=pre('continuous'), noinline=('_check_validity',), key='Simulator.setup[continuous]')),
        (SIM_, 'set_initial_guess', 'setup', 'sim_guess', ['stores sim_z_num', 'raises']),
        (SIM_, 'init_algebraic_variables', 'setup', 'sim_init_z', ['return', 'attr _z0', 'calls set_initial_guess', 'raises'], dict(noinline=('set_initial_guess', '_convert2struct')))])
    R.use('given', 'parameter functions with another structure are refused')
    table(ctx, R, [
        (SIM_, 'get_tvp_template', 'setup', 'model_tvp', ['return']), (SIM_, 'get_p_template', 'setup', 'model_p', ['return']),
        (SIM_, 'set_tvp_fun', 'setup', 'sim_tvp_fun', ['attr tvp_fun', 'stores flags', 'raises']),
        (SIM_, 'set_p_fun', 'setup', 'sim_p_fun', ['attr p_fun', 'stores flags', 'raises'])])


@prop('C34', 'set_param and the helper methods of the settings classes compared with a reference; defaults compared with the documented ones.', ASSUME, floor=8)
def settings(ctx, R, tier):
    R.use('set', 'set_param stores every known keyword under its own name and nothing else')
    table(ctx, R, [(MPC_, 'set_param', 'setup', 'set_param_mpc', ['stores *']), (MHE_, 'set_param', 'setup', 'set_param_mhe', ['stores *']), (SIM_, 'set_param', 'setup', 'set_param_mpc', ['stores *']),
                   ('controller.LQR', 'set_param', 'setup', 'set_param_lqr', ['stores *', 'raises'])])
    for c in ('controller.MPCSettings', 'estimator.MHESettings'):
        table(ctx, R, [(c, 'supress_ipopt_output', 'setup', 'quiet', ['stores nlpsol_opts']), (c, 'set_linear_solver', 'setup', 'linear_solver', ['stores nlpsol_opts'])])


@prop('C14', 'reset methods compared with a reference.', ASSUME, floor=6)
def reset(ctx, R, tier):
    R.use('reset', 'a reset clears the recorded data and returns the clock to the start, nothing else')
    ni = dict(noinline=('Data.init_storage',))
    ob = ['calls init_storage', 'setattrs', 'stores *', '<raises']
    table(ctx, R, [(MPC_, 'reset_history', 'setup', 'reset_opt', ob, ni), (MHE_, 'reset_history', 'setup', 'reset_opt', ob, ni),
                   (SIM_, 'reset_history', 'setup', 'reset_sim', ob, ni), ('controller.LQR', 'reset_history', 'setup', 'reset_opt', ob, ni),
                   ('estimator.StateFeedback', 'reset_history', 'setup', 'reset_est', ob, ni), ('estimator.EKF', 'reset_history', 'setup', 'reset_est', ob, ni)])
    R.use('storage', 'clearing leaves every declared field empty with its width; later data starts from the first row')
    table(ctx, R, [('data.Data', 'init_storage', 'data', 'init_storage', ['setattrs']), ('data.MPCData', 'init_storage', 'data', 'init_storage', ['setattrs'])])


@prop('C24', 'Setters and getters of initial values compared with a reference.', ASSUME, floor=10)
def initial(ctx, R, tier):
    R.use('values', 'initial values are copied in the order of the model, wrong sizes and types are refused')
    rows = [(IT, '_convert2struct', 'setup', 'to_struct', ['return', 'raises'])]
    for q in 'xuz':
        rows += [(IT, q + '0', 'setup', q + '0_get', ['return']), (IT, q + '0.setter', 'setup', q + '0_set', ['setattrs'], dict(noinline=('_convert2struct',)))]
    rows += [(IT, 't0', 'setup', 't0_get', ['return']), (IT, 't0.setter', 'setup', 't0_set', ['setattrs', 'raises']),
             (MHE_, 'p_est0', 'setup', 'p_est0_get', ['return']), (MHE_, 'p_est0.setter', 'setup', 'p_est0_set', ['setattrs'], dict(noinline=('_convert2struct',)))]
    table(ctx, R, rows)
