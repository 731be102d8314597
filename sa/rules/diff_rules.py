"""Sensitivities of optimal solutions."""
from . import prop
from .spec_rules import table, ASSUME

D, DD, S = 'differentiator.NLPDifferentiator', 'differentiator.DoMPCDifferentiator', 'diff'


@prop('C28', 'Methods of both differentiators compared with a reference: KKT matrices, active set, reduced linear system, mapping to the full solution, data taken from the control or estimation problem.', ASSUME, floor=30)
def differentiator(ctx, R, tier):
    R.use('kkt', 'the sensitivity system consists of the derivatives of the gradient of the Lagrangian of the given problem, restricted to the used variables')
    ni = dict(noinline=('_detect_undetermined_sym_var',))
    table(ctx, R, [
        (D, '__init__', S, 'new', ['attr nlp', 'attr nlp_bounds', 'attr _status', 'attr _settings', 'calls _prepare_differentiator', 'raises'], dict(noinline=('_prepare_differentiator',))),
        (D, '_detect_undetermined_sym_var', S, 'used', ['return']),
        (D, '_remove_unused_sym_vars', S, 'reduce_nlp', ['attr ' + a for a in 'nlp nlp_bounds nlp_unreduced nlp_bounds_unreduced det_sym_idx_dict undet_sym_idx_dict'.split()] + ['setattrs', 'stores *', 'raises'], ni),
        (D, '_prepare_differentiator', S, 'prepare', ['attr ' + a for a in 'n_x n_g n_p n_x_unreduced n_p_unreduced A_func B_func cons_grad_func'.split()] + ['stores _status', 'raises', 'calls _remove_unused_sym_vars'], dict(noinline=('_remove_unused_sym_vars',)))])
    R.use('active', 'a constraint is active when it is within the tolerance of one of its current limits; only active ones enter the linear system')
    table(ctx, R, [
        (D, '_get_active_constraints', S, 'active', ['return', 'raises']),
        (D, '_extract_active_primal_dual_solution', S, 'active_solution', ['return', 'raises'], dict(noinline=('_get_active_constraints',))),
        (D, '_reduce_nlp_solution_to_determined', S, 'reduce_solution', ['return', 'raises']),
        (D, '_reduce_sensitivity_matrices', S, 'reduce_matrices', ['return'])])
    R.use('solve', 'the result is the solution of the linear system, checked and reported in the status as requested')
    table(ctx, R, [
        (D, '_solve_linear_system', S, 'solve', ['return', 'stores *'], dict(keep=('reshape',))),
        (D, '_calculate_sensitivities', S, 'sensitivities', ['return', 'stores *', 'raises'], dict(noinline=('_check_LICQ', '_check_SC', '_reduce_sensitivity_matrices', '_solve_linear_system'))),
        (D, '_check_LICQ', S, 'check_licq', ['return']),
        (D, '_check_SC', S, 'check_sc', ['return'])])
    R.use('result', 'sensitivities are returned for every variable and parameter of the original problem')
    table(ctx, R, [
        (D, '_map_dxdp', S, 'map_dx', ['return']),
        (D, '_map_dlamdp', S, 'map_dlam', ['return', 'raises']),
        (D, '_map_param_sens_to_full', S, 'to_full', ['return']),
        (D, 'differentiate', S, 'differentiate', ['return', 'raises'], dict(noinline=('_reduce_nlp_solution_to_determined', '_extract_active_primal_dual_solution', '_calculate_sensitivities', '_map_dxdp', '_map_dlamdp', '_map_param_sens_to_full'))),
        (D, 'status', S, 'get_status', ['return']), (D, 'settings', S, 'get_settings', ['return'])])
    R.use('dompc', 'the problem, bounds, solution and parameters are the current ones of the controller or estimator, results are in physical units')
    ni = dict(noinline=('NLPDifferentiator.differentiate', '_get_do_mpc_nlp', 'NLPDifferentiator.__init__', '_update_nlp_bounds', '_get_do_mpc_nlp_sol'))
    table(ctx, R, [
        (DD, '__init__', S, 'new_dompc', ['attr optimizer', 'attr x_scaling_factors', 'attr _sens_num', 'calls NLPDifferentiator.__init__|__init__'], ni),
        (DD, '_get_do_mpc_nlp', S, 'dompc_nlp', ['return']),
        (DD, '_update_nlp_bounds', S, 'dompc_bounds', ['attr nlp_bounds']),
        (DD, '_get_do_mpc_nlp_sol', S, 'dompc_sol', ['return', 'stores nlp_sol']),
        (DD, 'differentiate', S, 'dompc_differentiate', ['return', 'stores _sens_num', 'raises', 'calls differentiate|_update_nlp_bounds'], ni),
        (DD, 'sens_num', S, 'get_sens', ['return'])])
