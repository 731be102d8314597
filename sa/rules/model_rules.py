"""Model definition, linear models and conversions."""
from . import prop
from .spec_rules import table, ASSUME

M, L = 'model.Model', 'model.LinearModel'
NI = dict(noinline=('_convert2struct', '_substitute_struct_vars', '_substitute_exported_vars', 'set_meas'))


@prop('C17', 'Methods of the model class compared with a reference model builder: declared variables, equations, the assembled functions and their arguments, derivative functions, pickling.', ASSUME, floor=40)
def model_rule(ctx, R, tier):
    R.use('declare', 'a declared variable, expression, measurement or equation is stored once under its name with the given shape; wrong names, types and repeated or unknown names are refused')
    table(ctx, R, [
        (M, '__init__', 'model', 'new', ['attr ' + a for a in 'model_type symvar_type _x _u _z _p _tvp _aux _w _v _y _aux_expression _y_expression rhs_list alg_list flags'.split()] + ['raises']),
        (M, 'set_variable', 'model', 'set_variable', ['return', 'appends *', 'raises']),
        (M, 'set_expression', 'model', 'set_expression', ['return', 'appends *', 'raises']),
        (M, 'set_meas', 'model', 'set_meas', ['return', 'appends *', 'raises']),
        (M, 'set_rhs', 'model', 'set_rhs', ['return', 'appends *', 'raises']),
        (M, 'set_alg', 'model', 'set_alg', ['return', 'appends *', 'raises']),
        (M, '__getitem__', 'model', 'getitem', ['return', 'raises']),
        (M, '_getvar', 'model', 'getvar', ['return', 'stores *'], NI),
        *[(M, q, 'model', 'group_' + q, ['return'], dict(noinline=('_getvar',))) for q in 'x u z p tvp y aux w v'.split()],
        *[(M, q + '.setter', 'model', 'no_direct', ['raises', 'setattrs']) for q in 'x u z p tvp y aux w v'.split()]])
    R.use('assemble', 'after setup the functions of the model evaluate exactly the declared equations for every variable group')
    table(ctx, R, [
        (M, '_convert2struct', 'model', 'convert2struct', ['return']),
        (M, '_substitute_struct_vars', 'model', 'substitute_vars', ['return', 'stores *', 'raises']),
        (M, '_substitute_exported_vars', 'model', 'substitute_exported', ['stores *', 'raises']),
        (M, 'setup', 'model', 'setup', ['attr ' + a for a in '_x _u _z _p _tvp _aux _w _v _y _aux_expression _y_expression _rhs _alg _rhs_fun _alg_fun _aux_expression_fun _meas_fun A_fun B_fun C_fun D_fun n_x n_y n_u n_z n_tvp n_p n_aux n_w n_v'.split()]
         + ['stores *', 'calls set_meas|_substitute_exported_vars', 'raises'], NI)])
    R.use('copy', 'pickling keeps every part of the model; copied variables keep name, kind and shape')
    table(ctx, R, [
        (M, '__getstate__', 'model', 'getstate', ['return', 'raises']),
        (M, '__setstate__', 'model', 'setstate', ['attr _rhs', 'attr _alg', 'attr _aux_expression', 'attr _y_expression', 'calls update']),
        (M, '_transfer_variables', 'model', 'transfer_variables', ['calls set_variable|set_expression'], dict(noinline=('_getvar',)))])


@prop('C18', 'Linear models, linearisation, discretisation, steady state and conversion of a DAE compared with reference formulas.', ASSUME, floor=15)
def linear_rule(ctx, R, tier):
    R.use('matrices', 'system matrices are the derivatives of the model functions at the given point without noise')
    table(ctx, R, [
        (M, 'get_linear_system_matrices', 'model', 'system_matrices', ['return', 'raises']),
        (L, 'sys_A', 'model', 'sys_a', ['return', 'raises']), (L, 'sys_B', 'model', 'sys_b', ['return', 'raises']),
        (L, 'sys_C', 'model', 'sys_c', ['return', 'raises']), (L, 'sys_D', 'model', 'sys_d', ['return', 'raises']),
        (None, None, 'model', 'linearize', ['return', 'calls setup|_transfer_variables', 'raises'], dict(func='model.linearize', noinline=('LinearModel.setup', '_transfer_variables')))])
    R.use('linear model', 'a linear model is built from its matrices; only linear equations are accepted')
    table(ctx, R, [
        (L, '__init__', 'model', 'lin_new', ['attr model_type', 'attr symvar_type', 'attr flags', 'raises']),
        (L, 'set_rhs', 'model', 'lin_set_rhs', ['appends *', 'raises']), (L, 'set_meas', 'model', 'lin_set_meas', ['appends *', 'raises']), (L, 'set_alg', 'model', 'lin_set_alg', ['raises']),
        (L, 'setup', 'model', 'lin_setup', ['calls set_rhs|set_meas|setup', 'attr _A', 'attr _B', 'attr _C', 'attr _D', '>raises'], dict(noinline=('set_rhs', 'set_meas', 'Model.setup', 'get_linear_system_matrices', '_getvar')))])
    R.use('convert', 'discretised, steady state and index-reduced models follow from the same matrices and equations')
    table(ctx, R, [
        (L, 'discretize', 'model', 'discretize', ['return', 'calls setup|_transfer_variables', 'raises'], dict(noinline=('LinearModel.setup', '_transfer_variables'))),
        (L, 'get_steady_state', 'model', 'steady_state', ['return', 'attr xss', 'attr uss', 'raises']),
        (None, None, 'model', 'dae2ode|dae2ode_by_position', ['return', 'calls set_variable|set_rhs|setup', 'raises'], dict(func='model.dae2odeconversion', noinline=('Model.setup', 'set_variable', 'set_rhs', 'Model.__init__')))])
