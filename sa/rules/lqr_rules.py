"""Linear quadratic regulator."""
from . import prop
from .spec_rules import table, ASSUME

Q = 'controller.LQR'
UPD = ('Data.update',)


@prop('C19', 'Gain, augmented system, set point and control law of the regulator compared with reference formulas, for both modes and both kinds of horizon.', ASSUME, floor=25)
def lqr(ctx, R, tier):
    R.use('gain', 'gain of the Riccati recursion (finite horizon) or of the algebraic Riccati equation (infinite horizon)')
    table(ctx, R, [(Q, 'discrete_gain', 'lqr', 'gain', ['return', 'raises'], dict(presets={('LQRSettings', 'n_horizon'): None}, key='gain[infinite]')),
                   (Q, 'discrete_gain', 'lqr', 'gain', ['return', 'raises'])])
    R.use('system', 'with input rate penalty the state is extended by the input and costs are arranged accordingly')
    table(ctx, R, [(Q, 'set_rterm', 'lqr', 'rterm', ['attr A_rated', 'attr B_rated', 'attr delR', 'attr mode']),
                   (Q, 'setup', 'lqr', 'setup', ['attr Q', 'attr R', 'attr P', 'attr K', 'stores flags', 'raises'], dict(noinline=('discrete_gain',))),
                   (Q, 'set_objective', 'lqr', 'objective', ['attr Q', 'attr R', 'attr P', 'raises']),
                   (Q, '__init__', 'lqr', 'new', ['attr ' + a for a in 'mode flags model model_type settings data _x0 _u0 _t0'.split()] + ['raises'])])
    R.use('law', 'applied input is set point plus gain times deviation (plus last input with rate penalty); one row is recorded and the clock advances')
    ob = ['return', 'kwcalls update', 'attr _t0', 'stores _x0', 'stores _u0', 'raises', 'calls set_setpoint']
    for m in ('standard', 'inputRatePenalization'):
        fn = 'step_standard' if m == 'standard' else 'step_rate'
        table(ctx, R, [(Q, 'make_step', 'lqr', fn, ob, dict(presets={('LQR', 'mode'): m}, noinline=UPD + ('set_setpoint',), key='make_step[%s]' % m)),
                       (Q, 'set_setpoint', 'lqr', fn.replace('step', 'setpoint'), ['attr xss', 'attr uss', '>raises'], dict(presets={('LQR', 'mode'): m}, key='set_setpoint[%s]' % m))])
