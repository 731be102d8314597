"""Step equations."""
from . import prop
from .spec_rules import table, ASSUME, MPC_, MHE_


@prop('C06', 'The function giving the step equations compared with a reference construction for every scheme, degree and element count.', ASSUME, floor=6)
def colloc(ctx, R, tier):
    for c, S in ((MPC_, 'MPCSettings'), (MHE_, 'MHESettings')):
        nm = c.split('.')[1]
        R.use('discrete', 'a discrete model contributes its right-hand side and algebraic equations in scaled states')
        table(ctx, R, [(c, '_setup_discretization', 'colloc', 'discrete', ['return'], dict(presets={('Model', 'model_type'): 'discrete'}, key=nm))])
        R.use('collocation', 'algebraic and collocation equations at every point, continuity between elements, weights from the chosen scheme')
        for ty in ('radau', 'legendre'):
            pre = {('Model', 'model_type'): 'continuous', (S, 'state_discretization'): 'collocation', (S, 'collocation_type'): ty}
            table(ctx, R, [(c, '_setup_discretization', 'colloc', 'collocation', ['return'], dict(presets=pre, key='%s[%s]' % (nm, ty)))])
        pre = {('Model', 'model_type'): 'continuous', (S, 'state_discretization'): 'collocation'}
        table(ctx, R, [(c, '_setup_discretization', 'colloc', 'collocation', ['>raises'], dict(presets=pre, key=nm))])
