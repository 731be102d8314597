"""Reference formulation of the sensitivities of an optimal solution."""
import logging
import casadi as ca
import casadi.tools as castools
import numpy as np
import scipy.sparse as sp_sparse
from do_mpc.differentiator import NLPDifferentiator
from do_mpc.differentiator.helper import NLPDifferentiatorSettings, NLPDifferentiatorStatus


# ------------------------------------------------------------------ creation
def new(self, nlp, nlp_bounds, **kwargs):
    if not isinstance(nlp, dict):
        raise ValueError
    if not isinstance(nlp_bounds, dict):
        raise ValueError
    if not set(nlp.keys()).issuperset({'f', 'x', 'p', 'g'}):
        raise ValueError
    if not set(nlp_bounds.keys()).issuperset({'lbx', 'ubx', 'lbg', 'ubg'}):
        raise ValueError
    self.nlp = nlp.copy()
    self.nlp_bounds = nlp_bounds.copy()
    self._status = NLPDifferentiatorStatus()
    self._settings = NLPDifferentiatorSettings(**kwargs)
    self._prepare_differentiator()


def used(self, var):
    """positions of the entries on which neither cost nor constraints depend, and of all others"""
    dep = [ca.depends_on(self.nlp['f'], x) or ca.depends_on(self.nlp['g'], x) for x in ca.vertsplit(self.nlp[var])]
    return np.where(np.logical_not(dep))[0], np.where(dep)[0]


def reduce_nlp(self):
    off_x, on_x = self._detect_undetermined_sym_var('x')
    off_p, on_p = self._detect_undetermined_sym_var('p')
    if len(off_x) + len(off_p) > 0:
        self.nlp_unreduced = self.nlp
        self.nlp_bounds_unreduced = self.nlp_bounds
        nlp, bounds = self.nlp.copy(), self.nlp_bounds.copy()
        nlp['x'] = self.nlp['x'][on_x]
        nlp['p'] = self.nlp['p'][on_p]
        bounds['lbx'] = self.nlp_bounds['lbx'][on_x]
        bounds['ubx'] = self.nlp_bounds['ubx'][on_x]
        self.nlp = nlp
        self.nlp_bounds = bounds
        self.det_sym_idx_dict = {'opt_x': on_x, 'opt_p': on_p}
        self.undet_sym_idx_dict = {'opt_x': off_x, 'opt_p': off_p}
        self.status.reduced_nlp = True
    else:
        self.status.reduced_nlp = False


def prepare(self):
    self._remove_unused_sym_vars()
    self.n_x = self.nlp['x'].shape[0]
    self.n_g = self.nlp['g'].shape[0]
    self.n_p = self.nlp['p'].shape[0]
    if self.status.reduced_nlp:
        self.n_x_unreduced = self.nlp_unreduced['x'].shape[0]
        self.n_p_unreduced = self.nlp_unreduced['p'].shape[0]
    x, p, g = self.nlp['x'], self.nlp['p'], self.nlp['g']
    lam_g = ca.SX.sym('lam_g', self.n_g, 1)
    lam_x = ca.SX.sym('lam_x', self.n_x, 1)
    z = ca.vertcat(x, ca.vertcat(lam_g, lam_x))
    L = self.nlp['f'] + lam_g.T @ g + lam_x.T @ x
    self.A_func = ca.Function('A', [z, p], [ca.hessian(L, z)[0]], ['z_opt', 'p_opt'], ['A'])
    self.B_func = ca.Function('B', [z, p], [ca.jacobian(ca.gradient(L, z), p)], ['z_opt', 'p_opt'], ['B'])
    self.status.sym_KKT = True
    self.cons_grad_func = ca.Function('cons_grad', [x, p], [ca.jacobian(ca.vertcat(g, x), x)], ['x_opt', 'p_opt'], ['d(g,x)/dx'])


# ------------------------------------------------------------------ active set
def active(self, nlp_sol):
    tol = self.settings.active_set_tol
    g, x = nlp_sol['g'], nlp_sol['x']
    b = self.nlp_bounds
    g_off = np.where((np.abs(g - b['lbg']) > tol) & (np.abs(g - b['ubg']) > tol))[0]
    x_off = np.where((np.abs(x - b['lbx']) > tol) & (np.abs(x - b['ubx']) > tol))[0]
    g_on = np.where((np.abs(g - b['lbg']) <= tol) | (np.abs(g - b['ubg']) <= tol))[0]
    x_on = np.where((np.abs(x - b['lbx']) <= tol) | (np.abs(x - b['ubx']) <= tol))[0]
    return g_off, x_off, g_on, x_on


def active_solution(self, nlp_sol):
    g_off, x_off, g_on, x_on = self._get_active_constraints(nlp_sol)
    lam = ca.vertcat(nlp_sol['lam_g'], nlp_sol['lam_x'])
    if self.settings.set_lam_zero:
        lam[np.concatenate((g_off, x_off + self.n_g))] = 0
    return ca.vertcat(nlp_sol['x'], lam), np.concatenate((g_on, x_on + self.n_g))


def reduce_solution(self, nlp_sol, p_num):
    assert self.status.reduced_nlp
    on = self.det_sym_idx_dict['opt_x']
    red = nlp_sol.copy()
    red['x'] = nlp_sol['x'][on]
    red['lam_x'] = nlp_sol['lam_x'][on]
    if 'x_unscaled' in nlp_sol:
        red['x_unscaled'] = nlp_sol['x_unscaled'][on]
    return red, p_num[self.det_sym_idx_dict['opt_p']]


# ------------------------------------------------------------------ linear system
def reduce_matrices(self, A_num, B_num, where_cons_active):
    keep = [i for i in range(self.n_x)] + list(where_cons_active + self.n_x)
    return A_num[keep, keep], B_num[keep, :]


def solve(self, A_num, B_num, lin_solver=None):
    self.status.lse_solved = False
    try:
        if lin_solver == 'scipy':
            sens = sp_sparse.linalg.spsolve(A_num.tocsc(), -B_num.tocsc())
            if sens.ndim == 1:
                sens = sens.reshape(-1, 1)
        elif lin_solver == 'casadi':
            sens = ca.Linsol('sol', 'qr', A_num.sparsity()).solve(A_num, -B_num)
        elif lin_solver == 'lstsq':
            sens = np.linalg.lstsq(A_num, -B_num, rcond=None)[0]
        else:
            raise Exception
        self.status.lse_solved = True
    except Exception as e:
        sens = np.full(shape=(A_num.shape[0], B_num.shape[1]), fill_value=np.nan)
        self.status.lse_solved = False
    return sens


def sensitivities(self, z_num, p_num, where_cons_active):
    if self.settings.check_LICQ:
        self.status.LICQ = self._check_LICQ(z_num[:self.n_x], p_num, where_cons_active)
    if self.settings.check_SC:
        self.status.SC = self._check_SC(z_num[self.n_x:], where_cons_active)
    if self.status.sym_KKT is False:
        raise RuntimeError
    A, B = self._reduce_sensitivity_matrices(self.A_func(z_num, p_num), self.B_func(z_num, p_num), where_cons_active)
    if self.settings.check_rank:
        self.status.full_rank = np.linalg.matrix_rank(A) == A.shape[0]
    sens = self._solve_linear_system(A, B, lin_solver=self.settings.lin_solver)
    if not self.status.lse_solved and self.settings.lstsq_fallback:
        sens = self._solve_linear_system(A, B, lin_solver='lstsq')
    if self.settings.track_residuals:
        self.status.residuals = ca.norm_fro(A @ sens + B)
    return sens


def check_licq(self, x_num, p_num, where_cons_active):
    G = self.cons_grad_func(x_num, p_num)[where_cons_active, :]
    if G.shape[0] == 0:
        return True
    if np.linalg.matrix_rank(G) < G.shape[0]:
        return False
    return True


def check_sc(self, lam_num, where_cons_active):
    if np.all(np.abs(lam_num[where_cons_active]) >= self.settings.active_set_tol):
        return True
    return False


# ------------------------------------------------------------------ result
def map_dx(self, param_sens):
    if sp_sparse.issparse(param_sens):
        return param_sens[:self.n_x, :].toarray()
    return param_sens[:self.n_x, :]


def map_dlam(self, param_sens, where_cons_active):
    d = np.zeros((self.n_g + self.n_x, self.n_p))
    assert len(where_cons_active) == param_sens.shape[0] - self.n_x
    if sp_sparse.issparse(param_sens):
        d[where_cons_active, :] = param_sens[self.n_x:, :].toarray()
    else:
        d[where_cons_active, :] = param_sens[self.n_x:, :]
    return d


def to_full(self, dx_dp_num_red, dlam_dp_num_red):
    ix, ip = self.det_sym_idx_dict['opt_x'], self.det_sym_idx_dict['opt_p']
    dx = sp_sparse.lil_matrix((self.n_x_unreduced, self.n_p_unreduced))
    dx[ix[:, None], ip] = dx_dp_num_red
    dlam = sp_sparse.lil_matrix((self.n_g + self.n_x_unreduced, self.n_p_unreduced))
    il = np.hstack([np.arange(0, self.n_g, dtype=np.int64), ix + self.n_g])
    dlam[il[:, None], ip] = dlam_dp_num_red
    return dx, dlam


def differentiate(self, nlp_sol, p_num):
    if not isinstance(nlp_sol, dict):
        raise ValueError
    if not set(nlp_sol.keys()).issuperset({'x', 'lam_g', 'lam_x', 'g'}):
        raise ValueError
    if isinstance(p_num, (float, int)):
        p_num = ca.DM(p_num)
    elif isinstance(p_num, np.ndarray):
        p_num = ca.DM(p_num)
    elif isinstance(p_num, ca.DM):
        pass
    else:
        raise ValueError
    if self.status.reduced_nlp:
        nlp_sol, p_num = self._reduce_nlp_solution_to_determined(nlp_sol, p_num)
    if not p_num.shape == (self.n_p, 1):
        raise ValueError
    z_num, on = self._extract_active_primal_dual_solution(nlp_sol)
    sens = self._calculate_sensitivities(z_num, p_num, on)
    dx, dlam = self._map_dxdp(sens), self._map_dlamdp(sens, on)
    if self.status.reduced_nlp:
        dx, dlam = self._map_param_sens_to_full(dx, dlam)
    return dx, dlam


# ------------------------------------------------------------------ do-mpc objects
def new_dompc(self, optimizer, **kwargs):
    self.optimizer = optimizer
    self.x_scaling_factors = optimizer.opt_x_scaling.master
    self._sens_num = castools.struct_symSX([castools.entry('dxdp', shapestruct=(optimizer._opt_x, optimizer._opt_p))])(0)
    nlp, bounds = self._get_do_mpc_nlp()
    NLPDifferentiator.__init__(self, nlp, bounds, **kwargs)


def dompc_nlp(self):
    o = self.optimizer
    return ({'x': ca.vertcat(o.opt_x), 'f': o.nlp_obj, 'g': o.nlp_cons, 'p': ca.vertcat(o.opt_p)},
            {'lbg': o.nlp_cons_lb, 'ubg': o.nlp_cons_ub, 'lbx': ca.vertcat(o._lb_opt_x), 'ubx': ca.vertcat(o._ub_opt_x)})


def dompc_bounds(self):
    b = self._get_do_mpc_nlp()[1]
    if self.status.reduced_nlp:
        b['lbx'] = b['lbx'][self.det_sym_idx_dict['opt_x']]
        b['ubx'] = b['ubx'][self.det_sym_idx_dict['opt_x']]
    self.nlp_bounds = b


def dompc_sol(self):
    o = self.optimizer
    if not hasattr(self, 'nlp_sol'):
        self.nlp_sol = {}
    self.nlp_sol['x'] = ca.vertcat(o.opt_x_num)
    self.nlp_sol['x_unscaled'] = ca.vertcat(o.opt_x_num_unscaled)
    self.nlp_sol['g'] = ca.vertcat(o.opt_g_num)
    self.nlp_sol['lam_g'] = ca.vertcat(o.lam_g_num)
    self.nlp_sol['lam_x'] = ca.vertcat(o.lam_x_num)
    return self.nlp_sol


def dompc_differentiate(self):
    self._update_nlp_bounds()
    dx, dlam = NLPDifferentiator.differentiate(self, self._get_do_mpc_nlp_sol(), ca.vertcat(self.optimizer.opt_p_num))
    dx = ca.times(dx, self.x_scaling_factors.tocsc())
    self._sens_num['dxdp'] = dx
    return dx, dlam


def get_status(self):
    return self._status


def get_settings(self):
    return self._settings


def get_sens(self):
    return self._sens_num
