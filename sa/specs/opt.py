"""Reference formulation of bounds, scaling, nonlinear constraints, scenario tree and the solver call."""
import copy
import itertools
import os
import subprocess
from dataclasses import asdict
import numpy as np
import casadi.tools as castools
import do_mpc


# ------------------------------------------------------------------ bounds and scaling
def bounds_get(self, ind):
    assert isinstance(ind, tuple)
    assert len(ind) >= 3
    assert ind[0] in ('lower', 'upper')
    assert ind[1] in ('_x', '_u', '_z', '_p_est')
    if ind[0] == 'lower':
        s = getattr(self, ind[1] + '_lb')
    elif ind[0] == 'upper':
        s = getattr(self, ind[1] + '_ub')
    assert ind[2] in s.keys()
    return s[ind[2:]]


def bounds_set(self, ind, val):
    assert isinstance(ind, tuple)
    assert len(ind) >= 3
    assert ind[0] in ('lower', 'upper')
    assert ind[1] in ('_x', '_u', '_z', '_p_est')
    if ind[0] == 'lower':
        s = getattr(self, ind[1] + '_lb')
    elif ind[0] == 'upper':
        s = getattr(self, ind[1] + '_ub')
    assert ind[2] in s.keys()
    s[ind[2:]] = val
    if self.flags['prepare_nlp']:
        self._update_bounds()


def scaling_get(self, ind):
    assert isinstance(ind, tuple)
    assert len(ind) >= 2
    assert ind[0] in ('_x', '_u', '_z', '_p_est')
    s = getattr(self, ind[0] + '_scaling')
    assert ind[1] in s.keys()
    return s[ind[1:]]


def scaling_set(self, ind, val):
    assert not self.flags['setup']
    assert isinstance(ind, tuple)
    assert len(ind) >= 2
    assert ind[0] in ('_x', '_u', '_z', '_p_est')
    s = getattr(self, ind[0] + '_scaling')
    assert ind[1] in s.keys()
    s[ind[1:]] = val


def terminal_get(self, ind):
    assert isinstance(ind, tuple)
    assert len(ind) >= 2
    assert ind[0] in ('lower', 'upper')
    if ind[0] == 'lower':
        s = self._x_terminal_lb
    elif ind[0] == 'upper':
        s = self._x_terminal_ub
    assert ind[1] in s.keys()
    return s[ind[1:]]


def terminal_set(self, ind, val):
    assert isinstance(ind, tuple)
    assert len(ind) >= 2
    assert ind[0] in ('lower', 'upper')
    if ind[0] == 'lower':
        q = '_x_terminal_lb'
    elif ind[0] == 'upper':
        q = '_x_terminal_ub'
    s = getattr(self, q)
    assert ind[1] in s.keys()
    if s is self._x_lb or s is self._x_ub:
        # shared with the state bounds: detach first
        s = self.model._x(s)
        setattr(self, q, s)
    s[ind[1:]] = val
    if self.flags['prepare_nlp']:
        self._update_bounds()


def terminal_set2(self, ind, val):
    assert isinstance(ind, tuple)
    assert len(ind) >= 2
    assert ind[0] in ('lower', 'upper')
    if ind[0] == 'lower':
        q = '_x_terminal_lb'
    elif ind[0] == 'upper':
        q = '_x_terminal_ub'
    s = getattr(self, q)
    assert ind[1] in s.keys()
    if s is self._x_lb or s is self._x_ub:
        # shared with the state bounds: detach first
        s = copy.deepcopy(s)
        setattr(self, q, s)
    s[ind[1:]] = val
    if self.flags['prepare_nlp']:
        self._update_bounds()


def lb_get(self, ind):
    return self._lb_opt_x[ind]


def ub_get(self, ind):
    return self._ub_opt_x[ind]


def lb_set(self, ind, val):
    self._lb_opt_x[ind] = val
    c = self._lb_opt_x.f[ind]
    self._lb_opt_x.master[c] = self._lb_opt_x.master[c]/self.opt_x_scaling.master[c]


def ub_set(self, ind, val):
    self._ub_opt_x[ind] = val
    c = self._ub_opt_x.f[ind]
    self._ub_opt_x.master[c] = self._ub_opt_x.master[c]/self.opt_x_scaling.master[c]


def mpc_update_bounds(self):
    N = self._settings.n_horizon
    if self._settings.cons_check_colloc_points:
        self.lb_opt_x['_x', 1:N] = self._x_lb
        self.ub_opt_x['_x', 1:N] = self._x_ub
        self.lb_opt_x['_z'] = self._z_lb
        self.ub_opt_x['_z'] = self._z_ub
    else:
        self.lb_opt_x['_x', 1:N, :, -1] = self._x_lb
        self.ub_opt_x['_x', 1:N, :, -1] = self._x_ub
        self.lb_opt_x['_z', :, :, 0] = self._z_lb
        self.ub_opt_x['_z', :, :, 0] = self._z_ub
    self.lb_opt_x['_x', N, :, -1] = self._x_terminal_lb
    self.ub_opt_x['_x', N, :, -1] = self._x_terminal_ub
    self.lb_opt_x['_u'] = self._u_lb
    self.ub_opt_x['_u'] = self._u_ub
    self.lb_opt_x['_eps'] = self._eps_lb
    self.ub_opt_x['_eps'] = self._eps_ub


def mpc_interior_last(self):
    N = self._settings.n_horizon
    self._lb_opt_x['_x', N, :, :-1] = self._x_lb
    self._ub_opt_x['_x', N, :, :-1] = self._x_ub


def mhe_update_bounds(self):
    S = self.settings
    N = S.n_horizon
    if S.cons_check_colloc_points:
        self.lb_opt_x['_x'] = self._x_lb
        self.ub_opt_x['_x'] = self._x_ub
        self.lb_opt_x['_z'] = self._z_lb
        self.ub_opt_x['_z'] = self._z_ub
    else:
        self.lb_opt_x['_x', 1:, -1] = self._x_lb
        self.ub_opt_x['_x', 1:, -1] = self._x_ub
        self.lb_opt_x['_z', :, 0] = self._z_lb
        self.ub_opt_x['_z', :, 0] = self._z_ub
    self.lb_opt_x['_u'] = self._u_lb
    self.ub_opt_x['_u'] = self._u_ub
    self.lb_opt_x['_eps'] = self._eps_lb
    self.ub_opt_x['_eps'] = self._eps_ub
    self.lb_opt_x['_p_est'] = self._p_est_lb
    self.ub_opt_x['_p_est'] = self._p_est_ub


# ------------------------------------------------------------------ nonlinear constraints
def set_nl_cons(self, expr_name, expr, ub=np.inf, soft_constraint=False, penalty_term_cons=1, maximum_violation=np.inf):
    assert self.flags['setup'] == False
    assert isinstance(expr_name, str)
    assert isinstance(expr, (castools.SX, castools.MX))
    assert isinstance(ub, (int, float, np.ndarray))
    assert isinstance(soft_constraint, bool)
    if soft_constraint == True:
        self.slack_vars_list.extend([{'slack_name': expr_name, 'shape': expr.shape, 'ub': maximum_violation, 'penalty': penalty_term_cons}])
    self.nl_cons_list.extend([{'expr_name': expr_name, 'expr': expr, 'ub': ub}])
    return expr


def setup_nl_cons(self, nl_cons_input):
    eps = self.model.sv.sym_struct([castools.entry(s['slack_name'], shape=s['shape']) for s in self.slack_vars_list])
    self._eps = eps
    self._nl_cons = self.model.sv.struct([castools.entry(c['expr_name'], expr=c['expr']) for c in self.nl_cons_list])
    self.n_eps = eps.shape[0]
    self._eps_lb = eps(0)
    self._eps_ub = eps(np.inf)
    cost = 0
    for s in self.slack_vars_list:
        self._eps_ub[s['slack_name']] = s['ub']
        self._nl_cons[s['slack_name']] -= eps[s['slack_name']]
        cost += castools.sum1(s['penalty']*eps[s['slack_name']])
    self.slack_cost = cost
    self.epsterm_fun = castools.Function('epsterm', [eps], [cost])
    nl_cons_input += [eps]
    self._nl_cons_fun = castools.Function('nl_cons_fun', nl_cons_input, [self._nl_cons])
    self._nl_cons_ub = self._nl_cons(np.inf)
    self._nl_cons_lb = self._nl_cons(-np.inf)
    for c in self.nl_cons_list:
        self._nl_cons_ub[c['expr_name']] = c['ub']


# ------------------------------------------------------------------ solver
def solve(self):
    assert self.flags['setup'] == True
    if self.flags['initial_run']:
        r = self.S(x0=self._opt_x_num, lbx=self._lb_opt_x, ubx=self._ub_opt_x, lbg=self._nlp_cons_lb, ubg=self._nlp_cons_ub, p=self._opt_p_num, lam_x0=self.lam_x_num, lam_g0=self.lam_g_num)
    else:
        r = self.S(x0=self._opt_x_num, lbx=self._lb_opt_x, ubx=self._ub_opt_x, lbg=self._nlp_cons_lb, ubg=self._nlp_cons_ub, p=self._opt_p_num)
    self._opt_x_num.master = r['x']
    self.opt_x_num_unscaled.master = r['x']*self.opt_x_scaling
    self.opt_g_num = r['g']
    self.lam_g_num = r['lam_g']
    self.lam_x_num = r['lam_x']
    self.solver_stats = self.S.stats()
    self.opt_aux_num.master = self.opt_aux_expression_fun(self._opt_x_num, self._opt_p_num)
    self.flags['initial_run'] = True


def mpc_initial_guess(self):
    assert self.flags['setup'] == True
    self._opt_x_num['_x'] = self._x0/self._x_scaling
    self._opt_x_num['_u'] = self._u0/self._u_scaling
    self._opt_x_num['_z'] = self._z0/self._z_scaling
    self.flags['set_initial_guess'] = True


def mhe_initial_guess(self):
    assert self.flags['setup'] == True
    self._opt_x_num['_x'] = self._x0/self._x_scaling
    self._opt_x_num['_u'] = self._u0/self._u_scaling
    self._opt_x_num['_z'] = self._z0/self._z_scaling
    self._opt_x_num['_p_est'] = self._p_est0/self._p_est_scaling
    self.flags['set_initial_guess'] = True


# ------------------------------------------------------------------ scenario tree
def scenario_tree(self):
    nk, nr, nc = self.settings.n_horizon, self.settings.n_robust, self.n_combinations
    n_branches = [nc if k < nr else 1 for k in range(nk)]
    n_scenarios = [nc**min(k, nr) for k in range(nk + 1)]
    child = (-1*np.ones((nk, n_scenarios[-1], n_branches[0]))).astype(int)
    parent = (-1*np.ones((nk + 1, n_scenarios[-1]))).astype(int)
    offset = (-1*np.ones((nk, n_scenarios[-1]))).astype(int)
    node = np.zeros((nk + 1, n_scenarios[-1])).astype(int)
    for k in range(nk + 1):
        for s in range(n_scenarios[-1]):
            node[k, s] = s // (n_scenarios[-1] // n_scenarios[k])
    self.scenario_tree = {'structure_scenario': node, 'n_branches': n_branches, 'n_scenarios': n_scenarios, 'parent_scenario': parent, 'branch_offset': offset}
    for k in range(nk):
        for s in range(n_scenarios[k]):
            for b in range(n_branches[k]):
                c = s*n_branches[k] + b
                child[k, s, b] = c
                parent[k + 1, c] = s
            if nr == 0:
                offset[k, s] = 0
            elif k < nr:
                offset[k, s] = 0
            else:
                offset[k, s] = s % n_branches[0]
    return n_branches, n_scenarios, child, parent, offset


def get_p_template(self, n_combinations):
    self.n_combinations = n_combinations
    return self.model.sv.sym_struct([castools.entry('_p', repeat=n_combinations, struct=self.model._p)])(0)


def set_uncertainty_values(self, **kwargs):
    if not kwargs:
        return None
    names = [i for i in kwargs.keys()]
    assert set(names).issubset(set(self.model.p.keys()))
    p_scenario = list(itertools.product(*kwargs.values()))
    p_template = self.get_p_template(len(p_scenario))
    p_template['_p', :, names] = p_scenario

    def p_fun(t_now):
        return p_template
    self.set_p_fun(p_fun)


def set_p_fun_mpc(self, p_fun):
    assert self.get_p_template(self.n_combinations).labels() == p_fun(0).labels()
    self.flags['set_p_fun'] = True
    self.p_fun = p_fun


def mpc_create_nlp(self):
    g = castools.vertcat(*self._nlp_cons)
    lb = castools.vertcat(*self._nlp_cons_lb)
    ub = castools.vertcat(*self._nlp_cons_ub)
    self._nlp_cons = g
    self._nlp_cons_lb = lb
    self._nlp_cons_ub = ub
    self.n_opt_lagr = g.shape[0]
    self.nlp = {'x': castools.vertcat(self._opt_x), 'f': self._nlp_obj, 'g': g, 'p': castools.vertcat(self._opt_p)}
    self.S = castools.nlpsol('S', 'ipopt', self.nlp, self._settings.nlpsol_opts)
    meta = {k: getattr(self._settings, k) for k in asdict(self._settings).keys()}
    meta['structure_scenario'] = self.scenario_tree['structure_scenario']
    self.data.set_meta(**meta)
    self.opt_aux_expression_fun = castools.Function('aux', [self._opt_x, self._opt_p], [self._opt_aux])
    self._prepare_data()
    self.flags['setup'] = True


def mhe_create_nlp(self):
    g = castools.vertcat(*self._nlp_cons)
    lb = castools.vertcat(*self._nlp_cons_lb)
    ub = castools.vertcat(*self._nlp_cons_ub)
    self._nlp_cons = g
    self._nlp_cons_lb = lb
    self._nlp_cons_ub = ub
    self.n_opt_lagr = g.shape[0]
    self.nlp = {'x': castools.vertcat(self._opt_x), 'f': self._nlp_obj, 'g': g, 'p': castools.vertcat(self._opt_p)}
    self.S = castools.nlpsol('S', 'ipopt', self.nlp, self.settings.nlpsol_opts)
    self.data.set_meta(**{k: getattr(self.settings, k) for k in asdict(self.settings).keys()})
    self.opt_aux_expression_fun = castools.Function('aux', [self._opt_x, self._opt_p], [self._opt_aux])
    self._prepare_data()
    self.flags['setup'] = True


STATS = ['iter_count', 'iterations', 'n_call_S', 'n_call_callback_fun', 'n_call_nlp_f', 'n_call_nlp_g', 'n_call_nlp_grad', 'n_call_nlp_grad_f', 'n_call_nlp_hess_l', 'n_call_nlp_jac_g',
         'return_status', 'success', 't_proc_S', 't_proc_callback_fun', 't_proc_nlp_f', 't_proc_nlp_g', 't_proc_nlp_grad', 't_proc_nlp_grad_f', 't_proc_nlp_hess_l', 't_proc_nlp_jac_g',
         't_wall_total', 't_wall_callback_fun', 't_wall_nlp_f', 't_wall_nlp_g', 't_wall_nlp_grad', 't_wall_nlp_grad_f', 't_wall_nlp_hess_l', 't_wall_nlp_jac_g']


def prepare_data(self):
    self.data.data_fields.update({'_eps': self.n_eps})
    self.data.data_fields.update({'opt_p_num': self.n_opt_p})
    self.data.opt_p = self.opt_p
    if self.settings.store_full_solution:
        self.data.data_fields.update({'_opt_x_num': self.n_opt_x})
        self.data.data_fields.update({'_opt_aux_num': self.n_opt_aux})
        self.data.opt_x = self.opt_x
        self.data.opt_aux = self.aux_struct
    if self.settings.store_lagr_multiplier:
        self.data.data_fields.update({'_lam_g_num': self.n_opt_lagr})
    for s in self.settings.store_solver_stats:
        assert s in ('iter_count', 'iterations', 'n_call_S', 'n_call_callback_fun', 'n_call_nlp_f', 'n_call_nlp_g', 'n_call_nlp_grad', 'n_call_nlp_grad_f', 'n_call_nlp_hess_l',
                     'n_call_nlp_jac_g', 'return_status', 'success', 't_proc_S', 't_proc_callback_fun', 't_proc_nlp_f', 't_proc_nlp_g', 't_proc_nlp_grad', 't_proc_nlp_grad_f',
                     't_proc_nlp_hess_l', 't_proc_nlp_jac_g', 't_wall_total', 't_wall_callback_fun', 't_wall_nlp_f', 't_wall_nlp_g', 't_wall_nlp_grad', 't_wall_nlp_grad_f',
                     't_wall_nlp_hess_l', 't_wall_nlp_jac_g')
        self.data.data_fields.update({s: 1})
    self.data.init_storage()


def compile_nlp(self, overwrite=False, cname='nlp.c', libname='nlp.so', compiler_command=None):
    assert self.flags['setup']
    assert castools.sys.platform in ('darwin', 'linux', 'linux2')
    command = compiler_command
    if command is None:
        command = "gcc -fPIC -shared -O1 {} -o {}".format(cname, libname)
    if overwrite or not os.path.isfile(libname):
        self.S.generate_dependencies(cname)
        subprocess.Popen(command, shell=True).wait()
    self.S = castools.nlpsol('solver_compiled', 'ipopt', libname, self.settings.nlpsol_opts)


def get_tvp_template_opt(self):
    return self.model.sv.sym_struct([castools.entry('_tvp', repeat=self.settings.n_horizon + 1, struct=self.model._tvp)])(0)


def set_tvp_fun_opt(self, tvp_fun):
    assert isinstance(tvp_fun(0), castools.structure3.DMStruct)
    assert self.get_tvp_template().labels() == tvp_fun(0).labels()
    self.flags['set_tvp_fun'] = True
    self.tvp_fun = tvp_fun


def nlp_get(self):
    return self._nlp_obj
