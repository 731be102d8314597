"""Reference formulation of the two optimisation problems (what must be summed, what must be constrained, between which limits)."""
import numpy as np
import casadi.tools as castools


def mpc_problem(self):
    S = self._settings
    N = S.n_horizon
    self._setup_nl_cons(self.model['x', 'u', 'z', 'tvp', 'p'])
    self._check_validity()
    step, n_col = self._setup_discretization()
    n_branches, n_scenarios, child, parent, offset = self._setup_scenario_tree()
    n_max = self.n_combinations**S.n_robust
    n_eps = 1 if S.nl_cons_single_slack else N
    opt_x = self.model.sv.sym_struct([
        castools.entry('_x', repeat=[N + 1, n_max, 1 + n_col], struct=self.model._x),
        castools.entry('_z', repeat=[N, n_max, max(n_col, 1)], struct=self.model._z),
        castools.entry('_u', repeat=[N, 1 if S.open_loop else n_max], struct=self.model._u),
        castools.entry('_eps', repeat=[n_eps, n_max], struct=self._eps)])
    opt_p = self.model.sv.sym_struct([
        castools.entry('_x0', struct=self.model._x),
        castools.entry('_tvp', repeat=N + 1, struct=self.model._tvp),
        castools.entry('_p', repeat=self.n_combinations, struct=self.model._p),
        castools.entry('_u_prev', struct=self.model._u)])
    scaling = opt_x(1)
    scaling['_x'] = self._x_scaling
    scaling['_z'] = self._z_scaling
    scaling['_u'] = self._u_scaling
    phys = opt_x(opt_x.cat*scaling)
    w = self.model._w(0)
    aux = []
    obj = castools.DM(0)
    g, lb, ub = [], [], []
    g.append(opt_x['_x', 0, 0, -1] - opt_p['_x0']/self._x_scaling)
    lb.append(np.zeros((self.model.n_x, 1)))
    ub.append(np.zeros((self.model.n_x, 1)))
    for k in range(N):
        for s in range(n_scenarios[k]):
            su = 0 if S.open_loop else s
            for b in range(n_branches[k]):
                c = child[k][s][b]
                p = opt_p['_p', b + offset[k][s]]
                tvp = opt_p['_tvp', k]
                x, u = phys['_x', k, s, -1], phys['_u', k, su]
                eps = phys['_eps', min(k, n_eps - 1), s]
                z = phys['_z', k, c, -1]
                gk, xf = step(opt_x['_x', k, s, -1], castools.vertcat(*opt_x['_x', k + 1, c, :-1]), opt_x['_u', k, su],
                              castools.vertcat(*opt_x['_z', k, c]), tvp, p, w)
                g.append(gk)
                lb.append(np.zeros(gk.shape[0]))
                ub.append(np.zeros(gk.shape[0]))
                g.append(xf - opt_x['_x', k + 1, c, -1])
                lb.append(np.zeros((self.model.n_x, 1)))
                ub.append(np.zeros((self.model.n_x, 1)))
                if S.nl_cons_check_colloc_points and n_col > 0:
                    for i in range(n_col):
                        xi = x if i == 0 else phys['_x', k + 1, c, i - 1]
                        g.append(self._nl_cons_fun(xi, u, phys['_z', k, c, i], tvp, p, eps))
                        lb.append(self._nl_cons_lb)
                        ub.append(self._nl_cons_ub)
                else:
                    g.append(self._nl_cons_fun(x, u, phys['_z', k, c, 0], tvp, p, eps))
                    lb.append(self._nl_cons_lb)
                    ub.append(self._nl_cons_ub)
                omega = 1./n_scenarios[k + 1]
                obj += omega*self.lterm_fun(x, u, z, tvp, p)
                obj += self.epsterm_fun(eps)
                if k == N - 1:
                    obj += omega*self.mterm_fun(phys['_x', k + 1, c, -1], opt_p['_tvp', k + 1], p)
                if self.flags['rterm_fun'] == True:
                    if k == 0:
                        obj += self.rterm_fun(x, u, opt_p['_u_prev'], z, tvp, p)
                    else:
                        obj += self.rterm_fun(x, u, phys['_u', k - 1, parent[k][su]], z, tvp, p)
                else:
                    if k == 0:
                        obj += self.rterm_factor.cat.T@((opt_x['_u', k, su] - opt_p['_u_prev']/self._u_scaling)**2)
                    else:
                        obj += self.rterm_factor.cat.T@((opt_x['_u', k, su] - opt_x['_u', k - 1, parent[k][su]])**2)
    return {'x': opt_x, 'p': opt_p, 'f': obj, 'g': castools.vertcat(*g), 'lb': castools.vertcat(*lb), 'ub': castools.vertcat(*ub)}


def mhe_problem(self):
    S = self.settings
    N = S.n_horizon
    self._setup_nl_cons(self.model['x', 'u', 'z', 'tvp'] + [self._p_est, self._p_set])
    self._check_validity()
    self._p_scaling = self.model._p(self._p_cat_fun(self._p_est_scaling, self._p_set_scaling))
    step, n_col = self._setup_discretization()
    n_eps = 1 if S.nl_cons_single_slack else N
    opt_x = self.model.sv.sym_struct([
        castools.entry('_x', repeat=[N + 1, 1 + n_col], struct=self.model._x),
        castools.entry('_z', repeat=[N, max(n_col, 1)], struct=self.model._z),
        castools.entry('_u', repeat=[N], struct=self.model._u),
        castools.entry('_w', repeat=[N], struct=self.model._w),
        castools.entry('_v', repeat=[N], struct=self.model._v),
        castools.entry('_eps', repeat=[n_eps], struct=self._eps),
        castools.entry('_p_est', struct=self._p_est)])
    opt_p = self.model.sv.sym_struct([
        castools.entry('_x_prev', struct=self.model._x),
        castools.entry('_p_est_prev', struct=self._p_est_prev),
        castools.entry('_p_set', struct=self._p_set),
        castools.entry('_tvp', repeat=N, struct=self.model._tvp),
        castools.entry('_y_meas', repeat=N, struct=self.model._y)])
    scaling = opt_x(1)
    scaling['_x'] = self._x_scaling
    scaling['_z'] = self._z_scaling
    scaling['_u'] = self._u_scaling
    scaling['_p_est'] = self._p_est_scaling
    phys = opt_x(opt_x.cat*scaling)
    p_est, p_set = phys['_p_est'], opt_p['_p_set']
    p = self._p_cat_fun(p_est, p_set)
    g, lb, ub = [], [], []
    obj = castools.DM(0)
    obj += self.arrival_cost_fun(phys['_x', 0, -1], opt_p['_x_prev'], p_est, opt_p['_p_est_prev'], p_set)
    for k in range(N):
        tvp = opt_p['_tvp', k]
        x, u = phys['_x', k, -1], phys['_u', k]
        eps = phys['_eps', min(k, n_eps - 1)]
        gk, xf = step(opt_x['_x', k, -1], castools.vertcat(*opt_x['_x', k + 1, :-1]), opt_x['_u', k], castools.vertcat(*opt_x['_z', k]), tvp,
                      self._p_cat_fun(opt_x['_p_est'], opt_p['_p_set']/self._p_set_scaling), opt_x['_w', k])
        g.append(gk)
        lb.append(np.zeros(gk.shape[0]))
        ub.append(np.zeros(gk.shape[0]))
        g.append(xf - opt_x['_x', k + 1, -1])
        lb.append(np.zeros((self.model.n_x, 1)))
        ub.append(np.zeros((self.model.n_x, 1)))
        g.append(self.model._meas_fun(phys['_x', k + 1, -1], u, phys['_z', k, 0], tvp, p, opt_x['_v', k]) - opt_p['_y_meas', k])
        lb.append(np.zeros((self.model.n_y, 1)))
        ub.append(np.zeros((self.model.n_y, 1)))
        if S.nl_cons_check_colloc_points and n_col > 0:
            for i in range(n_col):
                xi = x if i == 0 else phys['_x', k + 1, i - 1]
                g.append(self._nl_cons_fun(xi, u, phys['_z', k, i], tvp, p_est, p_set, eps))
                lb.append(self._nl_cons_lb)
                ub.append(self._nl_cons_ub)
        else:
            g.append(self._nl_cons_fun(x, u, phys['_z', k, 0], tvp, p_est, p_set, eps))
            lb.append(self._nl_cons_lb)
            ub.append(self._nl_cons_ub)
        obj += self.stage_cost_fun(opt_x['_w', k], opt_x['_v', k], tvp, p)
        obj += self.epsterm_fun(eps)
    return {'x': opt_x, 'p': opt_p, 'f': obj, 'g': castools.vertcat(*g), 'lb': castools.vertcat(*lb), 'ub': castools.vertcat(*ub)}
