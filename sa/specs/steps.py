"""Reference formulation of one control / estimation / simulation step."""
import numpy as np
import casadi.tools as castools


def mpc_make_step(self, x0):
    assert self.flags['setup']
    # every quantity handed to the problem belongs to the current time; the result of the first stage is returned
    t0 = self._t0
    tvp0 = self.tvp_fun(t0)
    p0 = self.p_fun(t0)
    assert isinstance(x0, (np.ndarray, castools.DM, castools.structure3.DMStruct))
    if not isinstance(x0, (np.ndarray, castools.DM)):
        x0 = x0.cat
    assert np.prod(x0.shape) == self.model.n_x
    self._opt_p_num['_x0'] = x0
    self._opt_p_num['_u_prev'] = self._u0
    self._opt_p_num['_tvp'] = tvp0['_tvp']
    self._opt_p_num['_p'] = p0['_p']
    self.solve()
    u0 = self._opt_x_num['_u', 0, 0]*self._u_scaling
    z0 = self._opt_x_num['_z', 0, 0, 0]*self._z_scaling
    self.data.update(_x=x0)
    self.data.update(_u=u0)
    self.data.update(_z=z0)
    self.data.update(_tvp=tvp0['_tvp', 0])
    self.data.update(_p=p0['_p', 0])
    self.data.update(_time=t0)
    self.data.update(_aux=self.opt_aux_num['_aux', 0, 0])
    self.data.update(opt_p_num=self._opt_p_num)
    if self._settings.store_full_solution == True:
        self.data.update(_opt_x_num=self.opt_x_num_unscaled)
        self.data.update(_opt_aux_num=self.opt_aux_num)
    if self._settings.store_lagr_multiplier == True:
        self.data.update(_lam_g_num=self.lam_g_num)
    if len(self._settings.store_solver_stats) > 0:
        self.data.update(**{k: v for k, v in self.solver_stats.items() if k in self._settings.store_solver_stats})
    self._t0 = t0 + self._settings.t_step
    self._x0.master = x0
    self._u0.master = u0
    self._z0.master = z0
    return u0.full()


def mhe_make_step(self, y0):
    assert self.flags['setup']
    assert isinstance(y0, (np.ndarray, castools.DM, castools.structure3.DMStruct))
    if not isinstance(y0, (np.ndarray, castools.DM)):
        y0 = y0.cat
    assert np.prod(y0.shape) == self.model.n_y
    self.data.update(_y=y0)
    t0 = self._t0
    x0 = self._x0
    p_est0 = self._p_est0
    tvp0 = self.tvp_fun(t0)
    p_set0 = self.p_fun(t0)
    y = self.y_fun(t0)
    self._opt_p_num['_x_prev'] = self._opt_x_num['_x', 1, -1]*self._x_scaling
    self._opt_p_num['_p_est_prev'] = p_est0
    self._opt_p_num['_p_set'] = p_set0
    self._opt_p_num['_tvp'] = tvp0['_tvp']
    self._opt_p_num['_y_meas'] = y['y_meas']
    self.solve()
    x_next = self._opt_x_num['_x', -1, -1]*self._x_scaling
    p_est_next = self._opt_x_num['_p_est']*self._p_est_scaling
    u0 = self._opt_x_num['_u', -1]*self._u_scaling
    z0 = self._opt_x_num['_z', -1, -1]*self._z_scaling
    self.data.update(_x=x0)
    self.data.update(_u=u0)
    self.data.update(_z=z0)
    self.data.update(_p=self._p_cat_fun(p_est0, p_set0))
    self.data.update(_tvp=tvp0['_tvp', -1])
    self.data.update(_time=t0)
    self.data.update(_aux=self.opt_aux_num['_aux', -1])
    self.data.update(opt_p_num=self._opt_p_num)
    if self.settings.store_full_solution == True:
        self.data.update(_opt_x_num=self.opt_x_num_unscaled)
        self.data.update(_opt_aux_num=self.opt_aux_num)
    if self.settings.store_lagr_multiplier == True:
        self.data.update(_lam_g_num=self.lam_g_num)
    if len(self.settings.store_solver_stats) > 0:
        self.data.update(**{k: v for k, v in self.solver_stats.items() if k in self.settings.store_solver_stats})
    self._t0 = t0 + self.settings.t_step
    self._x0.master = x_next
    self._p_est0.master = p_est_next
    self._u0.master = u0
    self._z0.master = z0
    return x_next.full()


def sim_simulate(self):
    assert self.flags['setup'] == True
    if self.model.model_type == 'discrete':
        if self.model.n_z > 0:
            # the algebraic equations hold for the current state and input
            r = self.discrete_dae_solver(x0=self.sim_z_num, lbg=0, ubg=0, p=castools.vertcat(self.sim_x_num, self.sim_p_num))
            self.sim_z_num.master = r['x']
        x_new = self.simulator(self.sim_x_num, self.sim_z_num, self.sim_p_num)
    elif self.model.model_type == 'continuous':
        r = self.simulator(x0=self.sim_x_num, z0=self.sim_z_num, p=self.sim_p_num)
        x_new = r['xf']
        self.sim_z_num.master = r['zf']
    else:
        raise ValueError()
    self.sim_aux_num.master = self.sim_aux_expression_fun(x_new, self.sim_z_num, self.sim_p_num)
    return x_new


def sim_make_step(self, u0=None, v0=None, w0=None):
    if u0 is None:
        assert self.model.n_u == 0
        u0 = self.model._u(0)
    assert self.flags['setup'] == True
    assert isinstance(u0, (np.ndarray, castools.DM, castools.structure3.DMStruct))
    assert u0.shape == self.model._u.shape
    if w0 is None:
        w0 = self.model._w(0)
    else:
        assert isinstance(w0, (np.ndarray, castools.DM, castools.structure3.DMStruct))
        assert w0.shape == self.model._w.shape
    if v0 is None:
        v0 = self.model._v(0)
    else:
        assert isinstance(v0, (np.ndarray, castools.DM, castools.structure3.DMStruct))
        assert v0.shape == self.model._v.shape
    t0 = self._t0
    tvp0 = self.tvp_fun(t0)
    p0 = self.p_fun(t0)
    x0 = self._x0
    z0 = self.sim_z_num['_z']
    self.sim_x_num['_x'] = x0
    self.sim_p_num['_u'] = u0
    self.sim_p_num['_p'] = p0
    self.sim_p_num['_tvp'] = tvp0
    self.sim_p_num['_w'] = w0
    aux0 = self.sim_aux_expression_fun(x0, z0, self.sim_p_num)
    x_next = self.simulate()
    z_next = self.sim_z_num['_z']
    y_next = self.model._meas_fun(x_next, u0, z_next, tvp0, p0, v0)
    self.data.update(_x=x0)
    self.data.update(_u=u0)
    self.data.update(_z=z0)
    self.data.update(_tvp=tvp0)
    self.data.update(_p=p0)
    self.data.update(_y=y_next)
    self.data.update(_aux=aux0)
    self.data.update(_time=t0)
    self._x0.master = x_next
    self._u0.master = u0
    self._t0 = t0 + self._settings.t_step
    return y_next.full()
