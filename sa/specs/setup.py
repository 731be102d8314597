"""Reference formulation of setup validation, order of use, settings, templates and resets."""
import copy
import numpy as np
import casadi.tools as castools
import warnings
import do_mpc


# ------------------------------------------------------------------ mandatory settings
def need_t_step(self):
    if self.t_step is None:
        raise ValueError


def need_both(self):
    if self.t_step is None or self.n_horizon is None:
        raise ValueError


# ------------------------------------------------------------------ validation before the problem is built
def mpc_check(self):
    m = self.model
    if not self.flags['set_objective']:
        raise Exception
    if not self.flags['set_tvp_fun'] and m._tvp.size > 0:
        raise Exception
    if not self.flags['set_p_fun'] and m._p.size > 0:
        raise Exception
    if np.any(self._x_lb.cat > self._x_ub.cat) or np.any(self._u_lb.cat > self._u_ub.cat) or np.any(self._z_lb.cat > self._z_ub.cat):
        raise Exception
    if np.all(self._x_terminal_ub.cat == np.inf) and self._settings.use_terminal_bounds:
        self._x_terminal_ub = self._x_ub
    if np.all(self._x_terminal_lb.cat == -np.inf) and self._settings.use_terminal_bounds:
        self._x_terminal_lb = self._x_lb
    if 'tvp_fun' not in self.__dict__:
        tvp = self.get_tvp_template()
        self.set_tvp_fun(lambda t: tvp)
    if 'p_fun' not in self.__dict__:
        p = self.get_p_template(1)
        self.set_p_fun(lambda t: p)


def mhe_check(self):
    m = self.model
    if not self.flags['set_objective']:
        raise Exception
    if not self.flags['set_tvp_fun'] and m._tvp.size > 0:
        raise Exception
    if not self.flags['set_p_fun'] and self._p_set.size > 0:
        raise Exception
    if np.any(self._x_lb.cat > self._x_ub.cat) or np.any(self._u_lb.cat > self._u_ub.cat) or np.any(self._z_lb.cat > self._z_ub.cat) or np.any(self._p_est_lb.cat > self._p_est_ub.cat):
        raise Exception
    if 'tvp_fun' not in self.__dict__:
        tvp = self.get_tvp_template()
        self.set_tvp_fun(lambda t: tvp)
    if 'p_fun' not in self.__dict__:
        p = self.get_p_template()
        self.set_p_fun(lambda t: p)
    if not self.flags['set_y_fun'] and not self.settings.meas_from_data:
        raise Exception


def mhe_default_window(self):
    if not self.flags['set_y_fun'] and self.settings.meas_from_data:
        win = self.get_y_template()

        def y_fun(t_now):
            n = min(self.data._y.shape[0], self.settings.n_horizon)
            for k in range(-n, 0):
                win['y_meas', k] = self.data._y[k]
            for k in range(self.settings.n_horizon - n):
                win['y_meas', k] = self.data._y[-n]
            return win
        self.set_y_fun(y_fun)


def sim_check(self):
    if not self.flags['set_tvp_fun'] and self.model._tvp.size > 0:
        raise Exception
    if not self.flags['set_p_fun'] and self.model._p.size > 0:
        raise Exception
    if self._settings.t_step is None:
        raise ValueError
    if not self.flags['set_tvp_fun']:
        tvp = self.get_tvp_template()
        self.set_tvp_fun(lambda t: tvp)
    if not self.flags['set_p_fun']:
        p = self.get_p_template()
        self.set_p_fun(lambda t: p)


def mpc_checks(self):
    self._settings.check_for_mandatory_settings()
    self._check_validity()


def mhe_checks(self):
    self.settings.check_for_mandatory_settings()
    self._check_validity()


def sim_checks(self):
    self._check_validity()


# ------------------------------------------------------------------ cost functions
def mpc_objective(self, mterm=None, lterm=None):
    if self.flags['setup']:
        raise Exception
    m = castools.DM(0) if mterm is None else mterm
    l = castools.DM(0) if lterm is None else lterm
    if m.shape != (1, 1) or l.shape != (1, 1):
        raise Exception
    if not isinstance(m, (castools.DM, castools.SX, castools.MX)) or not isinstance(l, (castools.DM, castools.SX, castools.MX)):
        raise Exception
    x, u, z, tvp, p = self.model['x', 'u', 'z', 'tvp', 'p']
    self.mterm = m
    self.lterm = l
    self.mterm_fun = castools.Function('mterm', [x, tvp, p], [m])
    self.lterm_fun = castools.Function('lterm', [x, u, z, tvp, p], [l])
    self.flags['set_objective'] = True


def mpc_rterm(self, rterm=None, **kwargs):
    if self.flags['setup']:
        raise Exception
    if rterm is not None:
        if rterm.shape != (1, 1) or not isinstance(rterm, (castools.DM, castools.SX, castools.MX)):
            raise Exception
        x, u, z, tvp, p = self.model['x', 'u', 'z', 'tvp', 'p']
        self.rterm_fun = castools.Function('rterm', [x, u, self.u_prev, z, tvp, p], [rterm])
        self.flags['rterm_fun'] = True
    else:
        for name, val in kwargs.items():
            if name not in self.model._u.keys():
                raise Exception
            if not isinstance(val, (int, float, np.ndarray)):
                raise Exception
            self.rterm_factor[name] = val
    self.flags['set_rterm'] = True


def mhe_objective(self, stage_cost, arrival_cost):
    if self.flags['setup']:
        raise Exception
    if stage_cost.shape != (1, 1) or arrival_cost.shape != (1, 1):
        raise Exception
    m = self.model
    p = self._p_cat_fun(self._p_est, self._p_set)
    arrival = castools.substitute(arrival_cost, m._p, p.reshape((-1, 1)))
    stage = castools.substitute(stage_cost, self._p_est, castools.vertcat(*[m._p[n] for n in self._p_est.keys()]).reshape((-1, 1)))
    stage = castools.substitute(stage, self._p_set, castools.vertcat(*[m._p[n] for n in self._p_set.keys()]).reshape((-1, 1)))
    self.stage_cost_fun = castools.Function('stage_cost_fun', [self._w, self._v, m._tvp, m._p], [stage])
    self.arrival_cost_fun = castools.Function('arrival_cost_fun', [self._x, self._x_prev, self._p_est, self._p_est_prev, self._p_set], [arrival])
    self.flags['set_objective'] = True


def mhe_default_objective(self, P_x, P_v=None, P_p=None, P_w=None):
    types = (np.ndarray, castools.SX, castools.MX, castools.DM)
    if not isinstance(P_x, types):
        raise Exception
    for w in (P_v, P_p, P_w):
        if w is not None and not isinstance(w, types):
            raise Exception
    m = self.model
    if P_x.shape != (m.n_x, m.n_x):
        raise Exception
    stage = castools.DM(0)
    if P_v is not None:
        if P_v.shape != (m.n_v, m.n_v):
            raise Exception
        stage = stage + self._v.cat.T @ P_v @ self._v.cat
    elif m.n_v != 0:
        raise Exception
    if P_w is not None:
        if P_w.shape != (m.n_w, m.n_w):
            raise Exception
        stage = stage + self._w.cat.T @ P_w @ self._w.cat
    elif m.n_w != 0:
        raise Exception
    dx = self._x.cat - self._x_prev.cat
    arrival = dx.T @ P_x @ dx
    if P_p is not None:
        if P_p.shape != (self.n_p_est, self.n_p_est):
            raise Exception
        dp = self._p_est.cat - self._p_est_prev.cat
        arrival = arrival + dp.T @ P_p @ dp
    elif self.n_p_est != 0:
        raise Exception
    self.set_objective(stage, arrival)


# ------------------------------------------------------------------ fresh objects
def opt_new(self):
    m = self.model
    self.flags = {'prepare_nlp': False, 'setup': False, 'initial_run': False}
    self._x_lb, self._x_ub = m._x(-np.inf), m._x(np.inf)
    self._u_lb, self._u_ub = m._u(-np.inf), m._u(np.inf)
    self._z_lb, self._z_ub = m._z(-np.inf), m._z(np.inf)
    self._x_scaling, self._u_scaling, self._z_scaling, self._p_scaling = m._x(1.0), m._u(1.0), m._z(1.0), m._p(1.0)
    self.nl_cons_list = [{'expr_name': 'default', 'expr': castools.DM([]), 'ub': castools.DM([])}]
    self.slack_vars_list = [{'slack_name': 'default', 'shape': 0, 'ub': castools.DM([]), 'penalty': 0}]
    self.slack_cost = 0


def new_vars(self):
    self._x0, self._u0, self._z0 = self.model._x(0.0), self.model._u(0.0), self.model._z(0.0)
    self._t0 = np.array([0.0])


def mpc_new(self, model, settings=None):
    if not model.flags['setup']:
        raise Exception
    self.model = model
    self._x0, self._u0, self._z0, self._t0 = model._x(0.0), model._u(0.0), model._z(0.0), np.array([0.0])
    self._x_lb, self._x_ub, self._u_lb, self._u_ub, self._z_lb, self._z_ub = model._x(-np.inf), model._x(np.inf), model._u(-np.inf), model._u(np.inf), model._z(-np.inf), model._z(np.inf)
    self._x_scaling, self._u_scaling, self._z_scaling = model._x(1.0), model._u(1.0), model._z(1.0)
    self._x_terminal_lb, self._x_terminal_ub = model._x(-np.inf), model._x(np.inf)
    self.rterm_factor = model._u(0.0)
    self.u_prev = self.copy_struct(model.u)
    self._settings = do_mpc.controller.MPCSettings() if settings is None else settings
    self.data = do_mpc.data.MPCData(model)
    self.data.dtype = 'MPC'
    self._opt_x_num, self._opt_p_num = None, None
    self.flags = {'prepare_nlp': False, 'setup': False, 'initial_run': False, 'set_objective': False, 'rterm_fun': False,
                  'set_rterm': False, 'set_tvp_fun': False, 'set_p_fun': False, 'set_initial_guess': False}


def mhe_new(self, model, p_est_list=[]):
    if not model.flags['setup']:
        raise Exception
    self.model = model
    self._x0, self._u0, self._z0, self._t0 = model._x(0.0), model._u(0.0), model._z(0.0), np.array([0.0])
    self._x_lb, self._x_ub, self._u_lb, self._u_ub, self._z_lb, self._z_ub = model._x(-np.inf), model._x(np.inf), model._u(-np.inf), model._u(np.inf), model._z(-np.inf), model._z(np.inf)
    self._x_scaling, self._u_scaling, self._z_scaling = model._x(1.0), model._u(1.0), model._z(1.0)
    p = model._p
    self._p_est = model.sv.sym_struct([castools.entry('default', shape=(0, 1))] + [castools.entry(n, shape=p[n].shape) for n in p.keys() if n in p_est_list])
    self._p_set = model.sv.sym_struct([castools.entry(n, shape=p[n].shape) for n in p.keys() if n not in p_est_list])
    parts = []
    for n in p.keys():
        if n in self._p_est.keys():
            parts.append(self._p_est[n])
        elif n in self._p_set.keys():
            parts.append(self._p_set[n])
    cat = castools.substitute(castools.vertcat(p), p, castools.vertcat(*parts))
    self._p_cat_fun = castools.Function('p_cat_fun', [self._p_est, self._p_set], [cat])
    self.n_p_est, self.n_p_set = self._p_est.shape[0], self._p_set.shape[0]
    self._p_est_scaling, self._p_set_scaling = self._p_est(1.0), self._p_set(1.0)
    self._p_est_lb, self._p_est_ub = self._p_est(-np.inf), self._p_est(np.inf)
    self._p_est0 = self._p_est(0.0)
    self.settings = do_mpc.estimator.MHESettings()
    self._opt_x_num, self._opt_p_num = None, None
    self.data = do_mpc.data.Data(model)
    self.data.dtype = 'Estimator'
    self._y_meas = model._y
    self._x = model._x
    self._p = model._p
    self._w = model._w
    self._v = model._v
    self.flags = {'prepare_nlp': False, 'setup': False, 'initial_run': False, 'set_tvp_fun': False, 'set_p_fun': False, 'set_y_fun': False,
                  'set_objective': False, 'set_initial_guess': False}


def mhe_prev(self, model, p_est_list=[]):
    # the previous values are symbols of their own: the arrival cost compares them with the current ones
    p = model._p
    self._p_est = model.sv.sym_struct([castools.entry('default', shape=(0, 1))] + [castools.entry(n, shape=p[n].shape) for n in p.keys() if n in p_est_list])
    self._x_prev = copy.copy(model._x)
    self._p_est_prev = copy.copy(self._p_est)


def mhe_prev2(self, model, p_est_list=[]):
    p = model._p
    self._p_est = model.sv.sym_struct([castools.entry('default', shape=(0, 1))] + [castools.entry(n, shape=p[n].shape) for n in p.keys() if n in p_est_list])
    self._x_prev = copy.deepcopy(model._x)
    self._p_est_prev = copy.deepcopy(self._p_est)


def get_private_settings(self):
    return self._settings


def sim_new(self, model):
    if not model.flags['setup']:
        raise Exception
    self.model = model
    self.data = do_mpc.data.Data(model)
    self._settings = do_mpc.simulator.ContinousSimulatorSettings() if model.model_type == 'continuous' else do_mpc.simulator.SimulatorSettings()
    self._x0, self._u0, self._z0 = model._x(0.0), model._u(0.0), model._z(0.0)
    self._t0 = np.array([0.0])
    self.flags = {'set_tvp_fun': False, 'set_p_fun': False, 'setup': False, 'first_step': True}


# ------------------------------------------------------------------ order of use
def obj_get(self):
    if not self.flags['prepare_nlp']:
        raise Exception
    return self._nlp_obj


def obj_set(self, val):
    if not self.flags['prepare_nlp'] or self.flags['setup']:
        raise Exception
    self._nlp_obj = val


def cons_get(self):
    if not self.flags['prepare_nlp']:
        raise Exception
    return self._nlp_cons


def cons_set(self, val):
    if not self.flags['prepare_nlp'] or self.flags['setup']:
        raise Exception
    self._nlp_cons = val


def cons_lb_get(self):
    if not self.flags['prepare_nlp']:
        raise Exception
    return self._nlp_cons_lb


def cons_lb_set(self, val):
    if not self.flags['prepare_nlp']:
        raise Exception
    self._nlp_cons_lb = val


def cons_ub_get(self):
    if not self.flags['prepare_nlp']:
        raise Exception
    return self._nlp_cons_ub


def cons_ub_set(self, val):
    if not self.flags['prepare_nlp']:
        raise Exception
    self._nlp_cons_ub = val


def opt_setup(self):
    self._prepare_nlp()
    self._create_nlp()


def prepare(self):
    self._prepare_nlp()


def create(self):
    self._create_nlp()


def keep_settings(self, val):
    pass


def solve_after_setup(self):
    if not self.flags['setup']:
        raise Exception


def step_after_setup(self, x0):
    if not self.flags['setup']:
        raise Exception


# ------------------------------------------------------------------ settings
def set_param_mpc(self, **kwargs):
    if self.flags['setup']:
        raise Exception
    for key, value in kwargs.items():
        if hasattr(self._settings, key):
            setattr(self._settings, key, value)


def set_param_mhe(self, **kwargs):
    if self.flags['setup']:
        raise Exception
    for key, value in kwargs.items():
        if hasattr(self.settings, key):
            setattr(self.settings, key, value)


def set_param_lqr(self, **kwargs):
    for key, value in kwargs.items():
        if hasattr(self.settings, key):
            setattr(self.settings, key, value)


def quiet(self):
    self.nlpsol_opts.update({'ipopt.print_level': 0, 'ipopt.sb': 'yes', 'print_time': 0})


def linear_solver(self, solver_name='MA27'):
    self.nlpsol_opts['ipopt.linear_solver'] = solver_name


# ------------------------------------------------------------------ reset
def reset_opt(self):
    self.data.init_storage()
    self._t0 = np.array([0.0])


def reset_est(self):
    self.data.init_storage()


def reset_sim(self):
    self.data.init_storage()
    self._t0 = np.array([0.0])
    self.flags['first_step'] = True


# ------------------------------------------------------------------ initial values
def to_struct(self, val, struct):
    if isinstance(val, (float, int)):
        val = np.array([val])
    if np.prod(val.shape) != struct.size:
        raise Exception
    if isinstance(val, (np.ndarray, castools.DM)):
        return struct(castools.DM(val))
    if isinstance(val, castools.structure3.DMStruct):
        return struct(castools.DM(val.cat))
    raise Exception


def x0_get(self):
    return self._x0


def u0_get(self):
    return self._u0


def z0_get(self):
    return self._z0


def t0_get(self):
    return self._t0


def p_est0_get(self):
    return self._p_est0


def x0_set(self, val):
    self._x0 = self._convert2struct(val, self.model._x)


def u0_set(self, val):
    self._u0 = self._convert2struct(val, self.model._u)


def z0_set(self, val):
    self._z0 = self._convert2struct(val, self.model._z)


def p_est0_set(self, val):
    self._p_est0 = self._convert2struct(val, self._p_est)


def t0_set(self, val):
    if isinstance(val, (int, float)):
        self._t0 = np.array([val])
    elif isinstance(val, np.ndarray):
        if val.size != 1:
            raise Exception
        self._t0 = val.flatten()
    elif isinstance(val, castools.DM):
        if val.numel() != 1:
            raise Exception
        self._t0 = val.full().flatten()
    else:
        raise Exception


# ------------------------------------------------------------------ simulator
def sim_setup_discrete(self):
    m = self.model
    self._check_validity()
    x = m.sv.sym_struct([castools.entry('_x', struct=m._x)])
    z = m.sv.sym_struct([castools.entry('_z', struct=m._z)])
    p = m.sv.sym_struct([castools.entry('_u', struct=m._u), castools.entry('_p', struct=m._p), castools.entry('_tvp', struct=m._tvp), castools.entry('_w', struct=m._w)])
    self.sim_x, self.sim_z, self.sim_p = x, z, p
    self.sim_x_num, self.sim_z_num, self.sim_p_num, self.sim_aux_num = x(0), z(0), p(0), m._aux_expression(0)
    rhs = m._rhs_fun(x['_x'], p['_u'], z['_z'], p['_tvp'], p['_p'], p['_w'])
    alg = m._alg_fun(x['_x'], p['_u'], z['_z'], p['_tvp'], p['_p'], p['_w'])
    self.discrete_dae_solver = castools.nlpsol('dae_roots', 'ipopt', {'x': z['_z'], 'p': castools.vertcat(x['_x'], p), 'f': castools.DM(0), 'g': alg})
    self.simulator = castools.Function('simulator', [x['_x'], z['_z'], p], [rhs])
    aux = m._aux_expression_fun(x['_x'], p['_u'], z['_z'], p['_tvp'], p['_p'])
    self.sim_aux_expression_fun = castools.Function('sim_aux_expression_fun', [x, z, p], [aux])
    self.flags['setup'] = True


def sim_setup_continuous(self):
    m = self.model
    S = self._settings
    self._check_validity()
    x = m.sv.sym_struct([castools.entry('_x', struct=m._x)])
    z = m.sv.sym_struct([castools.entry('_z', struct=m._z)])
    p = m.sv.sym_struct([castools.entry('_u', struct=m._u), castools.entry('_p', struct=m._p), castools.entry('_tvp', struct=m._tvp), castools.entry('_w', struct=m._w)])
    self.sim_x, self.sim_z, self.sim_p = x, z, p
    self.sim_x_num, self.sim_z_num, self.sim_p_num, self.sim_aux_num = x(0), z(0), p(0), m._aux_expression(0)
    rhs = m._rhs_fun(x['_x'], p['_u'], z['_z'], p['_tvp'], p['_p'], p['_w'])
    alg = m._alg_fun(x['_x'], p['_u'], z['_z'], p['_tvp'], p['_p'], p['_w'])
    dae = {'x': x, 'z': z, 'p': p, 'ode': rhs, 'alg': alg}
    if S.integration_tool != 'collocation':
        opts = {'abstol': S.abstol, 'reltol': S.reltol}
    else:
        opts = {}
    opts.update(S.integration_opts)
    if do_mpc.CASADI_LEGACY_MODE:
        opts['tf'] = S.t_step
        self.simulator = castools.integrator('simulator', S.integration_tool, dae, opts)
    else:
        self.simulator = castools.integrator('simulator', S.integration_tool, dae, 0.0, S.t_step, opts)
    aux = m._aux_expression_fun(x['_x'], p['_u'], z['_z'], p['_tvp'], p['_p'])
    self.sim_aux_expression_fun = castools.Function('sim_aux_expression_fun', [x, z, p], [aux])
    self.flags['setup'] = True


def sim_guess(self):
    if not self.flags['setup']:
        raise Exception
    self.sim_z_num['_z'] = self._z0.cat


def sim_init_z(self):
    m = self.model
    if not m.flags['setup']:
        raise RuntimeError
    z0 = castools.vertcat(self._z0)
    nlp = {'x': castools.vertcat(m.z), 'f': castools.sum2(castools.sum1((castools.vertcat(m.z) - z0)**2)), 'g': castools.vertcat(m._alg),
           'p': castools.vertcat(m.p, m.tvp, m.u, m.x)}
    solver = castools.nlpsol('solver', 'ipopt', nlp, {'ipopt.print_level': 0, 'ipopt.sb': 'yes', 'print_time': 0})
    r = solver(x0=z0, lbg=0, ubg=0, p=castools.vertcat(self.p_fun(self._t0), self.tvp_fun(self._t0), self._u0, self._x0))
    self._z0 = self._convert2struct(r['x'], m._z)
    self.set_initial_guess()
    return r['x'].full()


def model_tvp(self):
    return self.model._tvp(0)


def model_p(self):
    return self.model._p(0)


def sim_tvp_fun(self, tvp_fun):
    if not isinstance(tvp_fun(0), castools.structure3.DMStruct) or tvp_fun(0).labels() != self.get_tvp_template().labels():
        raise Exception
    self.tvp_fun = tvp_fun
    self.flags['set_tvp_fun'] = True


def sim_p_fun(self, p_fun):
    if not isinstance(p_fun(0), castools.structure3.DMStruct) or p_fun(0).labels() != self.get_p_template().labels():
        raise Exception
    self.p_fun = p_fun
    self.flags['set_p_fun'] = True


# ------------------------------------------------------------------ estimator templates
def mhe_p_template(self):
    return self._p_set(0)


def mhe_p_fun(self, p_fun):
    if p_fun(0).labels() != self.get_p_template().labels():
        raise Exception
    self.p_fun = p_fun
    self.flags['set_p_fun'] = True


def mhe_y_template(self):
    return self.model.sv.sym_struct([castools.entry('y_meas', repeat=self.settings.n_horizon, struct=self._y_meas)])(0)


def mhe_y_fun(self, y_fun):
    if y_fun(0).labels() != self.get_y_template().labels():
        raise Exception
    self.y_fun = y_fun
    self.flags['set_y_fun'] = True


def feedback(self, y0):
    return y0


# ------------------------------------------------------------------ access to the problem
def get_opt_x_num(self):
    return self._opt_x_num


def set_opt_x_num(self, val):
    self._opt_x_num = val


def get_opt_p_num(self):
    return self._opt_p_num


def set_opt_p_num(self, val):
    self._opt_p_num = val


def get_opt_x(self):
    return self._opt_x


def set_opt_x(self, val):
    self._opt_x = val


def get_opt_p(self):
    return self._opt_p


def set_opt_p(self, val):
    self._opt_p = val


def copy_struct(self, original_struct):
    # same names and shapes, new symbols of the same type
    if type(original_struct) == castools.struct_symSX:
        make = castools.struct_symSX
    elif type(original_struct) == castools.struct_symMX:
        make = castools.struct_symMX
    else:
        raise Exception
    return make([castools.entry(n, shape=original_struct[n].shape) for n in original_struct.keys()])
