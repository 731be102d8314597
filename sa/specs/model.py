"""Reference formulation of models, linear models and their conversions."""
import numpy as np
import casadi
import casadi.tools as castools
from scipy.signal import cont2discrete
from do_mpc.model import Model, LinearModel
from do_mpc.tools._casstructure import _SymVar


# ------------------------------------------------------------------ definition of a model
def new(self, model_type=None, symvar_type='SX'):
    assert isinstance(model_type, str)
    assert model_type in ['discrete', 'continuous']
    assert symvar_type in ['SX', 'MX']
    self.model_type = model_type
    self.symvar_type = symvar_type
    self.sv = _SymVar(symvar_type)
    self._x = {'name': [], 'var': []}
    self._u = {'name': ['default'], 'var': [self.sv.sym('default', (0, 0))]}
    self._z = {'name': ['default'], 'var': [self.sv.sym('default', (0, 0))]}
    self._p = {'name': ['default'], 'var': [self.sv.sym('default', (0, 0))]}
    self._tvp = {'name': ['default'], 'var': [self.sv.sym('default', (0, 0))]}
    self._aux = {'name': ['default'], 'var': [self.sv.sym('default', (1, 1))]}
    self._w = {'name': ['default'], 'var': [self.sv.sym('default', (0, 0))]}
    self._v = {'name': ['default'], 'var': [self.sv.sym('default', (0, 0))]}
    self._y = {'name': ['default'], 'var': [self.sv.sym('default', (0, 0))]}
    self._aux_expression = [castools.entry('default', expr=castools.DM(0))]
    self._y_expression = []
    self.rhs_list = []
    self.alg_list = [castools.entry('default', expr=[])]
    self.flags = {'setup': False}


def set_variable(self, var_type, var_name, shape=(1, 1)):
    assert not self.flags['setup']
    assert isinstance(var_type, str)
    assert isinstance(var_name, str)
    assert isinstance(shape, (tuple, int))
    t = var_type.replace('states', '_x').replace('inputs', '_u').replace('algebraic', '_z').replace('timevarying_parameter', '_tvp').replace('parameter', '_p')
    assert t in ['_x', '_u', '_z', '_p', '_tvp']
    d = getattr(self, t)
    assert var_name not in d['name']
    var = self.sv.sym(var_name, shape)
    d['var'].append(var)
    d['name'].append(var_name)
    return var


def set_expression(self, expr_name, expr):
    assert not self.flags['setup']
    assert isinstance(expr_name, str)
    assert isinstance(expr, (castools.SX, castools.MX))
    self._aux_expression.append(castools.entry(expr_name, expr=expr))
    self._aux['var'].append(self.sv.sym(expr_name, expr.shape))
    self._aux['name'].append(expr_name)
    return expr


def set_meas(self, meas_name, expr, meas_noise=True):
    assert not self.flags['setup']
    assert isinstance(meas_name, str)
    assert isinstance(expr, (castools.SX, castools.MX))
    assert isinstance(meas_noise, bool)
    if meas_noise:
        v = self.sv.sym(meas_name + '_noise', expr.shape[0])
        self._v['name'].append(meas_name + '_noise')
        self._v['var'].append(v)
        e = expr + v
    else:
        e = expr
    self._y_expression.append(castools.entry(meas_name, expr=e))
    self._y['var'].append(self.sv.sym(meas_name, e.shape))
    self._y['name'].append(meas_name)
    return e


def set_rhs(self, var_name, expr, process_noise=False):
    assert not self.flags['setup']
    assert isinstance(var_name, str)
    assert isinstance(expr, (castools.SX, castools.MX, castools.DM))
    assert var_name in self._x['name']
    if process_noise:
        if self.symvar_type == 'MX':
            w = castools.MX.sym(var_name + '_noise', expr.shape[0])
        else:
            w = castools.SX.sym(var_name + '_noise', expr.shape[0])
        self._w['name'].append(var_name + '_noise')
        self._w['var'].append(w)
        e = expr + w
    else:
        e = expr
    self.rhs_list.append({'var_name': var_name, 'expr': e})


def set_alg(self, expr_name, expr):
    assert not self.flags['setup']
    assert isinstance(expr_name, str)
    assert isinstance(expr, (castools.SX, castools.MX, castools.DM))
    self.alg_list.append(castools.entry(expr_name, expr=expr))


def getitem(self, ind):
    if isinstance(ind, tuple):
        for i in ind:
            assert i in ['x', 'u', 'z', 'p', 'tvp', 'y', 'aux', 'w']
        return [getattr(self, i) for i in ind]
    return getattr(self, ind)


def group_x(self):
    return self._getvar('_x')


def group_u(self):
    return self._getvar('_u')


def group_z(self):
    return self._getvar('_z')


def group_p(self):
    return self._getvar('_p')


def group_tvp(self):
    return self._getvar('_tvp')


def group_y(self):
    return self._getvar('_y')


def group_aux(self):
    return self._getvar('_aux_expression')


def group_w(self):
    return self._getvar('_w')


def group_v(self):
    return self._getvar('_v')


def no_direct(self, val):
    raise Exception


def getvar(self, var_name):
    if self.flags['setup']:
        return getattr(self, var_name)
    d = getattr(self, var_name)
    if var_name == '_aux_expression':
        d = {'name': [e.name for e in d], 'var': [e.expr for e in d]}
    s = self.sv.struct(self._convert2struct(d))
    for name, var in zip(d['name'], d['var']):
        s[name] = var
    return s


def convert2struct(self, var_dict):
    return self.sv.sym_struct([castools.entry(n, shape=v.shape) for n, v in zip(var_dict['name'], var_dict['var'])])


def substitute_vars(self, var_dict_list, sym_struct_list, expr):
    assert len(var_dict_list) == len(sym_struct_list)
    e = expr
    for d, s in zip(var_dict_list, sym_struct_list):
        assert d['name'] == s.keys()
        for name, var in zip(d['name'], d['var']):
            e = castools.substitute(e, var, s[name])
    if self.symvar_type == 'MX':
        return expr(e)
    expr.master = e
    return expr


def substitute_exported(self, var_dict_list, sym_struct_list):
    for d, s in zip(var_dict_list, sym_struct_list):
        assert d['name'] == s.keys()
        for name, var in zip(d['name'], d['var']):
            var.__dict__['this'] = s[name].__dict__['this']


def setup(self):
    if not self._y_expression:
        for name, var in zip(self._x['name'], self._x['var']):
            self.set_meas(name, var)
    self._y_expression = self.sv.struct(self._y_expression)
    x = self._convert2struct(self._x)
    w = self._convert2struct(self._w)
    v = self._convert2struct(self._v)
    u = self._convert2struct(self._u)
    z = self._convert2struct(self._z)
    p = self._convert2struct(self._p)
    tvp = self._convert2struct(self._tvp)
    aux = self._convert2struct(self._aux)
    y = self._convert2struct(self._y)
    self._aux_expression = self.sv.struct(self._aux_expression)
    self._alg = self.sv.struct(self.alg_list)
    self._rhs = self.sv.struct(x)
    todo = set(self._x['name'])
    for r in self.rhs_list:
        self._rhs[r['var_name']] = r['expr']
        todo -= set([r['var_name']])
    assert len(todo) == 0
    old = [self._x, self._w, self._v, self._u, self._z, self._p, self._tvp]
    sym = [x, w, v, u, z, p, tvp]
    self._rhs = self._substitute_struct_vars(old, sym, self._rhs)
    self._alg = self._substitute_struct_vars(old, sym, self._alg)
    self._aux_expression = self._substitute_struct_vars(old, sym, self._aux_expression)
    self._y_expression = self._substitute_struct_vars(old, sym, self._y_expression)
    self._substitute_exported_vars(old, sym)
    self._x, self._w, self._v, self._u, self._z, self._p, self._tvp, self._y, self._aux = x, w, v, u, z, p, tvp, y, aux
    sn = ['_x', '_u', '_z', '_tvp', '_p', '_w']
    vn = ['_x', '_u', '_z', '_tvp', '_p', '_v']
    s_in = [x, u, z, tvp, p, w]
    v_in = [x, u, z, tvp, p, v]
    self._rhs_fun = castools.Function('f', s_in, [self._rhs], sn, ['_rhs'])
    self._alg_fun = castools.Function('f', s_in, [self._alg], sn, ['_alg'])
    self._aux_expression_fun = castools.Function('f', [x, u, z, tvp, p], [self._aux_expression], ['_x', '_u', '_z', '_tvp', '_p'], ['_aux_expression'])
    self._meas_fun = castools.Function('f', v_in, [self._y_expression], vn, ['_y_expression'])
    self.A_fun = castools.Function('f', s_in, [castools.jacobian(self._rhs, self._x)], sn, ['A_lin_expr'])
    self.B_fun = castools.Function('f', s_in, [castools.jacobian(self._rhs, self._u)], sn, ['B_lin_expr'])
    self.C_fun = castools.Function('f', v_in, [castools.jacobian(self._y_expression, self._x)], vn, ['C_lin_expr'])
    self.D_fun = castools.Function('f', v_in, [castools.jacobian(self._y_expression, self._u)], vn, ['D_lin_expr'])
    self.n_x = self._x.shape[0]
    self.n_y = self._y.shape[0]
    self.n_u = self._u.shape[0]
    self.n_z = self._z.shape[0]
    self.n_tvp = self._tvp.shape[0]
    self.n_p = self._p.shape[0]
    self.n_aux = self._aux_expression.shape[0]
    self.n_w = self._w.shape[0]
    self.n_v = self._v.shape[0]
    assert self.n_z == self._alg.shape[0]
    self.flags['setup'] = True


def getstate(self):
    if self.symvar_type == 'MX':
        raise Exception()
    if not self.flags['setup']:
        raise Exception()
    return self.__dict__.copy()


def setstate(self, state):
    self.__dict__.update(state)
    self._rhs = self._rhs(self._rhs_fun(self._x, self._u, self._z, self._tvp, self._p, self._w))
    self._alg = self._alg(self._alg_fun(self._x, self._u, self._z, self._tvp, self._p, self._w))
    self._aux_expression = self._aux_expression(self._aux_expression_fun(self._x, self._u, self._z, self._tvp, self._p))
    self._y_expression = self._y_expression(self._meas_fun(self._x, self._u, self._z, self._tvp, self._p, self._v))


# ------------------------------------------------------------------ linearisation and conversions
def transfer_variables(old_model, new_model, transfer=['_x', '_u', '_tvp', '_p']):
    for k in old_model.x.keys():
        new_model.set_variable('_x', k, shape=old_model.x[k].shape)
    for k in old_model.u.keys()[1:]:
        new_model.set_variable('_u', k, shape=old_model.u[k].shape)
    for k in old_model.tvp.keys()[1:]:
        new_model.set_variable('_tvp', k, shape=old_model.tvp[k].shape)
    for k in old_model.p.keys()[1:]:
        new_model.set_variable('_p', k, shape=old_model.p[k].shape)
    for k in old_model.aux.keys()[1:]:
        e = old_model._aux_expression(old_model._aux_expression_fun(new_model.x, new_model.u, new_model.z, new_model.tvp, new_model.p))
        new_model.set_expression(k, e[k])


def system_matrices(self, xss=None, uss=None, z=None, tvp=None, p=None):
    if self.symvar_type == 'MX':
        raise ValueError()
    xss = self.x if xss is None else xss
    uss = self.u if uss is None else uss
    z = self.z if z is None else z
    tvp = self.tvp if tvp is None else tvp
    p = self.p if p is None else p
    A = self.A_fun(xss, uss, z, tvp, p, self.w(0))
    B = self.B_fun(xss, uss, z, tvp, p, self.w(0))
    C = self.C_fun(xss, uss, z, tvp, p, self.v(0))
    D = self.D_fun(xss, uss, z, tvp, p, self.v(0))
    if A.is_constant():
        A = castools.DM(A).full()
    if B.is_constant():
        B = castools.DM(B).full()
    if C.is_constant():
        C = castools.DM(C).full()
    if D.is_constant():
        D = castools.DM(D).full()
    return (A, B, C, D)


def lin_set_rhs(self, name, rhs):
    if not castools.evalf(castools.jacobian(rhs, castools.vertcat(self.x, self.u))).is_constant():
        raise ValueError()
    Model.set_rhs(self, name, rhs, True)


def lin_set_meas(self, name, meas):
    if not castools.evalf(castools.jacobian(meas, castools.vertcat(self.x, self.u))).is_constant():
        raise ValueError()
    Model.set_meas(self, name, meas, True)


def lin_set_alg(self, expr_name, expr, *args, **kwargs):
    raise NotImplementedError()


def lin_new(self, model_type=None, symvar_type='SX'):
    assert isinstance(model_type, str)
    assert model_type in ['discrete', 'continuous']
    assert symvar_type in ['SX', 'MX']
    if symvar_type == 'MX':
        raise ValueError()
    self.model_type = model_type
    self.symvar_type = symvar_type
    self.flags = {'setup': False}


def sys_a(self):
    assert self.flags['setup']
    return self._A


def sys_b(self):
    assert self.flags['setup']
    return self._B


def sys_c(self):
    assert self.flags['setup']
    return self._C


def sys_d(self):
    assert self.flags['setup']
    return self._D


def lin_setup(self, A=None, B=None, C=None, D=None):
    if not isinstance(A, (np.ndarray, type(None))):
        raise ValueError()
    if not isinstance(B, (np.ndarray, type(None))):
        raise ValueError()
    if not isinstance(C, (np.ndarray, type(None))):
        raise ValueError()
    if not isinstance(D, (np.ndarray, type(None))):
        raise ValueError()
    if C is None and D is not None:
        raise KeyboardInterrupt
    if A is None and B is not None:
        raise KeyboardInterrupt
    if C is not None:
        if D is not None:
            self.set_meas('y', C @ self.x.cat + D @ self.u.cat)
        else:
            self.set_meas('y', C @ self.x.cat)
    n_x, n_u = self.x.size, self.u.size
    if A is not None:
        if A.shape != (n_x, n_x):
            raise ValueError()
    if B is not None:
        if B.shape != (n_x, n_u):
            raise ValueError()
    if A is not None:
        if B is not None:
            nxt = A @ self.x.cat + B @ self.u.cat
        else:
            nxt = A @ self.x.cat
        for name in self.x.keys():
            self.set_rhs(name, nxt[self.x.f[name]])
    Model.setup(self)
    m = self.get_linear_system_matrices()
    self._A, self._B, self._C, self._D = m[0], m[1], m[2], m[3]


def discretize(self, t_step=0, conv_method='zoh'):
    assert self.flags['setup']
    assert self.model_type == 'continuous'
    d = cont2discrete((self.sys_A, self.sys_B, self.sys_C, self.sys_D), t_step, conv_method)
    m = LinearModel('discrete')
    self._transfer_variables(self, m)
    m.setup(d[0], d[1], d[2], d[3])
    return m


def steady_state(self, xss=None, uss=None):
    assert self.flags['setup']
    assert self.model_type == 'discrete'
    A, B = self.sys_A, self.sys_B
    E = np.identity(np.shape(A)[0]) - A
    if np.all(xss) == None:
        if np.linalg.matrix_rank(E) != self.x.shape[0]:
            raise ValueError()
        assert np.all(uss) != None and isinstance(uss, np.ndarray)
        self.xss = np.linalg.inv(E) @ B @ uss
        self.uss = uss
        return self.xss
    if np.all(uss) == None:
        assert np.all(xss) != None and isinstance(xss, np.ndarray)
        self.xss = xss
        if np.shape(B)[0] != np.shape(B)[1]:
            self.uss = np.linalg.pinv(B) @ E @ xss
        else:
            self.uss = np.linalg.inv(B) @ E @ xss
        return self.uss


def linearize(model, xss=None, uss=None, tvp0=None, p0=None):
    assert model.flags['setup']
    assert model.z.size == 0
    A, B, C, D = model.get_linear_system_matrices(xss, uss, tvp=tvp0, p=p0)
    if not np.alltrue([isinstance(A, np.ndarray), isinstance(B, np.ndarray), isinstance(C, np.ndarray), isinstance(D, np.ndarray)]):
        raise NotImplementedError()
    lin = LinearModel(model.model_type, model.symvar_type)
    model._transfer_variables(model, lin)
    n_x, n_u = model.n_x, model.n_u
    if C.shape == (n_x, n_x) and (C == np.eye(n_x)).all() and (D == np.zeros((n_x, n_u))).all():
        lin.setup(A, B, None, None)
    else:
        lin.setup(A, B, C, D)
    return lin


def dae2ode(model):
    assert model.flags['setup']
    new = Model(model.model_type, model.symvar_type)
    for k in model.x.keys():
        new.set_variable('_x', k, model.x[k].size())
    for k in model.u.keys()[1:]:
        new.set_variable('_x', k, model.u[k].size())
    for k in model.z.keys()[1:]:
        new.set_variable('_x', k, model.z[k].size())
    for k in model.p.keys()[1:]:
        new.set_variable('_p', k, model.p[k].size())
    for k in model.tvp.keys()[1:]:
        new.set_variable('_tvp', k, model.tvp[k].size())
    q = new.set_variable('_u', 'q', (model.n_u, 1))
    x = castools.vertcat(*new.x[model.x.keys()])
    u = castools.vertcat(*new.x[model.u.keys()[1:]])
    z = castools.vertcat(*new.x[model.z.keys()[1:]])
    tvp = castools.vertcat(*new.tvp[model.tvp.keys()[1:]])
    p = castools.vertcat(*new.p[model.p.keys()[1:]])
    rhs = model._rhs_fun(x, u, z, tvp, p, model.w)
    free = castools.substitute(rhs, model.w.cat, np.zeros(model.n_w).reshape(model.n_w, 1))
    i = 0
    for k in model.x.keys():
        n = model.x[k].size()[0]
        if k + '_noise' in model.w.keys():
            new.set_rhs(k, free[i:i + n], process_noise=True)
        else:
            new.set_rhs(k, free[i:i + n])
        i += n
    alg = model._alg_fun(x, u, z, tvp, p, new.w)
    noisy = castools.substitute(rhs, model.w.cat, castools.reshape(castools.vertcat(*[new.w[name] for name in model.w.keys()]), model.n_w, 1))
    inv = castools.inv(castools.jacobian(alg, z))
    zdot = -inv @ castools.jacobian(alg, x) @ noisy - inv @ castools.jacobian(alg, u) @ q
    i = 0
    for k in model.u.keys()[1:]:
        n = model.u[k].size()[0]
        new.set_rhs(k, new.u['q'][i:i + n])
        i += n
    i = 0
    for k in model.z.keys()[1:]:
        n = model.z[k].size()[0]
        new.set_rhs(k, zdot[i:i + n])
        i += n
    new.setup()
    return new


def dae2ode_by_position(model):
    assert model.flags['setup']
    new = Model(model.model_type, model.symvar_type)
    for k in model.x.keys():
        new.set_variable('_x', k, model.x[k].size())
    for k in model.u.keys()[1:]:
        new.set_variable('_x', k, model.u[k].size())
    for k in model.z.keys()[1:]:
        new.set_variable('_x', k, model.z[k].size())
    for k in model.p.keys()[1:]:
        new.set_variable('_p', k, model.p[k].size())
    for k in model.tvp.keys()[1:]:
        new.set_variable('_tvp', k, model.tvp[k].size())
    q = new.set_variable('_u', 'q', (model.n_u, 1))
    x = castools.vertcat(*new.x[model.x.keys()])
    u = castools.vertcat(*new.x[model.u.keys()[1:]])
    z = castools.vertcat(*new.x[model.z.keys()[1:]])
    tvp = castools.vertcat(*new.tvp[model.tvp.keys()[1:]])
    p = castools.vertcat(*new.p[model.p.keys()[1:]])
    rhs = model._rhs_fun(x, u, z, tvp, p, model.w)
    free = castools.substitute(rhs, model.w.cat, np.zeros(model.n_w).reshape(model.n_w, 1))
    i = 0
    for j, k in enumerate(model.x.keys()):
        n = model.x[k].size()[0]
        # the states of the original model come first
        if new.x.keys()[j] + '_noise' in model.w.keys():
            new.set_rhs(k, free[i:i + n], process_noise=True)
        else:
            new.set_rhs(k, free[i:i + n])
        i += n
    alg = model._alg_fun(x, u, z, tvp, p, new.w)
    noisy = castools.substitute(rhs, model.w.cat, castools.reshape(castools.vertcat(*[new.w[name] for name in model.w.keys()]), model.n_w, 1))
    inv = castools.inv(castools.jacobian(alg, z))
    zdot = -inv @ castools.jacobian(alg, x) @ noisy - inv @ castools.jacobian(alg, u) @ q
    i = 0
    for k in model.u.keys()[1:]:
        n = model.u[k].size()[0]
        new.set_rhs(k, new.u['q'][i:i + n])
        i += n
    i = 0
    for k in model.z.keys()[1:]:
        n = model.z[k].size()[0]
        new.set_rhs(k, zdot[i:i + n])
        i += n
    new.setup()
    return new
