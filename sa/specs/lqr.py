"""Reference formulation of the linear quadratic regulator."""
import numpy as np
import casadi.tools as castools
from scipy.linalg import solve_discrete_are
import do_mpc


def new(self, model):
    if not isinstance(model, do_mpc.model.LinearModel) or not model.flags['setup'] or model.model_type != 'discrete':
        raise Exception
    self.model, self.model_type = model, model.model_type
    self._x0, self._u0, self._z0 = model._x(0.0), model._u(0.0), model._z(0.0)
    self._t0 = np.array([0.0])
    self.data = do_mpc.data.Data(model)
    self.settings = do_mpc.controller.LQRSettings()
    self.mode = 'standard'
    self.flags = {'setup': False}


def gain_of(A, B, R, P):
    return -np.linalg.inv(B.T @ P @ B + R) @ B.T @ P @ A


def gain(self, A, B):
    if self.Q.size == 0 or self.R.size == 0:
        raise Exception
    if self.settings.n_horizon is None:
        return gain_of(A, B, self.R, solve_discrete_are(A, B, self.Q, self.R))
    if self.P.size == 0:
        raise Exception
    P = self.P
    for k in range(self.settings.n_horizon):
        K = gain_of(A, B, self.R, P)
        P = self.Q + A.T @ P @ A + A.T @ P @ B @ K
    return K


def rterm(self, delR):
    A, B = self.model._A, self.model._B
    nu, nx = np.shape(B)[1], np.shape(A)[1]
    self.A_rated = np.block([[A, B], [np.zeros((nu, nx)), np.identity(nu)]])
    self.B_rated = np.block([[B], [np.identity(nu)]])
    self.delR = delR
    self.mode = 'inputRatePenalization'


def setup(self):
    self.settings.check_for_mandatory_settings()
    if self.mode in ('standard', None):
        self.K = self.discrete_gain(self.model._A, self.model._B)
    elif self.mode == 'inputRatePenalization':
        if not (hasattr(self, 'A_rated') and hasattr(self, 'B_rated')):
            raise AttributeError
        nq, nr = np.shape(self.Q)[0], np.shape(self.R)[1]
        zq = np.zeros((nq, nr))
        zr = np.zeros((np.shape(self.R)[0], np.shape(self.Q)[1]))
        R = self.R
        self.Q = np.block([[self.Q, zq], [zr, R]])
        if self.settings.n_horizon is not None:
            self.P = np.block([[self.P, zq], [zr, R]])
        self.R = self.delR
        self.K = self.discrete_gain(self.A_rated, self.B_rated)
    else:
        raise Exception
    self.flags['setup'] = True


def step_standard(self, x0):
    if not self.flags['setup']:
        raise Exception
    if not isinstance(x0, (np.ndarray, castools.DM)):
        if not isinstance(x0, castools.structure3.DMStruct):
            raise Exception
        x0 = x0.cat
    if not hasattr(self, 'xss') and not hasattr(self, 'uss'):
        self.set_setpoint()
    if self.xss.size != 0 and self.uss.size != 0:
        u0 = self.K @ (x0 - self.xss) + self.uss
    else:
        raise KeyboardInterrupt
    self.data.update(_x=x0, _u=u0, _time=self._t0)
    self._t0 = self._t0 + self.settings.t_step
    self._x0.master = x0
    self._u0.master = castools.DM(u0)
    return u0


def step_rate(self, x0):
    if not self.flags['setup']:
        raise Exception
    if not isinstance(x0, (np.ndarray, castools.DM)):
        if not isinstance(x0, castools.structure3.DMStruct):
            raise Exception
        x0 = x0.cat
    if not hasattr(self, 'xss') and not hasattr(self, 'uss'):
        self.set_setpoint()
    last = self._u0.cat.full()
    u0 = self.K @ (np.block([[x0], [last]]) - self.xss) + self.uss + last
    self.data.update(_x=x0, _u=u0, _time=self._t0)
    self._t0 = self._t0 + self.settings.t_step
    self._x0.master = x0
    self._u0.master = castools.DM(u0)
    return u0


def objective(self, Q, R, P=None):
    m = self.model
    if self.flags['setup']:
        raise Exception
    if Q.shape != (m.n_x, m.n_x) or R.shape != (m.n_u, m.n_u):
        raise Exception
    sym = (castools.DM, castools.SX, castools.MX)
    if isinstance(Q, sym) or isinstance(R, sym):
        raise Exception
    if P is None and self.settings.n_horizon is not None:
        P = Q
    if self.settings.n_horizon is not None:
        if isinstance(P, sym) or P.shape != Q.shape:
            raise Exception
    self.Q, self.R, self.P = Q, R, P


def setpoint_standard(self, xss=None, uss=None):
    if not self.flags['setup']:
        raise Exception
    nx, nu = self.model.n_x, self.model.n_u
    if isinstance(xss, np.ndarray):
        self.xss = xss
    elif not hasattr(self, 'xss'):
        self.xss = np.zeros((nx, 1))
    if isinstance(uss, np.ndarray):
        self.uss = uss
    elif not hasattr(self, 'uss'):
        self.uss = np.zeros((nu, 1))
    if self.xss.shape != (nx, 1) or self.uss.shape != (nu, 1):
        raise Exception


def setpoint_rate(self, xss=None, uss=None):
    if not self.flags['setup']:
        raise Exception
    nx, nu = self.model.n_x, self.model.n_u
    if hasattr(self, 'xss') and self.xss.shape[0] == nx + nu:
        # set point of the augmented state: states first, inputs behind
        self.xss, self.uss = self.xss[:nx], self.xss[nx:]
    if isinstance(xss, np.ndarray):
        self.xss = xss
    elif not hasattr(self, 'xss'):
        self.xss = np.zeros((nx, 1))
    if isinstance(uss, np.ndarray):
        self.uss = uss
    elif not hasattr(self, 'uss'):
        self.uss = np.zeros((nu, 1))
    self.xss = np.block([[self.xss], [self.uss]])
    self.uss = np.zeros((nu, 1))
    if self.xss.shape != (nx + nu, 1):
        raise Exception
