"""Reference formulation of the step equations (discrete right-hand side or orthogonal collocation on finite elements)."""
import numpy as np
import casadi.tools as castools


def scaled(self):
    x, u, z, tvp, p, w = self.model['x', 'u', 'z', 'tvp', 'p', 'w']
    args = (x*self._x_scaling.cat, u*self._u_scaling.cat, z*self._z_scaling.cat, tvp, p*self._p_scaling.cat, w)
    return (x, u, z, tvp, p, w), self.model._rhs_fun(*args)/self._x_scaling.cat, self.model._alg_fun(*args)


def discrete(self):
    (x, u, z, tvp, p, w), rhs, alg = scaled(self)
    none = self.model.sv.sym('i', 0)
    return castools.Function('ifcn', [x, none, u, z, tvp, p, w], [alg, rhs]), 0


def collocation(self):
    (x, u, z, tvp, p, w), rhs, alg = scaled(self)
    S, m = self.settings, self.model
    f = castools.Function('ffcn', [x, u, z, tvp, p, w], [rhs])
    a = castools.Function('afcn', [x, u, z, tvp, p, w], [alg])
    deg, ni = S.collocation_deg, S.collocation_ni
    if S.collocation_type == 'radau':
        tau = [0] + castools.collocation_points(deg, 'radau')
    elif S.collocation_type == 'legendre':
        tau = [0] + castools.collocation_points(deg, 'legendre')
    else:
        raise Exception
    # value at the end and slope at every point of the Lagrange polynomials
    C = np.zeros((deg + 1, deg + 1))
    D = np.zeros(deg + 1)
    t = m.sv.sym('tau')
    for j in range(deg + 1):
        L = 1
        for r in range(deg + 1):
            if r != j:
                L *= (t - tau[r])/(tau[j] - tau[r])
        D[j] = castools.Function('lfcn', [t], [L])(1.0)
        dL = castools.Function('tfcn', [t], [castools.tangent(L, t)])
        for r in range(deg + 1):
            C[j, r] = dL(tau[r])
    h = S.t_step/ni
    x0 = m.sv.sym('xk0', m.n_x)
    pk, tv, uk, wk = m.sv.sym('pk', m.n_p), m.sv.sym('tv_pk', m.n_tvp), m.sv.sym('uk', m.n_u), m.sv.sym('wk', m.n_w)
    xs = m.sv.sym('ik', ni*(deg + 1)*m.n_x)
    zs = m.sv.sym('zk', ni*(deg + 1)*m.n_z)
    X = np.resize(np.array([], dtype=m.sv.dtype), (ni, deg + 1))
    Z = np.resize(np.array([], dtype=m.sv.dtype), (ni, deg + 1))
    X[0, 0] = x0
    Z[0, 0] = zs[0:m.n_z]
    ox, oz, first = 0, m.n_z, 1
    for i in range(ni):
        for j in range(first, deg + 1):
            X[i, j] = xs[ox:ox + m.n_x]
            Z[i, j] = zs[oz:oz + m.n_z]
            oz += m.n_z
            ox += m.n_x
        first = 0
    xf = xs[ox:ox + m.n_x]
    g = []
    for i in range(ni):
        g.append(a(X[i, 0], uk, Z[i, 0], tv, pk, wk))
        for j in range(1, deg + 1):
            slope = 0
            for r in range(deg + 1):
                slope += C[r, j]*X[i, r]
            g.append(h*f(X[i, j], uk, Z[i, j], tv, pk, wk) - slope)
            g.append(a(X[i, j], uk, Z[i, j], tv, pk, wk))
        end = 0
        for r in range(deg + 1):
            end += D[r]*X[i, r]
        g.append((X[i + 1, 0] if i + 1 < ni else xf) - end)
    return castools.Function('ifcn', [x0, xs, uk, zs, tv, pk, wk], [castools.vertcat(*g), xf]), (deg + 1)*ni
