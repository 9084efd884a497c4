"""Reference semantics of the shipped example systems (written from their documentation), on symbolic values and floats."""
from __future__ import annotations

from vf import qp
from vf.lib import *

N0, M0, D0 = 0.001027, 12, 1e-5


def poly(co, z):
    r, p = 0.0, 1.0
    for c in co:
        if c:
            r = r + c * p
        p = p * z
    return r


def cwh_f(x, n, dim):
    """drift of the Clohessy-Wiltshire-Hill equations"""
    if dim == 2:
        return [x[2], x[3], 3 * n * n * x[0] + 2 * n * x[3], -2 * n * x[2]]
    return [x[3], x[4], x[5], 3 * n * n * x[0] + 2 * n * x[4], -2 * n * x[3], -n * n * x[2]]


def cwh_xdot(x, u, n, m, dim):
    r = cwh_f(x, n, dim)
    return r[:dim] + [r[dim + i] + u[i] / m for i in range(dim)]


def euler(f, x, u, dt):
    return add(x, scale(dt, f(x, u)))


def rk4(f, x, u, dt):
    k1 = f(x, u)
    k2 = f(add(x, scale(dt / 2, k1)), u)
    k3 = f(add(x, scale(dt / 2, k2)), u)
    k4 = f(add(x, scale(dt, k3)), u)
    return add(x, scale(dt / 6, add(add(k1, scale(2, k2)), add(scale(2, k3), k4))))


def normd(v, d=D0):
    return sqrt(norm2(v) + d)


class Con:
    """h(x) (biased), phi(x), gradient, strengthening polynomial"""

    def __init__(self, h, grad, alpha, bias=0.0, phi=None):
        self.raw, self.grad, self.alpha, self.bias = h, grad, alpha, bias
        self.phi = phi or h

    def h(self, x):
        return self.raw(x) + self.bias

    def row(self, x, f, Bcols):
        h, g = self.h(x), self.grad(x)
        al = poly(self.alpha, h)
        al = where(h < 0, 10 * al - 0.01, al)
        return qp.Row([dot(g, c) for c in Bcols], -dot(g, f) - al)


def rel_vel(dim, v0, v1, d0, alpha, bias):

    def h(x):
        return v0 + v1 * (normd(x[:dim]) - d0) - normd(x[dim:2 * dim])

    def g(x):
        a, b = normd(x[:dim]), normd(x[dim:2 * dim])
        return [v1 * v / a for v in x[:dim]] + [-v / b for v in x[dim:2 * dim]] + [0.0] * (len(x) - 2 * dim)

    return Con(h, g, alpha, bias)


def mag(i, lim, alpha=(0, 0.0005, 0, 0.001), bias=0.0):
    return Con(lambda x: lim * lim - x[i] * x[i], lambda x: [-2 * x[k] if k == i else 0.0 for k in range(len(x))], alpha, bias)


def docking(dim, v0=0.2, v1=None, d0=0, lims=(10, 10, 10)):
    v1 = (2 if dim == 2 else 4) * N0 if v1 is None else v1
    out = OrderedDict([('rel_vel', rel_vel(dim, v0, v1, d0, (0, 0.01, 0, 0.1) if dim == 2 else (0, 0.05, 0, 0.005), -1e-4))])
    for i, nm in enumerate(('x_vel', 'y_vel', 'z_vel')[:dim]):
        out[nm] = mag(dim + i, lims[i])
    return out


def lqr(dim, n, m):
    """gain of the documented velocity-nulling regulator (Q = 0.05 I, R = 1000 I)"""
    import numpy as np
    import scipy.linalg
    A = np.array([cwh_f([1.0 if i == j else 0.0 for i in range(2 * dim)], n, dim) for j in range(2 * dim)], dtype=float).T
    B = np.vstack([np.zeros((dim, dim)), np.eye(dim) / m])
    P = scipy.linalg.solve_continuous_are(A, B, 0.05 * np.eye(2 * dim), 1000.0 * np.eye(dim))
    return [[float(v) for v in r] for r in (B.T @ P / 1000.0)]
