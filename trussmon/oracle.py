"""Independent reference mechanics of a pin-jointed truss (no trusspy code)."""
import numpy as np


def kinematics(v, U):
    """Return stretch and deformed unit vectors (A -> E) of all elements."""
    x = v.X + np.asarray(U, dtype=float).reshape(v.n, 3)
    d = x[v.conn[:, 1]] - x[v.conn[:, 0]]
    l = np.sqrt((d * d).sum(axis=1))
    return l / v.L, d / l[:, None], l


def assemble(v, N, dirs):
    """Nodal forces (n, 3) of the element forces N along dirs."""
    r = np.zeros((v.n, 3))
    np.add.at(r, v.conn[:, 1], N[:, None] * dirs)
    np.add.at(r, v.conn[:, 0], -N[:, None] * dirs)
    return r


class Plastic:
    """Rate-independent plasticity with linear isotropic hardening, one state
    per element; elastic elements have an infinite yield stress."""

    def __init__(self, v):
        self.v = v
        self.ep = np.zeros(len(v.el))
        self.kappa = np.zeros(len(v.el))  # accumulated plastic strain

    def copy(self):
        o = Plastic(self.v)
        o.ep, o.kappa = self.ep.copy(), self.kappa.copy()
        return o

    def stress(self, strain):
        """Stress at `strain` without changing the state: (s, ep, kappa, plastic)"""
        v = self.v
        st = v.E * (strain - self.ep)
        y = v.Sy + v.H * self.kappa
        over = np.abs(st) - y
        pl = over > 0
        dg = np.where(pl, over / (v.E + v.H), 0.0)
        sg = np.sign(st)
        return st - v.E * dg * sg, self.ep + dg * sg, self.kappa + dg, pl, over

    def advance(self, strain):
        s, self.ep, self.kappa, pl, _ = self.stress(strain)
        return s, pl

    @property
    def yield_stress(self):
        return self.v.Sy + self.v.H * self.kappa


def internal(v, U, state=None):
    lam, dirs, l = kinematics(v, U)
    st = state or Plastic(v)
    s = st.stress(lam - 1)[0]
    N = s * v.A
    return assemble(v, N, dirs), N, s, lam


def tangent(v, U, state=None):
    """d r / d U, shape (3n, 3n), from the textbook formula."""
    lam, dirs, l = kinematics(v, U)
    st = state or Plastic(v)
    s, _, _, pl, _ = st.stress(lam - 1)
    Et = np.where(pl, v.E * v.H / (v.E + v.H), v.E)
    K = np.zeros((3 * v.n, 3 * v.n))
    for k, (a, b) in enumerate(v.conn):
        nn = np.outer(dirs[k], dirs[k])
        kk = Et[k] * v.A[k] / v.L[k] * nn + s[k] * v.A[k] / l[k] * (np.eye(3) - nn)
        ia, ib = slice(3 * a, 3 * a + 3), slice(3 * b, 3 * b + 3)
        K[ia, ia] += kk
        K[ib, ib] += kk
        K[ia, ib] -= kk
        K[ib, ia] -= kk
    return K


def stable(v, limit=2e-3):
    """True if the undeformed structure is statically stable and well conditioned."""
    if len(v.dof1) == 0 or np.min(v.L) < 1e-3:
        return False
    K = tangent(v, np.zeros((v.n, 3)))[np.ix_(v.dof1, v.dof1)]
    w = np.linalg.eigvalsh(K)
    return w[0] > limit * w[-1] and w[0] > 0
