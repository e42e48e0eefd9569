"""Parametric test systems (eqx modules with array fields: one compile per shape) and their
NumPy twins. Import only after env.setup()."""
import numpy as np
import jax
import jax.numpy as jnp
from ormatex_py.ode_sys import (AdJacLinOp, CustomJacLinOp, FdJacLinOp, MatrixLinOp, OdeSplitSys, OdeSys)

LD = np.longdouble
FIELDS = ("A", "B", "P", "R", "G", "C", "w")


def theta_of(kwargs):
    k = kwargs.get("frhs_kwargs") or {}
    return k.get("theta", 0.0), k.get("src", 0.0)


class GenSys(OdeSys):
    """u' = (1 + theta) A u + sum_j B_j t^j + src (1 + t / 4) + (P u) * (R u) + G * sin(w t + C u)

    theta and src come from frhs_kwargs."""
    A: jax.Array
    B: jax.Array
    P: jax.Array
    R: jax.Array
    G: jax.Array
    C: jax.Array
    w: jax.Array

    def __init__(self, d):
        super().__init__()
        for f in FIELDS:
            setattr(self, f, jnp.asarray(np.asarray(d[f], dtype=float)))

    def _frhs(self, t, u, **kwargs):
        th, src = theta_of(kwargs)
        q = self.B.shape[0]
        f = (1.0 + th) * (self.A @ u) + src * (1.0 + 0.25 * t)
        for j in range(q):
            f = f + self.B[j] * t ** j
        return f + (self.P @ u) * (self.R @ u) + self.G * jnp.sin(self.w * t + self.C @ u)


class GenSysCustom(GenSys):
    """The same with a hand-written Jacobian and time derivative."""

    def jac(self, t, u, th):
        return (1.0 + th) * self.A + (self.P @ u)[:, None] * self.R + (self.R @ u)[:, None] * self.P \
            + (self.G * jnp.cos(self.w * t + self.C @ u))[:, None] * self.C

    def dt(self, t, u, src):
        f = 0.25 * src + self.G * jnp.cos(self.w * t + self.C @ u) * self.w
        for j in range(1, self.B.shape[0]):
            f = f + j * self.B[j] * t ** (j - 1)
        return f

    @jax.jit
    def _fjac(self, t, u, **kwargs):
        th, src = theta_of(kwargs)
        return CustomJacLinOp(t, u, self.frhs, self.jac(t, u, th), self.dt(t, u, src), frhs_kwargs=kwargs)


class GenSysCustomNoDt(GenSysCustom):
    """The time derivative is left to the finite-difference fallback."""

    @jax.jit
    def _fjac(self, t, u, **kwargs):
        th, _ = theta_of(kwargs)
        return CustomJacLinOp(t, u, self.frhs, self.jac(t, u, th), frhs_kwargs=kwargs)


class GenSysFd(GenSys):
    @jax.jit
    def _fjac(self, t, u, **kwargs):
        return FdJacLinOp(t, u, self.frhs, frhs_kwargs=kwargs)


class GenSplit(OdeSplitSys):
    """The same right-hand side; L(t, u) = (1 + theta) A0 + diag(d0 * u) * lt + t * lt * I."""
    A: jax.Array
    B: jax.Array
    P: jax.Array
    R: jax.Array
    G: jax.Array
    C: jax.Array
    w: jax.Array
    A0: jax.Array
    lt: jax.Array

    def __init__(self, d, A0=None, lt=0.0):
        super().__init__()
        for f in FIELDS:
            setattr(self, f, jnp.asarray(np.asarray(d[f], dtype=float)))
        self.A0 = jnp.asarray(np.asarray(d["A"] if A0 is None else A0, dtype=float))
        self.lt = jnp.asarray(float(lt))

    _frhs = GenSys._frhs

    @jax.jit
    def _fl(self, t, u, **kwargs):
        th, _ = theta_of(kwargs)
        return MatrixLinOp((1.0 + th) * self.A0 + self.lt * (jnp.diag(u) + t * jnp.eye(u.shape[0])))


class Twin:
    """NumPy longdouble twin of GenSys / GenSplit."""

    def __init__(self, d, A0=None, lt=0.0):
        for f in FIELDS:
            setattr(self, f, np.asarray(d[f], dtype=LD))
        self.A0 = self.A if A0 is None else np.asarray(A0, dtype=LD)
        self.lt = LD(lt)

    def f(self, t, u, th=0.0, src=0.0):
        t, u = LD(t), np.asarray(u, dtype=LD)
        f = (1 + LD(th)) * (self.A @ u) + np.asarray(src, dtype=LD) * (1 + t / 4)
        for j in range(self.B.shape[0]):
            f = f + self.B[j] * t ** j
        return f + (self.P @ u) * (self.R @ u) + self.G * np.sin(self.w * t + self.C @ u)

    def jac(self, t, u, th=0.0):
        t, u = LD(t), np.asarray(u, dtype=LD)
        return (1 + LD(th)) * self.A + (self.P @ u)[:, None] * self.R + (self.R @ u)[:, None] * self.P \
            + (self.G * np.cos(self.w * t + self.C @ u))[:, None] * self.C

    def fdt(self, t, u, src=0.0):
        t, u = LD(t), np.asarray(u, dtype=LD)
        f = LD(src) / 4 + self.G * np.cos(self.w * t + self.C @ u) * self.w
        for j in range(1, self.B.shape[0]):
            f = f + j * self.B[j] * t ** (j - 1)
        return f

    def forcing(self, src=0.0):
        """Coefficients of the polynomial in t that the right-hand side adds, src included."""
        B = np.array(self.B)
        B[0] += LD(src)
        B[1] += LD(src) / 4
        return B

    def L(self, t, u, th=0.0):
        return (1 + LD(th)) * self.A0 + self.lt * (np.diag(np.asarray(u, dtype=LD)) + LD(t) * np.eye(len(u), dtype=LD))


JAC_KINDS = {"ad": GenSys, "custom": GenSysCustom, "custom_nodt": GenSysCustomNoDt, "fd": GenSysFd}


def zeros(n, q=4):
    Z = np.zeros((n, n))
    return {"A": Z, "B": np.zeros((q, n)), "P": Z, "R": Z, "G": np.zeros(n), "C": Z, "w": 0.0}


def from_case(n, c, q=4):
    """Fill the missing fields of a case with zeros."""
    d = zeros(n, q)
    for f in FIELDS:
        if f in c and c[f] is not None:
            v = np.asarray(c[f], dtype=float)
            if f == "B":
                d["B"][:len(v)] = v
            else:
                d[f] = v
    return d
