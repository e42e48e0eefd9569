"""The documented one-step schemes in 80-bit arithmetic with exact phi functions."""
import numpy as np
from pbt import ref

LD = np.longdouble


def phiv(A, k, v):
    return ref.phi(A, k) @ np.asarray(v, dtype=LD)


def step(method, tw, t, u, h, prev=None, th=0.0, src=0.0):
    """One step of `method` for the systems.Twin tw, from (t, u) with step h; prev = (t_{n-1}, u_{n-1})."""
    u = np.asarray(u, dtype=LD)
    t, h = LD(t), LD(h)

    def f(tt, uu):
        return tw.f(tt, uu, th, src)

    if method in ("exp1", "exp1_dense", "exp2", "exp2_dense", "exp3", "exp3_dense"):
        L = tw.L(t, u, th)
        P = {c: ref.phis(LD(c) * h * L, 2)[0] for c in {1.0, 2.0 / 3.0}}
        fn = f(t, u)

        def rem(tr, ur):
            return f(tr, ur) - fn - L @ (ur - u)
        if method.startswith("exp1"):
            return u + h * (P[1.0][1] @ fn)
        c2 = LD(1.0) if method == "exp2" else LD(2.0 / 3.0)
        u2 = u + c2 * h * (P[float(c2)][1] @ fn)
        r2 = rem(t + c2 * h, u2)
        if method.startswith("exp2"):
            return u + h * (P[1.0][1] @ fn) + h / c2 * (P[1.0][2] @ r2)
        c3 = LD(2.0 / 3.0)
        u3 = u + c3 * h * (P[2.0 / 3.0][1] @ fn) + LD(4) / 9 / c2 * h * (P[2.0 / 3.0][2] @ r2)
        r3 = rem(t + c3 * h, u3)
        return u + h * (P[1.0][1] @ fn) + LD(3) / 2 * h * (P[1.0][2] @ r3)

    if method == "rk4":
        f1 = f(t, u)
        f2 = f(t + h / 2, u + h / 2 * f1)
        f3 = f(t + h / 2, u + h / 2 * f2)
        f4 = f(t + h, u + h * f3)
        return u + h / 6 * (f1 + 2 * f2 + 2 * f3 + f4)

    J = tw.jac(t, u, th)
    fn, ft = f(t, u), tw.fdt(t, u, src)

    def rem(tr, ur):
        return f(tr, ur) - fn - J @ (ur - u) - ft * (tr - t)

    p = ref.phis(h * J, 4)[0]
    ros = u + h * (p[1] @ fn) + h * h * (p[2] @ ft)
    if method == "epi3" and prev is None:
        method = "exprb3"
    if method == "epi3_leja_im" and prev is None:
        method = "epi2"
    if method in ("exprb2", "epi2", "exprb2_dense", "exprb2_pfd", "epi2_leja_re", "epi2_leja_im"):
        return ros
    if method in ("epi3", "epi3_leja_im"):
        rn = rem(LD(prev[0]), np.asarray(prev[1], dtype=LD))
        return ros + LD(2) / 3 * h * (p[2] @ rn)
    if method == "exprb3":
        return ros + 2 * h * (p[3] @ rem(t + h, ros))
    if method == "pexprb4":
        q = ref.phis(h / 2 * J, 2)[0]
        u2 = u + h / 2 * (q[1] @ fn) + h * h / 4 * (q[2] @ ft)
        r2, r3 = rem(t + h / 2, u2), rem(t + h, ros)
        return ros + h * (p[3] @ (16 * r2 - 2 * r3)) + h * (p[4] @ (12 * r3 - 48 * r2))
    if method == "exp_pfd":
        return p[0] @ u
    raise KeyError(method)


def affine_exact(A, B, t0, u0, h):
    """Solution at t0 + h of u' = A u + sum_j B_j t^j, u(t0) = u0."""
    A = np.asarray(A, dtype=LD)
    B = np.asarray(B, dtype=LD)
    q, n = B.shape
    t0, h = LD(t0), LD(h)
    vb = [np.asarray(u0, dtype=LD)]
    for k in range(q):           # k-th derivative of the forcing at t0, times h^(k+1)
        g = np.zeros(n, dtype=LD)
        for j in range(k, q):
            c = LD(1)
            for i in range(k):
                c *= j - i
            g = g + c * B[j] * t0 ** (j - k)
        vb.append(g * h ** (k + 1))
    return ref.phi_comb(h * A, vb), vb


def integrator(method, sysm, t0, y0, **kw):
    from ormatex_py.ode_exp import ExpLejaIntegrator, ExpRBIntegrator, ExpSplitIntegrator
    from ormatex_py.ode_explicit import RKIntegrator
    cls = RKIntegrator if method.startswith("rk") else ExpLejaIntegrator if "leja" in method \
        else ExpSplitIntegrator if method in SPLIT else ExpRBIntegrator
    return cls(sysm, t0, y0, method=method, **kw)


RB = ["exprb2", "exprb3", "pexprb4", "epi2", "epi3", "exprb2_dense"]
SPLIT = ["exp1", "exp2", "exp3", "exp1_dense", "exp2_dense", "exp3_dense"]
LEJA = ["epi2_leja_re", "epi2_leja_im", "epi3_leja_im"]
