"""C07: Jacobian operators (autodiff, custom, finite difference)."""
import numpy as np
from hypothesis import strategies as st
from pbt import gen, ref
from pbt.core import Prop, Sub, fail, require
from pbt.props.c03 import jnp_
from pbt.util import close, exact

EPS = ref.EPS
DIMS = [3, 1, 2, 5, 4, 3, 2, 6]


def base(draw, n):
    return {"sys": draw(gen.gensys(n, maxnorm=10.0)), "u": draw(gen.vec(n)), "v": draw(gen.vec(n)),
            "t": draw(st.sampled_from([0.0, 0.5, -1.25, 3.0, 20.0])),
            "kw": draw(st.sampled_from([None, None, [0.5, 1.0], [-1.0, 0.0], [0.0, -2.0]]))}


US = st.sampled_from([1.0, 1.0, 1.0, 0.0, 1e-2, 100.0, 1e-5, 1e-9, 1e-14, 1e6])


@st.composite
def quadratic(draw, n):
    """Nothing but quadratic terms: the Jacobian is as small, or as large, as the state."""
    row = st.lists(gen.q(-2, 2, 4), min_size=n, max_size=n)
    return {"A": np.zeros((n, n)).tolist(), "P": [draw(row) for _ in range(n)], "R": [draw(row) for _ in range(n)]}


def scaled(draw, c, n):
    c["us"] = draw(US)
    if draw(st.integers(0, 2)) == 0:
        c["sys"] = draw(quadratic(n))
        c["us"] = draw(st.sampled_from([1e-9, 1e-6, 1e-3, 1e4, 1e-12]))
        if c["kw"]:
            c["kw"] = [c["kw"][0], 0.0]
    return c


def strat(ctx):
    n = DIMS[ctx.part % len(DIMS)]

    @st.composite
    def s(draw):
        c = scaled(draw, base(draw, n), n)
        c["kind"] = draw(st.sampled_from(["ad", "custom", "custom_nodt"]))
        return c
    return s()


def setup(c, kind):
    from pbt import systems
    n = len(c["u"])
    d = systems.from_case(n, c["sys"])
    sysm = systems.JAC_KINDS[kind](d)
    kw = {} if c["kw"] is None else {"frhs_kwargs": {"theta": c["kw"][0], "src": c["kw"][1]}}
    th, src = (0.0, 0.0) if c["kw"] is None else c["kw"]
    return sysm, systems.Twin(d), kw, th, src, np.array(c["u"]) * c.get("us", 1.0), np.array(c["v"])


def magj(tw, u, th):
    """The same for the entries of the Jacobian."""
    au = np.abs(u)
    P, R = np.abs(tw.P), np.abs(tw.R)
    m = (1 + abs(th)) * np.abs(tw.A) + (P @ au)[:, None] * R + (R @ au)[:, None] * P + np.abs(tw.G)[:, None] * np.abs(tw.C) * (1 + (np.abs(tw.C) @ au))[:, None]
    return float(np.max(m)) if m.size else 0.0


def mag(tw, t, u, th, src):
    """Size of the terms that make up f, for round-off bounds."""
    au = np.abs(u)
    m = (1 + abs(th)) * np.abs(tw.A) @ au + abs(src) * (1 + abs(t)) + (np.abs(tw.P) @ au) * (np.abs(tw.R) @ au) + np.abs(tw.G) * (1 + abs(tw.w * t) + np.abs(tw.C) @ au)
    for j in range(len(tw.B)):
        m = m + np.abs(tw.B[j]) * abs(t) ** j * (1 + j)
    return float(np.max(m)) if m.size else 0.0


def check(ctx, c):
    sysm, tw, kw, th, src, u, v = setup(c, c["kind"])
    t, n = c["t"], len(u)
    jop = sysm.fjac(t, jnp_(u), **kw)
    J = tw.jac(t, u, th)
    m = mag(tw, t, u, th, src)
    mj = magj(tw, u, th) * (1 + abs(tw.w * t))
    tol = 200 * n * EPS * mj + 1e-300
    f = tw.f(t, u, th, src)
    close(ctx, np.asarray(sysm.frhs(t, jnp_(u), **kw)), f, 50 * n * EPS * (m + 1e-300), "frhs", "frhs")
    close(ctx, np.asarray(jop._frhs_cached()), f, 50 * n * EPS * (m + 1e-300), f"{c['kind']}: cached rhs", "cached")
    close(ctx, np.asarray(jop(jnp_(v))), J @ v, tol * max(ref.maxabs(v), 1e-300), f"{c['kind']}: J v", "Jv")
    close(ctx, np.asarray(jop.matvec(jnp_(v))), J @ v, tol * max(ref.maxabs(v), 1e-300), f"{c['kind']}: J v", "Jv")
    close(ctx, np.asarray(jop.dense()), J, tol, f"{c['kind']}: dense Jacobian", "dense")
    ft = tw.fdt(t, u, src)
    if c["kind"] == "custom_nodt":
        # forward difference with step 0.5e-8
        e = 0.5e-8
        curv = float(np.max(np.abs(tw.G)) * tw.w ** 2 + sum(j * j * np.max(np.abs(tw.B[j])) * (1 + abs(t)) ** j for j in range(len(tw.B))))
        tolt = 20 * EPS * (m + 1e-300) / e + e * curv + 4 * EPS * abs(t) / e * (ref.maxabs(ft) + curv)
    else:
        tolt = 200 * n * EPS * (m * (1 + abs(tw.w)) + ref.maxabs(tw.G) * abs(tw.w) * (1 + abs(tw.w * t) + float(np.max(np.abs(tw.C) @ np.abs(u)))) + abs(src)
                                + sum(float(np.max(np.abs(tw.B[j]))) * j * (1 + abs(t)) ** j for j in range(len(tw.B)))) + 1e-300
    close(ctx, np.asarray(jop._fdt()), ft, tolt, f"{c['kind']}: df/dt", "fdt " + c["kind"])
    fm = sysm.fm(t, jnp_(u))
    exact(np.asarray(fm(jnp_(v))), v, "default mass operator")
    exact(np.asarray(fm.dense()), np.eye(n), "default mass matrix")
    ctx.label(c["kind"] + (" kwargs" if c["kw"] else ""))
    return n > 1 and bool(np.any(J != 0) and v.any())


# --- finite difference ------------------------------------------------------------------------
def strat_fd(ctx):
    n = DIMS[ctx.part % len(DIMS)]

    @st.composite
    def s(draw):
        c = scaled(draw, base(draw, n), n)
        c["vs"] = draw(st.sampled_from([1.0, 1.0, 0.1, 5.0]))
        c["scale"] = draw(st.sampled_from([None, 1.0, 2.0, -0.5, 0.0, 1e-3]))
        c["gamma"] = draw(st.sampled_from([None, 0.0, 1.0, -2.5]))
        c["eps"] = draw(st.sampled_from([None, None, 1e-7, 1e-6]))
        return c
    return s()


def check_fd(ctx, c):
    from ormatex_py.ode_sys import FdJacLinOp
    sysm, tw, kw, th, src, u, v = setup(c, "fd")
    v = v * c["vs"]
    t, n = c["t"], len(u)
    opts = {k: c[k] for k in ("scale", "gamma", "eps") if c[k] is not None}
    jop = FdJacLinOp(t, jnp_(u), sysm.frhs, frhs_kwargs=kw, **opts)
    require(tuple(jop.shape) == (n, n), f"shape {jop.shape}")
    scale, gamma, eps = opts.get("scale", 1.0), opts.get("gamma", 0.0), opts.get("eps", 0.5e-8)
    J, f = tw.jac(t, u, th), tw.f(t, u, th, src)
    u1 = float(np.sum(np.abs(u))) or 1.0
    h = eps * u1
    up = u + h * v
    m = max(mag(tw, t, u, th, src), mag(tw, t, up, th, src)) + ref.infnorm(J) * ref.maxabs(u)
    mv = float(np.max(np.abs(v)))
    curv = 2 * ref.infnorm(tw.P) * ref.infnorm(tw.R) + float(np.max(np.abs(tw.G)) * ref.infnorm(tw.C) ** 2)
    tol = abs(scale) * (30 * n * EPS * (m + 1e-300) / h + h * mv * mv * curv) + 1e-13 * (abs(scale) * ref.infnorm(J) + abs(gamma)) * mv
    want = scale * (J @ v) + gamma * v
    close(ctx, np.asarray(jop(jnp_(v))), want, tol + 1e-300, f"finite-difference scale*J v + gamma*v, {opts}", "fd Jv")
    close(ctx, np.asarray(jop._frhs_cached()), f, 50 * n * EPS * (m + 1e-300), "fd: cached rhs", "cached")
    curvt = float(np.max(np.abs(tw.G)) * tw.w ** 2 + sum(j * j * np.max(np.abs(tw.B[j])) * (1 + abs(t)) ** j for j in range(len(tw.B))))
    ft = tw.fdt(t, u, src)
    tolt = 20 * EPS * (m + 1e-300) / eps + eps * curvt + 4 * EPS * abs(t) / eps * (ref.maxabs(ft) + curvt)
    close(ctx, np.asarray(jop._fdt()), ft, tolt, "fd: df/dt", "fdt")
    # through the system's own fjac
    if c["us"] == 1.0:
        j2 = sysm.fjac(t, jnp_(u), **kw)
        h2 = 0.5e-8 * u1
        tol2 = 30 * n * EPS * (m + 1e-300) / h2 + h2 * mv * mv * curv
        close(ctx, np.asarray(j2(jnp_(v))), J @ v, tol2 + 1e-12 * ref.infnorm(J) * mv + 1e-300, "fjac with FdJacLinOp: J v", "fd fjac")
    return bool(v.any() and np.any(J != 0)) and scale != 0.0


# --- user-supplied f_du, f_dt, sparse f_du ------------------------------------------------------
def strat_cust(ctx):
    n = [3, 2, 5, 1][ctx.part % 4]
    return st.fixed_dictionaries({
        "J": gen.matrix(n, maxnorm=50.0), "sparse": st.booleans(), "fdt": st.one_of(st.just(None), gen.vec(n)),
        "sys": gen.gensys(n), "u": gen.vec(n), "v": gen.vec(n), "t": st.sampled_from([0.0, 1.5, -4.0]),
        "th": st.sampled_from([0.0, 0.5])})


def check_cust(ctx, c):
    from jax.experimental import sparse as jsp
    from ormatex_py.ode_sys import CustomJacLinOp, OdeSysNp
    from pbt import systems
    u, v, t = np.array(c["u"]), np.array(c["v"]), c["t"]
    n = len(u)
    d = systems.from_case(n, c["sys"])
    sysm, tw = systems.GenSys(d), systems.Twin(d)
    Jm = np.array(c["J"]["a"])     # deliberately not the Jacobian of the rhs: it has to be used as given
    Ja = jsp.BCOO.fromdense(jnp_(Jm), nse=n * n) if c["sparse"] else jnp_(Jm)
    ft = None if c["fdt"] is None else jnp_(c["fdt"])
    kw = {"frhs_kwargs": {"theta": c["th"]}}
    op = CustomJacLinOp(t, jnp_(u), sysm.frhs, Ja, ft, frhs_kwargs=kw)
    tol = 8 * n * EPS * (np.abs(Jm) @ np.abs(v)) + 1e-300
    close(ctx, np.asarray(op(jnp_(v))), Jm @ v, tol, "custom Jacobian is used as given", "custom Jv")
    close(ctx, np.asarray(op.dense()), Jm, 1e-300, "custom Jacobian is used as given (dense)", "custom dense")
    m = mag(tw, t, u, c["th"], 0.0)
    close(ctx, np.asarray(op._frhs_cached()), tw.f(t, u, c["th"]), 50 * n * EPS * m + 1e-300, "custom: cached rhs", "cached")
    if ft is not None:
        exact(np.asarray(op._fdt()), np.array(c["fdt"]), "custom f_dt is used as given")
    # numpy view of the system
    wrap = OdeSysNp(sysm)
    for x in (u, u.reshape(-1, 1)):
        r = wrap.frhs(t, x, **kw)
        require(isinstance(r, np.ndarray) and r.shape == (n,), f"OdeSysNp.frhs returned {type(r)} {getattr(r, 'shape', None)}")
        close(ctx, r, tw.f(t, u, c["th"]), 50 * n * EPS * m + 1e-300, "OdeSysNp.frhs", "np")
        jop = wrap.fjac(t, jnp_(x), **kw)
        close(ctx, np.asarray(jop.matvec_npcompat(jnp_(v))), tw.jac(t, u, c["th"]) @ v,
              200 * n * EPS * (ref.infnorm(tw.jac(t, u, c["th"])) + m + 1) * max(1.0, ref.maxabs(v)), "OdeSysNp.fjac", "np")
    return n > 1 and bool(Jm.any() and v.any())


PROP = Prop("C07", [
    Sub("exact", strat, check, 1600, parts=8, rule="dimension above 1, non-zero Jacobian and direction"),
    Sub("findiff", strat_fd, check_fd, 1200, parts=8, cost=2, rule="non-zero direction, Jacobian and scale"),
    Sub("custom", strat_cust, check_cust, 400, parts=4, cost=3, rule="dimension above 1, non-zero Jacobian and direction"),
], rule="Nonlinear nonautonomous systems (matrix, quadratic, sine, polynomial forcing, kwargs-dependent) with drawn coefficients, states (zero included), times.",
    assumptions=["oracle: analytic Jacobian and time derivative in 80-bit arithmetic; finite differences are judged up to round-off/step and curvature"])
