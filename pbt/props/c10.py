"""C10: every method converges to the solution at its advertised order, and is the method its name says."""
import numpy as np
from hypothesis import strategies as st
from pbt import gen, ref, schemes
from pbt.core import Prop, Sub, fail, require
from pbt.props.c03 import jnp_
from pbt.util import close, finite

ORDER = {"exprb2": 2, "exprb3": 3, "pexprb4": 4, "epi2": 2, "epi3": 3, "exprb2_dense": 2,
         "exp1": 1, "exp2": 2, "exp3": 3, "exp1_dense": 1, "exp2_dense": 2, "exp3_dense": 3, "rk4": 4,
         "epi2_leja_re": 2, "epi2_leja_im": 2, "epi3_leja_im": 3,
         "euler": 1, "heun": 2, "midpoint": 2, "bosh3": 3, "dopri5": 5, "implicit_euler": 1,
         "implicit_esdirk3": 3, "implicit_esdirk4": 4}
FLOOR = {"dopri5": 1e-10, "rk4": 1e-11, "euler": 1e-11, "heun": 1e-11, "midpoint": 1e-11, "bosh3": 1e-11, "epi2": 1e-10,
         "epi2_leja_re": 1e-9, "epi2_leja_im": 1e-9, "implicit_euler": 2e-6, "implicit_esdirk3": 2e-6, "implicit_esdirk4": 2e-6}
IMPLICIT = ("implicit_euler", "implicit_esdirk3", "implicit_esdirk4")
ALL = sorted(ORDER)


def reference(tw, t0, u0, T, n):
    """Solution at n equally spaced times (Gragg-Bulirsch-Stoer quality: DOP853 at 1e-13)."""
    from scipy.integrate import solve_ivp

    def f(t, u):
        return np.asarray(tw.f(t, u), dtype=float)
    ts = t0 + T * np.arange(n + 1) / n
    s = solve_ivp(f, (t0, t0 + T), np.asarray(u0, float), method="DOP853", rtol=1e-13, atol=1e-14, t_eval=ts, max_step=abs(T) / 8)
    if s.status != 0 or s.y.shape[1] != n + 1:
        return None
    return s.y.T


def strat(ctx):
    n = [2, 3][ctx.part % 2]
    methods = ctx.share(ALL)

    @st.composite
    def s(draw):
        method = draw(st.sampled_from(methods))
        if method in schemes.LEJA:   # power iteration needs a dominant real eigenvalue
            d = draw(gen.gensys(n, kinds=["negdef", "decay"], maxnorm=1.5, forcing=2, nonlin=False))
            if np.max(np.abs(np.linalg.eigvals(np.array(d["A"])))) < 0.1:
                d["A"] = (-np.eye(n) + 0.25 * np.eye(n, k=-1)).tolist()
            d["P"] = [[draw(gen.q(-0.25, 0.25, 8)) for _ in range(n)] for _ in range(n)]
            d["R"] = [[draw(gen.q(-0.25, 0.25, 8)) for _ in range(n)] for _ in range(n)]
        else:
            d = draw(gen.gensys(n, maxnorm=1.5, forcing=2))
        return {"method": method, "sys": d, "u0": draw(gen.nzvec(n, -1, 1)),
                "t0": draw(st.sampled_from([0.0, 0.5, -1.0])), "T": draw(st.sampled_from([1.0, 0.5])),
                "A0": draw(st.one_of(st.none(), gen.matrix(n, maxnorm=1.5).map(lambda m: m["a"])))}
    return s()


def check(ctx, c):
    from ormatex_py.integrate_wrapper import integrate
    from pbt import systems
    n, method = len(c["u0"]), c["method"]
    d = systems.from_case(n, c["sys"])
    split = method in schemes.SPLIT
    sysm = systems.GenSplit(d, c["A0"]) if split else systems.GenSys(d)
    tw = systems.Twin(d)
    t0, T, p = c["t0"], c["T"], ORDER[method]
    N = 4
    want = reference(tw, t0, c["u0"], T, N)
    if want is None or ref.maxabs(want) > 20:
        return False
    lip = max(ref.infnorm(tw.jac(t0 + T * i / N, want[i])) for i in range(N + 1)) + (ref.infnorm(np.array(c["A0"])) if split and c["A0"] else 0)
    if lip * T > 4:
        return False
    errs = []
    for f in (1, 2, 8):
        dt = T / (N * f)
        res = integrate(sysm, jnp_(c["u0"]), t0, dt, N * f, method)
        ts = np.asarray([float(t) for t in res.t])
        ys = np.array([np.asarray(y) for y in res.y])
        require(ys.shape == (N * f + 1, n), f"{method}: states of shape {ys.shape} for {N * f} steps")
        close(None, ts, t0 + dt * np.arange(N * f + 1), 1e-12 * (1 + abs(t0)), f"{method}: times")
        finite(ys, f"{method}: states")
        errs.append(float(np.max(np.abs(ys[::f] - want))))
    floor = FLOOR.get(method, 1e-6) * (1 + ref.maxabs(want)) * (1 + lip)
    # e(h) = O(h^p): the coarse levels bound the constant
    C = max(errs[0], 2.0 ** p * errs[1])
    bound = 2.5 * C / 8.0 ** p + floor
    ctx.maximum("err/bound " + method, errs[2] / bound)
    require(errs[2] <= bound, f"{method}: errors {errs} with {N}, {2 * N}, {8 * N} steps do not decrease at order {p}")
    # and the coarse error itself is that of a convergent method, not of another problem
    curv = (1 + lip) ** (p + 1) * (1 + ref.maxabs(want)) * (1 + ref.maxabs(tw.B) + ref.maxabs(tw.G) * (1 + abs(tw.w)) ** 3) ** 2
    require(errs[1] <= 10 * curv * (T / N) ** min(p, 2) + floor, f"{method}: error {errs[1]:.3g} with {2 * N} steps")
    ctx.label(method)
    return errs[0] > 10 * floor


# --- named schemes of the diffrax wrapper --------------------------------------------------------
TAB = {
    "euler": ([0], [[]], [1]),
    "heun": ([0, 1], [[], [1]], [.5, .5]),
    "midpoint": ([0, .5], [[], [.5]], [0, 1]),
    "bosh3": ([0, .5, .75], [[], [.5], [0, .75]], [2 / 9, 1 / 3, 4 / 9]),
    "dopri5": ([0, 1 / 5, 3 / 10, 4 / 5, 8 / 9, 1],
               [[], [1 / 5], [3 / 40, 9 / 40], [44 / 45, -56 / 15, 32 / 9],
                [19372 / 6561, -25360 / 2187, 64448 / 6561, -212 / 729],
                [9017 / 3168, -355 / 33, 46732 / 5247, 49 / 176, -5103 / 18656]],
               [35 / 384, 0, 500 / 1113, 125 / 192, -2187 / 6784, 11 / 84]),
    "rk4": ([0, .5, .5, 1], [[], [.5], [0, .5], [0, 0, 1]], [1 / 6, 1 / 3, 1 / 3, 1 / 6])}


def rk(tw, tab, t, u, h):
    cs, A, b = tab
    k = []
    for ci, ai in zip(cs, A):
        k.append(tw.f(t + ci * h, u + h * sum((a * kk for a, kk in zip(ai, k)), start=np.zeros_like(u))))
    return u + h * sum(bi * kk for bi, kk in zip(b, k))


def strat_tab(ctx):
    n = [2, 3, 4, 1][ctx.part % 4]
    methods = ctx.share(sorted(TAB) + ["implicit_euler"])

    @st.composite
    def s(draw):
        return {"method": draw(st.sampled_from(methods)), "sys": draw(gen.gensys(n, maxnorm=2.0)),
                "u0": draw(gen.vec(n)), "t0": draw(st.sampled_from([0.0, 1.0, -2.0, 5.0])),
                "dt": draw(st.sampled_from([0.1, 0.25, 0.5, 0.05, -0.1, -0.25])), "N": draw(st.sampled_from([1, 2, 3, 7, 11])),
                "solver": draw(st.sampled_from(["gmres", "qr"]))}
    return s()


def check_tab(ctx, c):
    from ormatex_py.integrate_wrapper import integrate
    from pbt import systems
    n, method = len(c["u0"]), c["method"]
    d = systems.from_case(n, c["sys"])
    sysm, tw = systems.GenSys(d), systems.Twin(d)
    t0, dt, N = c["t0"], c["dt"], c["N"]
    us = [np.asarray(c["u0"], dtype=ref.LD)]
    tab = TAB.get(method, TAB["rk4"])
    grow = 1.0
    for i in range(N):
        grow *= 1 + abs(dt) * ref.infnorm(tw.jac(t0 + i * dt, us[-1]))
        us.append(rk(tw, tab, t0 + i * dt, us[-1], ref.LD(dt)))
        if ref.maxabs(us[-1]) > 100 or grow > 1e6:
            return False
    if method == "implicit_euler":
        if abs(dt) * max(ref.infnorm(tw.jac(t0 + i * dt, us[i])) for i in range(N + 1)) > 0.5:
            return False
        res = integrate(sysm, jnp_(c["u0"]), t0, dt, N, method, lin_solver=c["solver"])
        ys = np.array(res.y)
        require(ys.shape == (N + 1, n), f"{method}: states of shape {ys.shape} for {N} steps")
        for i in range(N):
            rhs = ys[i] + dt * tw.f(t0 + (i + 1) * dt, ys[i + 1])
            close(ctx, ys[i + 1], rhs, 3e-6 * (1 + ref.maxabs(rhs)), f"implicit_euler step {i + 1}: y1 = y0 + dt f(t1, y1)", "implicit euler")
    else:
        res = integrate(sysm, jnp_(c["u0"]), t0, dt, N, method)
        ys = np.array([np.asarray(y) for y in res.y])
        close(ctx, ys, np.array(us), 1e-13 * N * grow ** 3 * (1 + max(ref.maxabs(u) for u in us)) * (1 + abs(t0)) ** 3,
              f"{method}, {N} steps of {dt} from {t0}", "tableau")
    close(ctx, np.array([float(t) for t in res.t]), t0 + dt * np.arange(N + 1), 1e-12 * (1 + abs(t0)), f"{method}: times", "times")
    ctx.label(method)
    return N > 1 and ref.maxabs(us[-1] - us[0]) > 1e-9


PROP = Prop("C10", [
    Sub("order", strat, check, 96, parts=8, cost=30, rule="coarse error well above the round-off floor"),
    Sub("named", strat_tab, check_tab, 200, parts=7, cost=8, rule="more than one step and a state that moves"),
], rule="Nonlinear nonautonomous systems with drawn coefficients, t0 of either sign; 4, 8 and 32 steps.",
    assumptions=["oracle: DOP853 at 1e-13 for convergence; the Butcher tableaux for the named explicit schemes"])
