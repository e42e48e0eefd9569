"""C15: integration returns the trajectory on the requested uniform grid."""
import numpy as np
from hypothesis import strategies as st
from pbt import gen, ref, schemes
from pbt.core import Prop, Sub, Violation, fail, require
from pbt.props.c03 import jnp_
from pbt.util import close, exact, finite

DIMS = [2, 3, 1, 4, 2, 3, 5, 2]
DIFFRAX = ["euler", "heun", "midpoint", "bosh3", "dopri5", "implicit_euler", "implicit_esdirk3", "implicit_esdirk4"]
OWN = ["rk4"] + schemes.RB + schemes.SPLIT + schemes.LEJA + ["exprb2_pfd", "exp_pfd"]
METHODS = OWN + DIFFRAX
MULTI = ("epi3", "epi3_leja_im")
# what one step of the iterative methods may add when it is taken again from the same state
TOL = {m: 1e-11 for m in METHODS}
TOL.update({m: 1e-6 for m in schemes.LEJA})
TOL.update({"implicit_euler": 1e-5, "implicit_esdirk3": 1e-5, "implicit_esdirk4": 1e-5})


def strat(ctx, every=OWN):
    n = DIMS[ctx.part % len(DIMS)]
    methods = sorted(set(ctx.share(every) + [every[(ctx.part + ctx.seed * 3) % len(every)]]))

    @st.composite
    def s(draw):
        m = draw(st.sampled_from(methods))
        leja = m in schemes.LEJA
        d = draw(gen.gensys(n, maxnorm=2.0, forcing=3, kinds=["negdef"] if leja else None))
        if leja:
            d["A"] = (np.array(d["A"]) - 0.5 * np.eye(n)).tolist()
        if m == "exp_pfd":
            d = {"A": draw(gen.matrix(n, kinds=["negdef", "decay"], maxnorm=2.0))["a"]}
        dt = draw(st.sampled_from([0.1, 0.25, 1 / 3, 0.05, 1e-3, 0.7, 1e-6, 0.3]))
        N = draw(st.one_of(st.integers(1, 8), st.sampled_from([1, 2, 13, 20])))
        if not (leja or m.startswith("implicit") or "pfd" in m) and draw(st.integers(0, 3)) == 0:
            dt = -dt
        if m in DIFFRAX:      # every number of steps costs a compile
            N = draw(st.sampled_from([3, 3, 1, 2, 11] if not m.startswith("implicit") else [3, 3, 2]))
        if m not in DIFFRAX and draw(st.integers(0, 11)) == 0:
            N = 0
        return {"method": m, "sys": d, "u0": draw(gen.vec(n)), "dt": dt, "N": N,
                "t0": draw(st.one_of(st.sampled_from([0.0, 1.0, -2.5, 10.0, 1000.0, 0.1]), gen.real(-5, 5, 3))),
                "cut": draw(st.integers(0, 20)), "shift": draw(st.sampled_from([1.0, -3.5, 0.1, 250.0])),
                "lt": draw(st.sampled_from([0.0, 0.25])),
                "unit": draw(st.sampled_from([0, 0, 0, -37, -20, 14, 31])),
                "num": draw(st.sampled_from(["float", "float", "float", "int", "numpy", "jax"]))}
    return s()


def unit(c):
    """The same problem with another unit of time: t = s * (t of the case), s a power of two."""
    return 2.0 ** c.get("unit", 0)


def build(systems, c, d):
    s = unit(c)
    d = dict(d, A=d["A"] / s, B=np.array([b / s ** (j + 1) for j, b in enumerate(d["B"])]),
             P=d["P"] / s, G=d["G"] / s, w=d["w"] / s)
    if c["method"] in schemes.SPLIT:
        return systems.GenSplit(d, None, 0.0 if c["method"].endswith("dense") or s != 1 else c["lt"])
    return systems.GenSys(d)


def number(c, x):
    """The number as a user may well give it: an int, a NumPy or a JAX scalar."""
    import jax.numpy as jnp
    k = c.get("num", "float")
    return {"float": float, "numpy": np.float64, "jax": jnp.asarray, "int": lambda x: int(x) if x == int(x) and abs(x) < 1e6 else float(x)}[k](float(x))


def run(c, sysm, y0, t0, N, what, u=None):
    from ormatex_py.integrate_wrapper import integrate
    s = unit(c) if u is None else 2.0 ** u
    kw = {}
    if c["method"] in schemes.LEJA:
        kw = {"n_leja": 60, "leja_tol": 1e-11, "leja_a": -12.0 / s}
        if c["method"] != "epi2_leja_re":
            kw["leja_c"] = 3.0 / s
    r = integrate(sysm, jnp_(y0), number(c, t0 * s), number(c, c["dt"] * s), N, c["method"], **kw)
    require(r.err_code == 0, f"{what}: error code {r.err_code}")
    for a, b in ((r.t, r.t_res), (r.y, r.y_res), (r.callback_res, r.cb)):
        require(a is b, f"{what}: result accessors disagree")
    ts = np.array([float(t) for t in r.t]) / s
    ys = [np.asarray(y) for y in r.y]
    require(len(ts) == N + 1 and len(ys) == N + 1, f"{what}: {len(ts)} times and {len(ys)} states for {N} steps")
    for y in ys:
        require(y.shape == np.shape(y0), f"{what}: state of shape {y.shape}")
    return ts, np.array(ys)


def check(ctx, c):
    try:
        return judge(ctx, c)
    except Exception as e:
        if c["method"].startswith("implicit") and type(e).__name__ in ("EquinoxRuntimeError", "XlaRuntimeError", "JaxRuntimeError") \
                and not isinstance(e, Violation):
            ctx.label("implicit solver gave up")     # loudly; C10 decides when it may
            return False
        raise


def fdt_small(c, tw, ts, ys):
    """Does tol_fdt = 1e-8, which has the unit of the caller, decide anything?"""
    for t, y in zip(ts, ys):
        x = np.abs(tw.fdt(t, y)).max()
        if 0 < x and min(x, x / unit(c) ** 2) < 1e-6:
            return True
    return False


def judge(ctx, c):
    from pbt import systems
    m, n, dt, N, t0 = c["method"], len(c["u0"]), c["dt"], c["N"], c["t0"]
    d = systems.from_case(n, c["sys"])
    if max(abs(t0), abs(t0 + dt * N)) > 20 and "B" in c["sys"]:
        d["B"][1:] = 0.0          # t^3 at 1000 is another problem
    tw = systems.Twin(d)
    # the true trajectory must stay of moderate size, or everything amplifies
    u, t = np.array(c["u0"], dtype=ref.LD), ref.LD(t0)
    lip = grow = 0.0
    for _ in range(N * 2):
        lip = max(lip, ref.infnorm(tw.jac(t, u)))
        u = schemes.step("rk4", tw, t, u, dt / 2)
        t += dt / 2
        grow = max(grow, ref.maxabs(u))
        if not grow < 20:
            return False
    if lip * abs(dt) * max(N, 1) > 8 or lip * abs(dt) > 2 or (c["lt"] and m in schemes.SPLIT and abs(t0) > 20):
        return False
    sysm = build(systems, c, d)
    ts, ys = run(c, sysm, c["u0"], t0, N, m)
    close(ctx, ts, t0 + dt * np.arange(N + 1), 4e-16 * (N + 1) * (abs(t0) + abs(dt) * N) + 1e-300, f"{m}: times", "times")
    exact(ys[0], np.array(c["u0"]), f"{m}: the first state is the initial state")
    finite(ys, f"{m}: states")
    big = 1 + ref.maxabs(ys)
    if big > 1e4:
        return False
    amp = float(np.exp(min(8.0, lip * abs(dt) * N)))
    tol = TOL[m] * big * amp * (1 + N)
    if N and m not in schemes.LEJA:
        # integration is repeated single steps from the present time and state
        if m not in DIFFRAX:
            it = schemes.integrator(m, sysm, t0 * unit(c), jnp_(c["u0"]))
            for i in range(N):
                r = it.step(dt * unit(c))
                it.accept_step(r)
                close(ctx, ys[i + 1], np.asarray(r.y), tol, f"{m}: state {i + 1} against stepping by hand", "by hand")
    if N > 1 and m not in MULTI:
        k = 1 + c["cut"] % (N - 1) if m not in DIFFRAX else 1
        t1, y1 = run(c, sysm, c["u0"], t0, k, m + " first piece")
        t2, y2 = run(c, sysm, y1[-1], float(t1[-1]), N - k, m + " second piece")
        close(ctx, y1, ys[:k + 1], tol, f"{m}: the first {k} of {N} steps alone", "piece 1")
        close(ctx, y2, ys[k:], tol, f"{m}: restarted after {k} of {N} steps", "piece 2")
    # the unit of time is the caller's choice; multi-step histories and the absolute tol_fdt included
    if N and unit(c) != 1 and not fdt_small(c, tw, ts, ys):
        _, yu = run(c, build(systems, dict(c, unit=0, lt=0.0), d), c["u0"], t0, N, m + " unit of time", 0)
        close(ctx, ys, yu, max(tol, 1e-9 * big * amp), f"{m}: the unit of time is 2^{c['unit']}", "unit")
    # an autonomous system does not know the time
    if N and not (c["lt"] and m in schemes.SPLIT):
        da = dict(d, B=np.concatenate([d["B"][:1], 0 * d["B"][1:]]), w=0.0)
        c2 = dict(c, lt=0.0)
        sa = build(systems, c2, da)
        _, ya = run(c, sa, c["u0"], t0, N, m + " autonomous")
        tb, yb = run(c, sa, c["u0"], t0 + c["shift"], N, m + " shifted")
        if ref.maxabs(ya) < 1e3:
            # dt is recovered from the grid by some methods
            rel = 4e-16 * (abs(t0) + abs(c["shift"]) + abs(dt) * N) / abs(dt)
            close(ctx, yb, ya, (tol + rel * (1 + ref.maxabs(ya)) * amp * lip * abs(dt) * N * 10 + rel * abs(dt) * 10 * (1 + ref.maxabs(ya)) * (1 + lip)),
                  f"{m}: time shifted by {c['shift']}", "shift")
            close(None, tb, t0 + c["shift"] + dt * np.arange(N + 1), 4e-16 * (N + 1) * (abs(t0) + abs(c["shift"]) + abs(dt) * N), f"{m}: shifted times")
    ctx.label(m)
    return N > 0 and ref.maxabs(ys[-1] - ys[0]) > 1e-9


PROP = Prop("C15", [
    Sub("grid", strat, check, 800, parts=8, cost=4, rule="at least one step, and the state moved"),
    Sub("classical", lambda ctx: strat(ctx, DIFFRAX), check, 192, parts=8, cost=4, rule="at least one step, and the state moved"),
], rule="All method names, start times of both signs, steps of both signs, 0 to 20 steps; restarts, time shifts and units of time from 2^-37 to 2^31.",
    assumptions=["restarts are compared for one-step methods only; zero steps only for the ORMATEX integrators"])
