"""C08: exponential integrators are exact on linear problems with the forcing their order covers."""
import numpy as np
from hypothesis import strategies as st
from pbt import gen, ref, schemes
from pbt.core import Prop, Sub, fail, require
from pbt.props.c03 import jnp_
from pbt.util import close

EPS = ref.EPS
DIMS = [3, 2, 5, 1, 4, 3, 2, 6]
# degree of the polynomial forcing each scheme integrates exactly
DEG = {"exprb2": 1, "epi2": 1, "exprb2_dense": 1, "exprb3": 2, "epi3": 1, "pexprb4": 3,
       "exp1": 0, "exp2": 1, "exp3": 1, "exp1_dense": 0, "exp2_dense": 1, "exp3_dense": 1}
T0S = [0.0, 0.0, 1.0, -2.5, 10.0]
DTS = [1.0, 0.5, 0.1, 2.0, -0.5, 1e-3, 0.25, -1.0]


def strat(ctx):
    n = DIMS[ctx.part % len(DIMS)]
    methods = ctx.share(sorted(DEG))

    @st.composite
    def s(draw):
        method = draw(st.sampled_from(sorted(set(methods + ["pexprb4", "epi3", "exprb3"]))))
        deg = draw(st.integers(0, DEG[method]))
        nst = draw(st.integers(1, 3))
        jac = draw(st.sampled_from(["ad", "ad", "custom", "custom_nodt"]))
        return {"method": method, "sys": {"A": draw(gen.matrix(n, maxnorm=8.0))["a"],
                                          "B": [draw(gen.vec(n)) for _ in range(deg + 1)]},
                "jac": jac, "u0": draw(gen.vec(n)), "t0": draw(st.sampled_from(T0S)),
                "dts": draw(st.lists(st.sampled_from(DTS), min_size=nst, max_size=nst)),
                "kw": draw(st.sampled_from([None, None, [0.5, 1.0 if DEG[method] else 0.0], [-1.0, -0.5 if DEG[method] else 0.0]]))}
    return s()


def check(ctx, c):
    from pbt import systems
    n, method = len(c["u0"]), c["method"]
    d = systems.from_case(n, c["sys"])
    tw = systems.Twin(d)
    split = method in schemes.SPLIT
    sysm = systems.GenSplit(d) if split else systems.JAC_KINDS[c["jac"]](d)
    th, src = c["kw"] or (0.0, 0.0)
    A = (1 + th) * tw.A
    t, u = c["t0"], np.array(c["u0"])
    it = schemes.integrator(method, sysm, t, jnp_(u))
    step_kw = {} if c["kw"] is None else {"frhs_kwargs": {"theta": th, "src": src}}
    for i, h in enumerate(c["dts"]):
        r = it.step(h, **step_kw)
        want, vb = schemes.affine_exact(A, tw.forcing(src), t, u, h)
        g = max(1.0, ref.maxabs(ref.phi(h * A, 0)), ref.maxabs(ref.phi(h / 2 * A, 0)))
        nh = ref.infnorm(h * A)
        # size of the terms: h f(t, u), and the forcing
        fv = ref.maxabs(h * tw.f(t, u, th, src)) + sum(ref.maxabs(v) for v in vb[1:]) * (1 + abs(t))
        if nh > 40 or g > 1e4:
            return False
        tol = n * g * g * (1 + nh) * (fv * (1e-12 if method == "epi2" else 4e-6 if method.endswith("_dense") else 4e-7)) + 1e-14 * (1 + ref.maxabs(u)) * (1 + nh)
        if not split and c["jac"] == "custom_nodt":
            tol += n * g * (1e-6 * h * h * (1 + abs(t)) ** 2 * (1 + ref.maxabs(tw.f(t, u, th, src)) + ref.maxabs(d["B"]) * 10))
        got = np.asarray(r.y)
        close(ctx, got, want, tol, f"{method} step {i + 1} ({h:+g} from t={t:g}) on a linear problem with forcing of degree "
              f"{len(c['sys']['B']) - 1}", method)
        close(ctx, float(r.t), t + h, 1e-14 * (1 + abs(t) + abs(h)), f"{method}: time after the step", "time")
        it.accept_step(r)
        t, u = float(r.t), got
        if ref.maxabs(u) > 1e8:
            return False
    ctx.label(method)
    return n > 1 and bool(np.any(A != 0)) and bool(u.any())


# --- exponential by partial fractions: homogeneous problems, dissipative spectrum -----------------
def strat_pfd(ctx):
    n = [3, 2, 5, 4][ctx.part % 4]

    @st.composite
    def s(draw):
        method = draw(st.sampled_from(["exp_pfd", "exprb2_pfd"]))
        return {"method": method, "A": draw(gen.matrix(n, kinds=["negdef", "decay", "zero", "stiff"], maxnorm=1000.0,
                                                       scales=[1.0, 10.0, 100.0]))["a"],
                "B": [draw(gen.vec(n)) for _ in range(2)] if method == "exprb2_pfd" else [],
                "u0": draw(gen.vec(n)), "t0": draw(st.sampled_from(T0S)),
                "dts": draw(st.lists(st.sampled_from([1.0, 0.1, 10.0, 1e-3]), min_size=1, max_size=3)),
                "pfd": draw(st.sampled_from([None, "cram_16", "cram_14"]))}
    return s()


def check_pfd(ctx, c):
    from pbt import systems
    n = len(c["u0"])
    d = systems.from_case(n, {"A": c["A"], "B": c["B"] or None})
    tw, sysm = systems.Twin(d), systems.GenSys(d)
    A = np.array(c["A"])
    if np.max(np.linalg.eigvals(A).real) > 1e-9:
        return False
    kw = {} if c["pfd"] is None else {"pfd_method": c["pfd"]}
    t, u = c["t0"], np.array(c["u0"])
    it = schemes.integrator(c["method"], sysm, t, jnp_(u), **kw)
    for h in c["dts"]:
        if c["method"] == "exp_pfd" and c["B"]:
            return False
        r = it.step(h)
        want, vb = schemes.affine_exact(A, tw.B, t, u, h)
        # condition of the eigenvector basis amplifies the scalar error of the approximant
        w, V = np.linalg.eig(A)
        kap = np.linalg.cond(V)
        if not kap < 1e4:
            return False
        size = ref.maxabs(u) if c["method"] == "exp_pfd" else ref.maxabs(h * tw.f(t, u)) + ref.maxabs(h * h * tw.fdt(t, u))
        tol = n * kap * size * (1e-9 if c["pfd"] == "cram_14" else 1e-11) * (1.0 + 1e-6 * ref.infnorm(h * A)) + 1e-15 * (1 + ref.maxabs(u))
        if c["method"] == "exprb2_pfd" and ref.maxabs(tw.fdt(t, u)) < 1e-8:
            tol += 1e-8 * h * h
        close(ctx, np.asarray(r.y), want, tol, f"{c['method']} with {c['pfd']} on a dissipative linear problem", c["method"])
        it.accept_step(r)
        t, u = float(r.t), np.asarray(r.y)
    ctx.label(c["method"])
    return n > 1 and bool(A.any()) and bool(u.any())


# --- whole trajectories through integrate(): stiff decay, many steps -------------------------------
def strat_traj(ctx):
    n = [3, 4][ctx.part % 2]
    return st.fixed_dictionaries({
        "method": st.sampled_from(sorted(DEG)),
        "A": gen.matrix(n, kinds=["negdef", "decay", "skew", "tridiag", "jordan"], maxnorm=5.0),
        "B": st.lists(gen.vec(n), min_size=1, max_size=1), "u0": gen.nzvec(n),
        "t0": st.sampled_from([0.0, 3.0, -1.0]), "dt": st.sampled_from([0.1, 0.5, 0.25]), "N": st.integers(1, 12)})


def check_traj(ctx, c):
    from ormatex_py.integrate_wrapper import integrate
    from pbt import systems
    A = np.array(c["A"]["a"])
    n = len(A)
    d = systems.from_case(n, {"A": A, "B": c["B"]})
    sysm = systems.GenSplit(d) if c["method"] in schemes.SPLIT else systems.GenSys(d)
    N, dt, t0 = c["N"], c["dt"], c["t0"]
    if np.max(np.linalg.eigvals(A).real) * N * dt > 3:
        return False
    res = integrate(sysm, jnp_(c["u0"]), t0, dt, N, c["method"])
    require(len(res.t) == N + 1 and len(res.y) == N + 1, f"{len(res.t)} times and {len(res.y)} states for {N} steps")
    g, fmax = 1.0, 0.0
    wants = []
    for i in range(N + 1):
        w, vb = schemes.affine_exact(A, systems.Twin(d).B, t0, c["u0"], i * dt)
        g = max(g, ref.maxabs(ref.phi(i * dt * A, 0)))
        fmax = max(fmax, ref.maxabs(systems.Twin(d).f(t0 + i * dt, w)))
        wants.append(w)
    if g > 1e3:
        return False
    for i in range(N + 1):
        close(ctx, float(res.t[i]), t0 + i * dt, 1e-13 * (1 + abs(t0) + i), f"{c['method']}: time {i}", "time")
        tol = n * g * g * g * i * dt * fmax * 2e-5 * (1 + dt * ref.infnorm(A)) + 1e-13 * (1 + ref.maxabs(c["u0"])) * g
        close(ctx, np.asarray(res.y[i]), wants[i], tol, f"{c['method']}: state after {i} steps", "trajectory")
    return bool(A.any()) and N > 1


# --- units: a linear problem in other units has the same solution in those units ---------------------
def strat_units(ctx):
    n = DIMS[(ctx.part + 1) % 4]
    methods = ctx.share(sorted(DEG) + ["rk4", "exp_pfd"])

    @st.composite
    def s(draw):
        method = draw(st.sampled_from(methods))
        deg = -1 if method == "exp_pfd" else draw(st.integers(0, 2))
        return {"method": method, "A": draw(gen.matrix(n, kinds=["negdef", "decay", "tridiag", "full", "skew"], maxnorm=4.0)),
                "B": [draw(gen.vec(n)) for _ in range(deg + 1)], "u0": draw(gen.nzvec(n)), "t0": draw(st.sampled_from([0.0, 2.0])),
                "dts": draw(st.lists(st.sampled_from([0.5, 0.1, 1.0]), min_size=1, max_size=3)),
                "e": draw(st.sampled_from([-60, -40, -200, -300, 40, 100, 0])), "et": draw(st.sampled_from([0, 0, -30, 20, 60]))}
    return s()


def check_units(ctx, c):
    from pbt import systems
    A, n, m = np.array(c["A"]["a"]), len(c["u0"]), c["method"]

    def run(f, g):
        # quantities times f, time divided by g
        d = systems.from_case(n, {"A": A * g, "B": [np.array(b) * f * g ** (j + 1) for j, b in enumerate(c["B"])] or None})
        sysm = systems.GenSplit(d) if m in schemes.SPLIT else systems.GenSys(d)
        # tol_fdt, the size below which a time derivative counts as absent, is given in the user's units
        it = schemes.integrator(m, sysm, c["t0"] / g, jnp_(np.array(c["u0"]) * f), **({"tol_fdt": 0.0} if m in schemes.RB else {}))
        out = []
        for h in c["dts"]:
            r = it.step(h / g)
            it.accept_step(r)
            out.append(np.asarray(r.y) / f)
        return out
    a, b = run(1.0, 1.0), run(2.0 ** c["e"], 2.0 ** c["et"])
    big = max(ref.maxabs(x) for x in a + [c["u0"]])
    if not big < 1e6:
        return False
    for i, (x, y) in enumerate(zip(a, b)):
        close(ctx, y, x, 1e-9 * (1e-6 + big), f"{m}: step {i + 1} with all quantities times 2^{c['e']}, time divided by 2^{c['et']}", "units")
    ctx.label(m)
    return bool(A.any()) and ref.maxabs(a[-1] - np.array(c["u0"])) > 1e-6 * big


# --- superposition: a slow forcing next to a fast right-hand side adds its own solution --------------
def strat_slow(ctx):
    n = DIMS[(ctx.part + 2) % 6]
    methods = ctx.share([m for m in sorted(DEG) if DEG[m]])

    @st.composite
    def s(draw):
        return {"method": draw(st.sampled_from(methods)), "A": draw(gen.matrix(n, maxnorm=6.0))["a"], "u0": draw(gen.vec(n)),
                "B0": draw(gen.vec(n)), "B1": draw(gen.nzvec(n)), "big": draw(st.sampled_from([1.0, 10.0, 1e3, 1e5, 1e-3])),
                "eps": draw(st.sampled_from([1.0, 1e-2, 1e-4, 1e-5, 1e-6])), "h": draw(st.sampled_from([0.5, 1.0, 0.1, -0.5, 2.0]))}
    return s()


def check_slow(ctx, c):
    from pbt import systems
    A, m, h, n = np.array(c["A"]), c["method"], c["h"], len(c["u0"])
    u, B0, B1 = c["big"] * np.array(c["u0"]), c["big"] * np.array(c["B0"]), c["eps"] * np.array(c["B1"])

    def run(B):
        d = systems.from_case(n, {"A": A, "B": B})
        sysm = systems.GenSplit(d) if m in schemes.SPLIT else systems.GenSys(d)
        return np.asarray(schemes.integrator(m, sysm, 0.0, jnp_(u)).step(h).y)
    g = max(1.0, ref.maxabs(ref.phi(h * A, 0)), ref.maxabs(ref.phi(h / 2 * A, 0)))
    nh = ref.infnorm(h * A)
    if nh > 20 or g > 1e3 or ref.maxabs(B1) < 2e-8:      # tol_fdt is 1e-8
        return False
    want = h * h * (ref.phi(h * A, 2) @ B1.astype(ref.LD))
    tol = n * g * g * (1 + nh) * (1e-4 * h * h * ref.maxabs(B1)) + 2e-14 * n * g * g * (1 + nh) ** 2 * (ref.maxabs(u) + abs(h) * ref.maxabs(A @ u + B0))
    close(ctx, run([B0, B1]) - run([B0, 0 * B1]), want, tol, f"{m}: what forcing {c['eps']:g} B1 t adds to one step {h:+g}", m)
    ctx.label(m)
    return ref.maxabs(want) > 100 * tol


PROP = Prop("C08", [
    Sub("superposed", strat_slow, check_slow, 400, parts=5, cost=6, rule="what the forcing adds is 100 times the tolerance"),
    Sub("units", strat_units, check_units, 240, parts=4, cost=6, rule="non-zero operator, the state changes"),
    Sub("steps", strat, check, 640, parts=8, cost=6, rule="dimension above 1, non-zero operator and non-zero final state"),
    Sub("pfd", strat_pfd, check_pfd, 160, parts=4, cost=6, rule="dimension above 1, non-zero operator and final state"),
    Sub("trajectory", strat_traj, check_traj, 60, parts=2, cost=20, rule="non-zero operator, more than one step"),
], rule="u' = A u + polynomial forcing with A from 15 families, forward and backward steps of different sizes, any t0.",
    assumptions=["oracle: variation of constants by the 80-bit exponential of the augmented matrix",
                 "methods that evaluate phi_k, k>0, by squaring are judged up to its documented degree-4 truncation (about 2e-6)"])
