"""C09: every step of every scheme is the documented formula, on nonlinear nonautonomous systems."""
import numpy as np
from hypothesis import strategies as st
from pbt import gen, ref, schemes
from pbt.core import Prop, Sub, fail, require
from pbt.props.c03 import jnp_
from pbt.util import close

EPS = ref.EPS
DIMS = [3, 2, 4, 1, 3, 5, 2, 3]
METHODS = schemes.RB + schemes.SPLIT + ["rk4"]
DTS = [0.5, 0.1, 0.25, 1.0, -0.25, 0.03125, 1e-3]


def strat(ctx, methods=None):
    n = DIMS[ctx.part % len(DIMS)]
    full = methods is not None        # nonlinear and dependent on time in every case
    methods = methods or sorted(set(ctx.share(METHODS) + [METHODS[(ctx.part + 5) % len(METHODS)], "epi3"]))

    @st.composite
    def s(draw):
        method = draw(st.sampled_from(methods))
        split = method in schemes.SPLIT
        jac = "ad"
        if method in schemes.RB:
            jac = draw(st.sampled_from(["ad", "ad", "custom", "custom_nodt"] + ([] if method == "exprb2_dense" else ["fd"])))
        nst = draw(st.integers(1, 3))
        c = {"method": method, "jac": jac, "sys": draw(gen.gensys(n, maxnorm=3.0, full=full)), "u0": draw(gen.vec(n)),
             "t0": draw(st.sampled_from([0.0, 0.5, -1.0, 2.0])),
             "dts": draw(st.lists(st.sampled_from(DTS), min_size=nst, max_size=nst)),
             "kw": draw(st.sampled_from([None, None, [0.5, 1.0], [-0.5, -0.5]]))}
        if split:
            # L need not be the linear part of the right-hand side; the non-dense variants re-evaluate it
            c["A0"] = draw(st.one_of(st.none(), gen.matrix(n, maxnorm=3.0).map(lambda m: m["a"])))
            c["lt"] = 0.0 if method.endswith("dense") else draw(st.sampled_from([0.0, 0.0, 0.5]))
        if c["kw"] and not (method.endswith("_dense") and split):
            c["kw2"] = draw(st.booleans())    # other kwargs from the second step on
        return c
    return s()


def tolerance(tw, t, u, h, th, src, exactk):
    """Size of one step's ingredients, and how the scheme amplifies phi errors."""
    fn = tw.f(t, u, th, src)
    scale = ref.maxabs(fn) * abs(h) + ref.maxabs(tw.fdt(t, u, src)) * h * h
    # remainder terms
    return fn, scale


def check(ctx, c):
    from pbt import systems
    n, method = len(c["u0"]), c["method"]
    d = systems.from_case(n, c["sys"])
    split = method in schemes.SPLIT
    A0, lt = (c.get("A0"), c.get("lt", 0.0)) if split else (None, 0.0)
    tw = systems.Twin(d, A0, lt)
    sysm = systems.GenSplit(d, A0, lt) if split else systems.JAC_KINDS[c["jac"]](d)
    t, u = c["t0"], np.array(c["u0"])
    it = schemes.integrator(method, sysm, t, jnp_(u))
    prev = None
    nontriv = False
    for i, h in enumerate(c["dts"]):
        kw = c["kw"]
        if kw and c.get("kw2") and i:
            kw = [kw[0] + 0.25, -kw[1]]
        th, src = kw or (0.0, 0.0)
        step_kw = {} if kw is None else {"frhs_kwargs": {"theta": th, "src": src}}
        r = it.step(h, **step_kw)
        got = np.asarray(r.y)
        want = schemes.step(method, tw, t, u, h, prev, th, src)
        tol, ok = step_tol(method, tw, t, u, h, prev, th, src, c["jac"], n, want)
        if not ok:
            return nontriv
        close(ctx, got, want, tol, f"{method} ({c['jac']} Jacobian) step {i + 1}, {h:+g} from t={t:g}",
              "rk4" if method == "rk4" else method)
        close(ctx, float(r.t), t + h, 1e-14 * (1 + abs(t) + abs(h)), f"{method}: time after the step", "time")
        require(float(r.dt) == h, f"{method}: StepResult.dt is {r.dt}, step was {h}")
        it.accept_step(r)
        prev = (t, u)
        t, u = float(r.t), got
        nontriv = nontriv or ref.maxabs(got - prev[1]) > 1e-6
        if ref.maxabs(u) > 50:
            break
    ctx.label(method)
    return n > 1 and nontriv


def step_tol(method, tw, t, u, h, prev, th, src, jac, n, want):
    fn = tw.f(t, u, th, src)
    if ref.maxabs(want) > 1e4 or not np.all(np.isfinite(want.astype(float))):
        return 0, False
    if method == "rk4":
        nh = abs(h) * (ref.infnorm(tw.jac(t, u, th)) + 1)
        return 1e-13 * (1 + nh) ** 4 * (1 + ref.maxabs(u) + ref.maxabs(want) + abs(h) * ref.maxabs(fn)) * 20, True
    M = tw.L(t, u, th) if method in schemes.SPLIT else tw.jac(t, u, th)
    hM = h * M
    nh = ref.infnorm(hM)
    if nh > 20:
        return 0, False
    g = max(1.0, ref.maxabs(ref.phi(hM, 0)), ref.maxabs(ref.phi(hM / 2, 0)))
    size = abs(h) * ref.maxabs(fn) + h * h * ref.maxabs(tw.fdt(t, u, src))
    # remainders enter through a second phi product; their Lipschitz constant near the stage values
    lip = abs(h) * (ref.infnorm(tw.jac(t, u, th)) + ref.infnorm(tw.jac(t + h, want, th)) + ref.infnorm(M) + 1)
    rsize = 0.0
    pts = [(t + h, want)]
    if prev is not None:
        pts.append((prev[0], np.asarray(prev[1], dtype=ref.LD)))
    for tt, uu in pts:
        du = uu - np.asarray(u, dtype=ref.LD)
        rsize = max(rsize, abs(h) * (ref.maxabs(tw.f(tt, uu, th, src)) + ref.maxabs(fn) + ref.infnorm(M) * ref.maxabs(du)))
    # phi_k by squaring from a Taylor start of degree 4: what is cut off starts with the power 5 - k
    k = {"exprb3": 3, "pexprb4": 4, "exp1": 1, "exp1_dense": 1}.get(method, 2)
    cut = min(1.0, float(n * nh)) ** (5 - k)
    base = 1e-12 if method == "epi2" else 1e-12 + (min(4e-6, cut) if method.endswith("_dense") else 4e-7 * cut)
    big = size + (rsize if method not in ("exprb2", "epi2", "exprb2_dense", "exp1", "exp1_dense") else 0.0)
    tol = n * g * g * (1 + nh) * (1 + 4 * lip) * big * base
    tol += 1e-13 * (1 + ref.maxabs(u)) * (1 + lip)
    if jac in ("custom_nodt", "fd"):
        mt = 1 + ref.maxabs(fn) + ref.maxabs(tw.B) * (1 + abs(t)) ** 3 * 3 + ref.maxabs(tw.G) * (1 + tw.w ** 2)
        tol += n * g * (1 + lip) * float(2e-6 * h * h * mt)
    if jac == "fd":
        u1 = float(np.sum(np.abs(u))) or 1.0
        mf = float(np.max(np.abs(tw.A) @ np.abs(u)) * (1 + abs(th))) + abs(src) * (1 + abs(t)) + ref.maxabs(fn) + ref.maxabs(tw.B) * (1 + abs(t)) ** 3 \
            + ref.maxabs(tw.G) * 2 + ref.infnorm(tw.P) * ref.infnorm(tw.R) * ref.maxabs(u) ** 2
        dj = 1e-14 * n * mf / (0.5e-8 * u1) + 1e-8 * u1 * (2 * ref.infnorm(tw.P) * ref.infnorm(tw.R) + ref.maxabs(tw.G) * ref.infnorm(tw.C) ** 2)
        if abs(h) * dj > 0.01:
            return 0, False
        # the Krylov spaces of the perturbed operator have any accuracy of their own kind
        tol += n * g * g * (1 + nh) * (1 + lip) * abs(h) * dj * (big + abs(h)) * 10
    return float(tol), True


# --- krylov options reach the phi evaluation ------------------------------------------------------
def strat_opt(ctx):
    n = [6, 5][ctx.part % 2]
    return st.fixed_dictionaries({
        "method": st.sampled_from(["exprb2", "epi2", "exp1"]), "sys": gen.gensys(n, maxnorm=5.0, forcing=1, sin=False),
        "u0": gen.nzvec(n), "h": st.sampled_from([0.5, 0.25, -0.25]),
        "dim": st.sampled_from([1, 2, 3, 100]), "iom": st.sampled_from([1, 2, 100])})


def check_opt(ctx, c):
    from ormatex_py.matexp_krylov import kiops_fixedsteps, phi_linop
    from pbt import systems
    n = len(c["u0"])
    d = systems.from_case(n, c["sys"])
    split = c["method"] == "exp1"
    sysm = systems.GenSplit(d) if split else systems.GenSys(d)
    u, h = jnp_(c["u0"]), c["h"]
    it = schemes.integrator(c["method"], sysm, 0.0, u, max_krylov_dim=c["dim"], iom=c["iom"])
    got = np.asarray(it.step(h).y)
    op = sysm.fl(0.0, u) if split else sysm.fjac(0.0, u)
    f = sysm.frhs(0.0, u)
    if c["method"] == "epi2":
        z = u * 0
        upd = kiops_fixedsteps(op, h, [z, h * f, z], c["dim"], iom=c["iom"])
    else:
        upd = phi_linop(op, h, h * f, 1, c["dim"], c["iom"])
    want = np.asarray(u + upd)
    if not np.all(np.isfinite(want)) or ref.maxabs(want) > 1e6:
        return False
    # an incomplete basis makes the projected matrix depend on round-off only mildly
    close(ctx, got, want, 1e-9 * (1 + ref.maxabs(want)), f"{c['method']} with max_krylov_dim={c['dim']}, iom={c['iom']}", "options")
    return c["dim"] < n or c["iom"] < n


# --- rational variants on nonlinear systems -----------------------------------------------------------
def strat_pfd(ctx):
    n = [3, 2][ctx.part % 2]

    @st.composite
    def s(draw):
        d = draw(gen.gensys(n, maxnorm=3.0, kinds=["negdef", "decay", "tridiag", "diag"], full=draw(st.booleans())))
        A = np.array(d["A"])
        d["A"] = (A - draw(st.sampled_from([0.5, 1.0, 2.0])) * np.eye(n)).tolist()
        nst = draw(st.integers(1, 3))
        return {"method": draw(st.sampled_from(["exp_pfd", "exprb2_pfd", "exprb2_pfd"])), "jac": draw(st.sampled_from(["ad", "ad", "custom", "custom_nodt"])),
                "sys": d, "u0": draw(gen.vec(n)), "t0": draw(st.sampled_from([0.0, 0.5, -1.0, 2.0])),
                "dts": draw(st.lists(st.sampled_from([0.5, 0.1, 0.25, 1.0, 1e-3, 4.0]), min_size=nst, max_size=nst)),
                "kw": draw(st.sampled_from([None, None, [0.5, 1.0], [-0.25, -0.5]])), "kw2": draw(st.booleans()),
                "pfd": draw(st.sampled_from([None, "cram_16", "cram_14"] + EXACT[ctx.seed % 2]))}
    return s()


EXACT = [["CN", "pade_2_2", "pade_0_4"], ["IE", "CN", "pade_1_2", "pade_4_4"]]      # tables with a closed form


def ratmul(name, k, Z, b):
    """R_k(Z) b and the condition of the denominator, for the rational approximant of that name."""
    from pbt.props.c02 import induced, rational
    P, Q = rational(name)
    val = lambda c: sum(float(x) * np.linalg.matrix_power(Z, i) for i, x in enumerate(c)) + 0 * Z
    D = val(Q)
    return np.linalg.solve(D, val(induced(P, Q, k)) @ np.asarray(b, dtype=float)), np.linalg.cond(D)


def check_pfd(ctx, c):
    from pbt import systems
    n, method = len(c["u0"]), c["method"]
    d = systems.from_case(n, c["sys"])
    tw, sysm = systems.Twin(d), systems.JAC_KINDS[c["jac"]](d)
    t, u = c["t0"], np.array(c["u0"])
    it = schemes.integrator(method, sysm, t, jnp_(u), **({} if c["pfd"] is None else {"pfd_method": c["pfd"]}))
    moved = False
    for i, h in enumerate(c["dts"]):
        kw = c["kw"]
        if kw and c["kw2"] and i:
            kw = [kw[0] + 0.25, -kw[1]]
        th, src = kw or (0.0, 0.0)
        hJ = h * tw.jac(t, u, th).astype(float)
        w, V = np.linalg.eig(hJ)
        kap = np.linalg.cond(V)
        closed = c["pfd"] is not None and "cram" not in c["pfd"]
        # inside the half plane the approximant is made for
        if closed and not kap < 1e6 or not closed and not (kap < 1e4 and np.max(w.real) <= 0.0 and np.max(np.abs(w.imag)) <= 1.0):
            ctx.label("not judged")
            return moved
        r = it.step(h, **({} if kw is None else {"frhs_kwargs": {"theta": th, "src": src}}))
        want = schemes.step(method, tw, t, u, h, None, th, src)
        fn, ft = tw.f(t, u, th, src), tw.fdt(t, u, src)
        size = ref.maxabs(u) if method == "exp_pfd" else ref.maxabs(h * fn) + ref.maxabs(h * h * ft)
        tol = n * kap * size * (1e-8 if c["pfd"] == "cram_14" else 1e-10) + 1e-14 * (1 + ref.maxabs(u))
        if closed:                      # the named approximant itself, in place of the exact functions
            terms = [(1.0, 0, u)] if method == "exp_pfd" else [(h, 1, fn), (h * h, 2, ft)]
            parts = [(a, ratmul(c["pfd"], k, hJ, b)) for a, k, b in terms]
            if max(q for _, (_, q) in parts) > 1e4:
                ctx.label("not judged")
                return moved
            want = (0 if method == "exp_pfd" else u) + sum(a * v for a, (v, _) in parts)
            tol = 1e-9 * size + 1e-14 * (1 + ref.maxabs(u))
        if method == "exprb2_pfd":
            tol += 1.5e-8 * h * h               # a smaller time derivative is taken as none (documented)
            if c["jac"] == "custom_nodt":
                mt = 1 + ref.maxabs(fn) + ref.maxabs(tw.B) * (1 + abs(t)) ** 3 * 3 + ref.maxabs(tw.G) * (1 + tw.w ** 2)
                tol += n * kap * float(2e-6 * h * h * mt)
        close(ctx, np.asarray(r.y), want, tol, f"{method} with {c['pfd']} ({c['jac']} Jacobian) step {i + 1}, {h:+g} from t={t:g}", method)
        close(ctx, float(r.t), t + h, 1e-14 * (1 + abs(t) + abs(h)), f"{method}: time after the step", "time")
        require(float(r.dt) == h, f"{method}: StepResult.dt is {r.dt}, step was {h}")
        it.accept_step(r)
        moved = moved or ref.maxabs(np.asarray(r.y) - u) > 1e-6
        t, u = float(r.t), np.asarray(r.y)
        if ref.maxabs(u) > 50:
            break
    ctx.label(method)
    return moved


# --- every Krylov scheme with a small subspace ------------------------------------------------------------
def strat_sub(ctx):
    n = 6
    pool = [["exprb3", "exp3", "exprb2"], ["pexprb4", "exp2", "epi2"], ["epi3", "exp1", "exp3"], ["exprb3", "pexprb4", "exp2"]][ctx.part % 4]

    @st.composite
    def s(draw):
        method = draw(st.sampled_from(pool))
        c = {"method": method, "sys": draw(gen.gensys(n, maxnorm=2.0, full=True)), "u0": draw(gen.nzvec(n)), "t0": draw(st.sampled_from([0.0, 0.5])),
             "rho": draw(st.sampled_from([0.02, 0.05, 0.1, 0.2])), "dim": [6, 4, 5, 3][(ctx.part + ctx.seed) % 4], "steps": draw(st.integers(1, 3))}
        if method in schemes.SPLIT:
            c["A0"] = draw(st.one_of(st.none(), gen.matrix(n, maxnorm=2.0).map(lambda m: m["a"])))
        return c
    return s()


def check_sub(ctx, c):
    from pbt import systems
    n, method, m = len(c["u0"]), c["method"], c["dim"]
    d = systems.from_case(n, c["sys"])
    split = method in schemes.SPLIT
    tw = systems.Twin(d, c.get("A0"), 0.0)
    sysm = systems.GenSplit(d, c.get("A0"), 0.0) if split else systems.GenSys(d)
    t, u = c["t0"], np.array(c["u0"])
    M0 = tw.L(t, u, 0.0) if split else tw.jac(t, u, 0.0)
    s0 = float(np.linalg.norm(M0.astype(float), 2))
    if s0 < 1e-3:
        return False
    h = float(f"{min(c['rho'] / s0, 0.5):.3g}")
    it = schemes.integrator(method, sysm, t, jnp_(u), max_krylov_dim=m)
    prev, judged = None, False
    for i in range(c["steps"]):
        r = it.step(h)
        got = np.asarray(r.y)
        want = schemes.step(method, tw, t, u, h, prev, 0.0, 0.0)
        tol, ok = step_tol(method, tw, t, u, h, prev, 0.0, 0.0, "ad", n, want)
        if not ok or ref.maxabs(want) > 50:
            return judged
        M = tw.L(t, u, 0.0) if split else tw.jac(t, u, 0.0)
        rho = abs(h) * float(np.linalg.norm(M.astype(float), 2))
        # a Krylov space of dimension m holds the terms below M^m: error bound for the exponential (Saad), times the vectors it acts on
        fact = float(np.prod(np.arange(1, m + 1)))
        left = lambda j: 2 * np.exp(rho) * rho ** max(m - j, 0) / fact
        fn, ft = float(np.linalg.norm(tw.f(t, u, 0.0, 0.0).astype(float))), float(np.linalg.norm(tw.fdt(t, u, 0.0).astype(float)))
        p = {"epi2": 2, "epi3": 2, "exprb3": 3, "pexprb4": 4}.get(method, 0)
        pts = [(t + h, want)] + ([(prev[0], np.asarray(prev[1], dtype=ref.LD))] if prev else [])
        fu, uu = tw.f(t, u, 0.0, 0.0), np.asarray(u, dtype=ref.LD)
        rem = max(float(np.linalg.norm((tw.f(a, b, 0.0, 0.0) - fu - M @ (b - uu) - (0 if split else 1) * tw.fdt(t, u, 0.0) * (a - t)).astype(float))) for a, b in pts)
        if method == "epi3" and not prev:
            p = 3
        bound = abs(h) * fn * left(1 if p else 0) + h * h * ft * left(2 if p else 0) + 20 * abs(h) * rem * left(p)
        close(ctx, got, want, tol + 3 * bound, f"{method} with max_krylov_dim={m} of {n}, step {i + 1} of {h:g} (|h M| {rho:.2g})", method)
        ctx.label(method)
        judged = judged or bound < 1e-3 * (ref.maxabs(want - u) + 1e-12)
        it.accept_step(r)
        prev = (t, u)
        t, u = float(r.t), got
    return judged


# --- short recurrences are enough for a symmetric operator ----------------------------------------------------
def strat_sym(ctx):
    n = [6, 5][ctx.part % 2]

    @st.composite
    def s(draw):
        A = np.array(draw(gen.matrix(n, maxnorm=3.0, kinds=["full", "upper", "diag", "tridiag"]))["a"])
        sym = ((A + A.T) / 2).tolist()
        method = draw(st.sampled_from(["exp1", "exp2", "exp3", "exprb2", "exp2", "exp3", "exprb2"]))
        d = draw(gen.gensys(n, maxnorm=1.0, full=True)) if method != "exprb2" else dict(draw(gen.gensys(n, maxnorm=1.0, nonlin=False)), A=sym)
        return {"method": method, "sys": d, "A0": sym if method != "exprb2" else None, "u0": draw(gen.nzvec(n)),
                "h": draw(st.sampled_from([0.5, 0.25, 0.1])), "iom": draw(st.sampled_from([2, 3])), "dim": draw(st.sampled_from([n, 100]))}
    return s()


def check_sym(ctx, c):
    from pbt import systems
    n, method, h = len(c["u0"]), c["method"], c["h"]
    d = systems.from_case(n, c["sys"])
    tw, u = systems.Twin(d, c["A0"], 0.0), np.array(c["u0"])
    sysm = systems.GenSys(d) if method == "exprb2" else systems.GenSplit(d, c["A0"], 0.0)
    it = schemes.integrator(method, sysm, 0.0, jnp_(u), max_krylov_dim=c["dim"], iom=c["iom"])
    got = np.asarray(it.step(h).y)
    want = schemes.step(method, tw, 0.0, u, h, None, 0.0, 0.0)
    tol, ok = step_tol(method, tw, 0.0, u, h, None, 0.0, 0.0, "ad", n, want)
    if not ok:
        return False
    close(ctx, got, want, 10 * tol + 1e-8 * (1 + ref.maxabs(want)), f"{method} with a symmetric operator and orthogonalisation depth {c['iom']}", method)
    return True


PROP = Prop("C09", [
    Sub("scheme", strat, check, 640, parts=8, cost=6, rule="dimension above 1 and some step that moves the state"),
    Sub("stages", lambda ctx: strat(ctx, [["pexprb4", "exprb3"], ["pexprb4", "exp3"], ["exprb3", "epi3", "exp2"], ["pexprb4", "exp3_dense"]][ctx.part]),
        check, 320, parts=4, cost=6, rule="dimension above 1 and some step that moves the state"),
    Sub("rational", strat_pfd, check_pfd, 96, parts=2, cost=6, rule="a step that moved the state was judged"),
    Sub("subspace", strat_sub, check_sub, 96, parts=4, cost=8, rule="the projection error allowed is below a thousandth of the step"),
    Sub("symmetric", strat_sym, check_sym, 48, parts=1, cost=8, rule="the step is within the range the 80-bit scheme is judged in"),
    Sub("options", strat_opt, check_opt, 120, parts=2, cost=8, rule="a subspace or orthogonalisation depth smaller than the dimension"),
], rule="Nonlinear nonautonomous systems with drawn coefficients; 1-3 steps of different sizes, kwargs constant or changing between steps.",
    assumptions=["oracle: the documented update formula in 80-bit arithmetic with exact phi functions, from the integrator's own previous states",
                 "tolerance: documented degree-4 truncation of the phi evaluation (about 2e-6), finite-difference error where a finite-difference Jacobian is used"])
