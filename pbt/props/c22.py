"""C22: right-hand sides, Jacobians and operators of the transport systems agree with the discretised equations."""
import math
import numpy as np
from hypothesis import strategies as st
from pbt import gen, ref
from pbt.core import Prop, Sub, require
from pbt.props import c21
from pbt.props.c03 import jnp_
from pbt.util import close, exact

LD = np.longdouble
EPS = ref.EPS
# number of elements, order, periodic: fixed per part, each costs a compile
SHAPES = [(3, 1, False), (3, 2, True), (2, 3, False), (4, 1, True), (2, 2, False), (3, 3, True), (5, 1, False), (3, 4, True)]
LN2 = math.log(2)


@st.composite
def setup(draw, shape):
    k, p, per = shape
    w = draw(st.one_of(st.sampled_from([0.125, 0.5, 1.0]).map(lambda x: [x] * k),
                       st.lists(st.sampled_from([0.1, 0.25, 1.0, 0.4, 2.0]), min_size=k, max_size=k)))
    c = {"widths": w, "x0": 0.0, "per": per, "p": p, "shuffle": None, "fields": {},
         "nu": draw(st.one_of(st.just(0.0), gen.q(0, 1, 8), gen.logscale(-8, 0))),
         "vel": draw(st.one_of(st.sampled_from([0.5, 1.0, 0.0]), gen.q(-1 if per else 0, 2, 4))),
         "tau": draw(st.sampled_from([0.0, 0.0, 0.25]))}
    if draw(st.integers(0, 3)) == 0:
        c["fields"] = {draw(st.sampled_from(["nu", "vel"])): draw(st.sampled_from(["linear", "wave"]))}
        c["scale"] = draw(st.sampled_from([1.0, 2.0]))
    return c


def make(c):
    m, xs = c21.build_mesh(c)
    sem = c21.assembler(c, m, xs[-1] - xs[0])
    kw = {"scale": c["scale"]} if c.get("scale") else {}
    A, Ml, b = sem.assemble(**kw)
    A, Ml, b = np.asarray(A.todense()), np.asarray(Ml), np.asarray(b)
    d = [] if c["per"] else [int(np.argmin(np.asarray(sem.collocation_points())))]
    return sem, kw, A.astype(LD), Ml.astype(LD), b.astype(LD), d


def dirichlet_rate(t):
    """d/dt exp(-(r/(2 ww))^2) with r the distance of 0 and wc + vel t on the circle of length one."""
    wc, ww, vel = 0.3, 0.05, 0.5
    s = wc + vel * LD(t)
    r = s - np.round(s)
    return -2 * r * vel / (4 * ww * ww) * np.exp(-r * r / (4 * ww * ww))


# --- one species, affine ----------------------------------------------------------------------------------
def strat_affine(ctx):
    shape = SHAPES[ctx.part % len(SHAPES)]
    n = shape[0] * shape[1] + (0 if shape[2] else 1)

    @st.composite
    def s(draw):
        return {"set": draw(setup(shape)), "u": draw(gen.vec(n)), "v": draw(gen.vec(n)),
                "t": draw(st.one_of(gen.q(-4, 8, 8), gen.real(0, 4, 3), gen.q(3.2, 3.6, 100))),
                "nonauto": draw(st.booleans()) if not shape[2] else False, "via": draw(st.booleans())}
    return s()


def check_affine(ctx, c):
    from ormatex_py.progression.advection_diffusion_1d import AffineLinearSEM, NonautonomousSEM
    sem, kw, A, Ml, b, d = make(c["set"])
    if np.any(np.abs(Ml) < 1e-6 * np.abs(Ml).max()):
        return False        # stabilised mass can vanish at a node of a very uneven mesh
    N = len(Ml)
    u, v, t = np.array(c["u"]), np.array(c["v"]), c["t"]
    sysm = NonautonomousSEM(sem, **kw) if c["nonauto"] else sem.ode_sys(**kw) if c["via"] else AffineLinearSEM(sem, **kw)
    want = (b - A @ u.astype(LD)) / Ml
    mag = (np.abs(A) @ np.abs(u) / np.abs(Ml)).astype(float)
    J = -A / Ml[:, None]
    L = J.copy()
    J[d] = 0
    want[d] = dirichlet_rate(t) if c["nonauto"] else 0
    mag[d] = 4e3 * (1 + abs(t)) if c["nonauto"] else 0
    tol = 64 * N * EPS * mag + 1e-290
    f = np.asarray(sysm.frhs(t, jnp_(u)))
    keep = np.ones(N, dtype=bool)
    keep[d] = False
    if c["nonauto"]:
        s = 0.3 + 0.5 * t
        if abs(abs(s - round(s)) - 0.5) < 1e-6:
            return False    # antipode: a kink of the distance
    close(ctx, f, want, tol, "right-hand side", "rhs")
    if not c["nonauto"]:
        exact(f[d], np.zeros(len(d)), "rate of the Dirichlet values")
    jm = (np.abs(J) @ np.abs(v)).astype(float)
    jac = sysm.fjac(t, jnp_(u))
    close(ctx, np.asarray(jac.matvec(jnp_(v))), J @ v.astype(LD), 64 * N * EPS * jm + 1e-290, "Jacobian times a vector", "jacobian")
    close(ctx, np.asarray(jac.dense()), J, 64 * N * EPS * np.abs(J).astype(float) + 1e-290, "Jacobian", "jacobian")
    dt = np.asarray(jac._fdt())
    if c["nonauto"]:
        e = 1e-5
        dd = (dirichlet_rate(LD(t) + e) - dirichlet_rate(LD(t) - e)) / (2 * e)
        wd = np.zeros(N, dtype=LD)
        wd[d] = dd
        close(ctx, dt, wd, 1e-4 * 400 * (np.arange(N) == d[0]) + 1e-290, "time derivative", "fdt")
    else:
        close(ctx, dt, np.zeros(N), 1e-6 * (mag + 1), "time derivative", "fdt")
    # L is the operator of the equation: the Jacobian, and at most a decoupled entry for a Dirichlet value
    lop = sysm.fl(t, jnp_(u))
    Ld = np.asarray(lop.dense())
    close(ctx, Ld[keep], L[keep], 64 * N * EPS * np.abs(L[keep]).astype(float) + 1e-290, "linear operator", "L")
    for i in d:
        close(ctx, np.delete(Ld[i], i), np.zeros(N - 1), 1e-290, "coupling of a Dirichlet value in the linear operator", "L")
        require(-1.0000001 <= Ld[i, i] <= 0, f"diagonal entry {Ld[i, i]} of a Dirichlet value in the linear operator")
    close(ctx, np.asarray(lop.matvec(jnp_(v))), Ld.astype(LD) @ v, 64 * N * EPS * (np.abs(Ld) @ np.abs(v)) + 1e-290, "linear operator times a vector", "L")
    M = sysm.fm(t, jnp_(u))
    close(ctx, np.asarray(M.matvec(jnp_(v))), Ml * v, 8 * EPS * np.abs(Ml * v).astype(float) + 1e-290, "mass operator", "mass")
    ctx.label("nonautonomous" if c["nonauto"] else "affine")
    return bool(u.any()) and bool(np.any(want != 0))


# --- reacting species -------------------------------------------------------------------------------------
def evap(ua, ug, k, deriv=False):
    """k (max(ug, 1e-16)^(2/3) + 1e-12)(ug - ua), and its derivatives."""
    g = np.maximum(ug, LD(1e-16))
    a = g ** (LD(2) / 3) + LD(1e-12)
    if not deriv:
        return k * a * (ug - ua)
    da = np.where(ug > 1e-16, LD(2) / 3 * g ** (-LD(1) / 3), LD(0))
    return -k * a, k * (da * (ug - ua) + a)


def chain(links, n):
    M = np.zeros((n, n), dtype=LD)
    for src, dst, lam in links:
        M[src, src] -= LD(lam)
        if dst is not None:
            M[dst, src] += LD(lam)
    return M


XE, I135, TE, CS = LN2 / (9.14 * 3600), LN2 / (6.57 * 3600), LN2 / 19.0, LN2 / (1.33e6 * 365 * 24 * 3600)
BAT = {
    "rad_1d_2s": chain([(0, 1, 3e-3), (1, None, 0.3e-1)], 2),
    "rad_1d_3s": chain([(0, 1, 1.0), (1, 2, 100.0), (2, None, 1e-2)], 3),
    "rad_1d_9s": chain([(0, None, 3.0), (1, None, 0.3), (2, None, 0.03), (3, 4, TE), (4, 5, I135), (5, 6, XE), (6, None, CS),
                        (7, 8, XE), (8, None, CS)], 9),
}
EXCHANGE = {"rad_1d_2s": [(0, 1, 2.0)], "rad_1d_3s": [], "rad_1d_9s": [(5, 7, 10.0e3), (6, 8, 0.9e3)]}


def local_linear(name, x, B=None):
    """Per-node linear reaction matrices [N, n, n] and sources [N, n]."""
    B = BAT[name] if B is None else B
    n, N = len(B), len(x)
    R = np.repeat(B[None], N, axis=0).copy()
    Rm = np.abs(R)
    S = np.zeros((N, n), dtype=LD)
    if name == "rad_1d_9s":
        x = np.asarray(x, dtype=LD)
        phi = np.where((x >= 0) & (x <= 1), np.cos(LD(np.pi) * (x - LD(0.5))), LD(0))
        yields = 1e-4 * np.array([0.01, 0.03, 0.02, 0.18, 0.15, 0, 0, 0, 0])
        S += phi[:, None] * yields.astype(LD)
        for i in (5, 7):
            R[:, i, i] -= phi * LD(9.0e-3)
        off = (np.tanh((x - LD(3.8)) * 10) * -np.tanh((x - LD(4.2)) * 10)) / 2 + LD(0.5)
        for i in (7, 8):
            R[:, i, i] -= LD(0.16) * off
            Rm[:, i, i] += 0.16         # the profile is a difference of ones
    return R, np.maximum(Rm, np.abs(R)), S


def strat_rad(ctx):
    name, shape = [("rad_1d_2s", SHAPES[0]), ("rad_1d_3s", SHAPES[1]), ("rad_1d_9s", SHAPES[2]), ("rad_1d_9s", SHAPES[3]),
                   ("rad_1d_2s", SHAPES[1]), ("rad_1d_3s", SHAPES[2]), ("rad_1d_9s", SHAPES[0]), ("rad_1d_2s", SHAPES[5])][ctx.part % 8]
    n = len(BAT[name])
    N = shape[0] * shape[1] + (0 if shape[2] else 1)
    conc = st.one_of(st.just(0.0), gen.q(0, 2, 4), gen.logscale(-12, 2), gen.real(0, 1, 4))

    @st.composite
    def s(draw):
        return {"name": name, "set": draw(setup(shape)), "u": [draw(st.lists(conc, min_size=N, max_size=N)) for _ in range(n)],
                "v": [draw(gen.vec(N)) for _ in range(n)], "t": draw(st.sampled_from([0.0, 1.0, -2.0, 50.0])),
                "negative": draw(st.integers(0, 5)) == 0}
    return s()


def check_rad(ctx, c):
    import importlib
    mod = importlib.import_module("ormatex_py.progression." + c["name"])
    sem, kw, A, Ml, b, d = make(c["set"])
    if np.any(np.abs(Ml) < 1e-6 * np.abs(Ml).max()):
        return False
    B = BAT[c["name"]]
    n, N = len(B), len(Ml)
    U = np.array(c["u"])
    if c["negative"]:
        U = -U
    V = np.array(c["v"])
    sysm = mod.RAD_SEM(sem, **kw)
    x = np.asarray(sem.collocation_points())
    R, Rm, S = local_linear(c["name"], x)
    U_, V_ = U.astype(LD).T, V.astype(LD).T          # [N, n]
    T = -A / Ml[:, None]
    F = np.einsum("qij,qj->qi", R, U_) + S + T @ U_
    mag = (np.einsum("qij,qj->qi", Rm, np.abs(U_)) + np.abs(S) + np.abs(T) @ np.abs(U_)).astype(float)
    G = np.einsum("qij,qj->qi", R, V_) + T @ V_
    gm = (np.einsum("qij,qj->qi", Rm, np.abs(V_)) + np.abs(T) @ np.abs(V_)).astype(float)
    for a, g, k in EXCHANGE[c["name"]]:
        s = evap(U_[:, a], U_[:, g], k)
        da, dg = evap(U_[:, a], U_[:, g], k, True)
        j = da * V_[:, a] + dg * V_[:, g]
        hit = np.abs(U_[:, g] - LD(1e-16)) < 1e-18
        sz = (k * (np.abs(U_[:, g]) ** (2 / 3) + 1e-10) * (np.abs(U_[:, a]) + np.abs(U_[:, g]))).astype(float)
        js = (np.abs(da * V_[:, a]) + np.abs(dg * V_[:, g]) + k * np.abs(V_[:, g]) * np.abs(U_[:, g] - U_[:, a]) / np.maximum(np.abs(U_[:, g]), 1e-16) ** (1 / 3)).astype(float)
        for i, sign in ((a, 1), (g, -1)):
            F[:, i] += sign * s
            G[:, i] += sign * j
            mag[:, i] += sz
            gm[:, i] += js
            gm[hit, i] = np.inf
    for X in (F, G, mag, gm):
        X[d] = 0
    flat = lambda X: np.asarray(X).T.reshape(-1)       # species after species
    u = flat(U.T)
    f = np.asarray(sysm.frhs(c["t"], jnp_(u)))
    fac = 64 * N * EPS
    close(ctx, f, flat(F), fac * flat(mag) + 1e-290, f"{c['name']}: right-hand side", "rhs")
    jac = sysm.fjac(c["t"], jnp_(u))
    close(ctx, np.asarray(jac.matvec(jnp_(flat(V.T)))), flat(G), fac * flat(gm) + 1e-290, f"{c['name']}: Jacobian times a vector", "jacobian")
    close(ctx, np.asarray(jac._fdt()), np.zeros(n * N), 1e-6 * (flat(mag) + 1), f"{c['name']}: time derivative", "fdt")
    # the linear operator is the transport of every species by itself
    Ld = np.asarray(sysm.fl(c["t"], jnp_(u)).dense()).reshape(n, N, n, N)
    keep = [i for i in range(N) if i not in d]
    for i in range(n):
        for j in range(n):
            want = T if i == j else np.zeros((N, N))
            close(ctx, Ld[i, keep, j], want[keep], fac * np.abs(want[keep]).astype(float) + 1e-290, f"{c['name']}: linear operator, species {i} from {j}", "L")
    ctx.label(c["name"])
    return bool(U.any())


# --- layout of the species array --------------------------------------------------------------------------
def check_stack(ctx, c):
    from ormatex_py import ode_utils
    from ormatex_py.progression import rad_1d_2s
    N, n = c["N"], c["n"]
    U = np.arange(N * n, dtype=float).reshape(N, n) * c["k"] + 1
    for mod in (ode_utils, rad_1d_2s):
        f = np.asarray(mod.flatten_u(jnp_(U)))
        require(f.shape == (N * n,), f"flat array of shape {f.shape} for {N} nodes and {n} species")
        for i in range(n):
            exact(f[i * N:(i + 1) * N], U[:, i], f"species {i} is kept together")
        exact(np.asarray(mod.stack_u(jnp_(f), n)), U, "stacked array")
        exact(np.asarray(mod.flatten_u(mod.stack_u(jnp_(f), n))), f, "flattened again")
        exact(np.asarray(mod.stack_u(f, n)), U, "stacked NumPy array")
    ctx.label(f"{n} species")
    return N > 1 and n > 1


# --- trajectories -----------------------------------------------------------------------------------------
AFFINE_METHODS = ["epi2", "exprb2", "exprb3", "pexprb4", "epi3", "exp1", "exp2", "exp3", "exprb2_dense", "exp2_dense", "exp3_dense"]


def strat_run(ctx):
    shape = SHAPES[ctx.part % len(SHAPES)]
    N = shape[0] * shape[1] + (0 if shape[2] else 1)
    methods = ctx.share(AFFINE_METHODS)

    @st.composite
    def s(draw):
        return {"set": draw(setup(shape)), "u": draw(gen.nzvec(N)), "method": draw(st.sampled_from(methods + ["epi2"])), "t0": draw(st.sampled_from([0.0, 2.0])),
                "dt": draw(st.sampled_from([0.1, 0.5, 0.02, 1.0])), "N": draw(st.integers(1, 5))}
    return s()


def check_run(ctx, c):
    from ormatex_py.integrate_wrapper import integrate
    sem, kw, A, Ml, b, d = make(c["set"])
    if np.any(np.abs(Ml) < 1e-3 * np.abs(Ml).max()):
        return False
    J = -A / Ml[:, None]
    J[d] = 0
    dt, N = c["dt"], c["N"]
    while ref.infnorm(J) * dt > 8:
        dt /= 5
    u = np.array(c["u"])
    res = integrate(sem.ode_sys(**kw), jnp_(u), c["t0"], dt, N, c["method"])
    E = ref.phi(dt * J, 0)
    g = max(1.0, ref.maxabs(E), ref.maxabs(np.linalg.matrix_power(E.astype(float), N)))
    if g > 100:
        return False
    w = u.astype(LD)
    tot = np.sum(Ml * w)
    per = c["set"]["per"]
    require(len(res.y) == N + 1 and len(res.t) == N + 1, f"{c['method']}: {len(res.t)} times and {len(res.y)} states for {N} steps")
    fm = ref.maxabs(dt * np.abs(J) @ np.abs(u)) * g
    for i in range(N + 1):
        if i:
            w = E @ w
        y = np.asarray(res.y[i])
        # every method is exact here, up to its phi evaluation
        rt = (1e-12 if c["method"] == "epi2" else 4e-6 if c["method"].endswith("_dense") else 4e-7)
        tol = len(u) * g * g * (1 + ref.infnorm(dt * J)) * i * fm * rt + 1e-13 * g * (1 + ref.maxabs(u))
        close(ctx, y, w, tol, f"{c['method']}: advected profile after {i} steps", "profile")
        exact(y[d], u[d], f"{c['method']}: Dirichlet value after {i} steps")
        if per:
            close(ctx, float(np.sum(Ml * y)), tot, float(np.sum(np.abs(Ml))) * (tol if c["method"].endswith("_dense") else 1e-11 * (1 + i) * g * g * (1 + fm + ref.maxabs(u))),
                  f"{c['method']}: total amount on a periodic mesh after {i} steps", "total")
    ctx.label(c["method"])
    return bool(u.any()) and bool(np.any(J @ u != 0))


def strat_decay(ctx):
    shape = [SHAPES[1], SHAPES[3]][ctx.part % 2]
    N = shape[0] * shape[1]

    @st.composite
    def s(draw):
        return {"set": draw(setup(shape)), "u": [draw(st.lists(gen.q(0, 2, 8), min_size=N, max_size=N)) for _ in range(3)], "flat": draw(st.booleans()),
                "method": draw(st.sampled_from(["epi2", "epi3", "exprb2", "exprb3"])), "dt": draw(st.sampled_from([0.05, 0.01])), "N": draw(st.integers(1, 3))}
    return s()


def check_decay(ctx, c):
    """Transport only moves a species around a periodic domain; its total follows the decay chain alone."""
    from ormatex_py.integrate_wrapper import integrate
    from ormatex_py.progression.rad_1d_3s import RAD_SEM
    sem, kw, A, Ml, b, d = make(c["set"])
    if np.any(np.abs(Ml) < 1e-3 * np.abs(Ml).max()) or ref.infnorm(A / Ml[:, None]) * c["dt"] > 8 or c["set"]["fields"].get("vel"):
        return False
    U = np.array(c["u"])
    if c["flat"]:
        U = np.repeat(U[:, :1], U.shape[1], axis=1)
    N = U.shape[1]
    if not U.any():
        return False
    res = integrate(RAD_SEM(sem, **kw), jnp_(U.reshape(-1)), 0.0, c["dt"], c["N"], c["method"], max_krylov_dim=40, iom=40)
    E = ref.phi(LD(c["dt"]) * BAT["rad_1d_3s"], 0)
    w = (U.astype(LD) * Ml).sum(axis=1)
    prof = U[:, 0].astype(LD)
    g = ref.maxabs(ref.phi(-c["dt"] * A / Ml[:, None], 0))
    if g > 50:
        return False
    for i in range(c["N"] + 1):
        if i:
            w, prof = E @ w, E @ prof
        Y = np.asarray(res.y[i]).reshape(3, N)
        tol = 1e-6 * (i + 1e-6) * ref.maxabs(U) * g ** 2 * N
        close(ctx, (Y * Ml).sum(axis=1), w, tol * float(np.abs(Ml).sum()), f"{c['method']}: totals after {i} steps", "totals")
        if c["flat"]:
            close(ctx, Y, np.repeat(prof[:, None], N, axis=1), tol, f"{c['method']}: a uniform mixture stays uniform and decays, step {i}", "uniform")
    ctx.label(c["method"])
    return True


PROP = Prop("C22", [
    Sub("affine", strat_affine, check_affine, 480, parts=8, cost=3, rule="a non-zero state and rate"),
    Sub("reacting", strat_rad, check_rad, 320, parts=8, cost=4, rule="a non-zero state"),
    Sub("layout", lambda ctx: st.fixed_dictionaries({"N": st.integers(1, 6), "n": st.integers(1, 5), "k": st.sampled_from([1.0, -0.5])}),
        check_stack, 40, rule="several nodes and several species"),
    Sub("transport", strat_run, check_run, 96, parts=8, cost=5, rule="a state that changes"),
    Sub("decay", strat_decay, check_decay, 24, parts=2, cost=8, rule="a non-empty profile"),
], rule="Non-uniform meshes, p=1..4, periodic and Dirichlet, constants and fields; states from 1e-12 to 1e2, zero and negative.",
    assumptions=["assembled matrices are taken from the assembler (decided by C21)", "oracle: 80-bit models of the discretised equations with the libraries' constants written out"])
