"""C20: decay-chain integration conserves atoms, stays non-negative and adds up."""
import contextlib
import io
import numpy as np
from hypothesis import strategies as st
from pbt import gen, ref, schemes
from pbt.core import Prop, Sub, require
from pbt.props.c03 import jnp_
from pbt.props.c18 import library, model, pylib
from pbt.util import close, exact

EPS = ref.EPS
DIMS = [3, 4, 2, 5, 3, 6, 4, 2]
METHODS = ["epi2", "epi3", "exprb2", "exprb3", "pexprb4", "exprb2_dense",
           "exp1", "exp2", "exp3", "exp1_dense", "exp2_dense", "exp3_dense"]
RATE = st.one_of(st.just(0.0), gen.q(0, 4, 4), gen.logscale(-6, 2))


@st.composite
def network(draw, n, rates=RATE):
    c = draw(library(n, rates=rates, selfloop=False))
    if draw(st.booleans()):         # nothing leaves: every reaction has a child
        for i, k in enumerate(c["names"]):
            for r in c["lib"][k][1]:
                if r[0] == "none":
                    r[0] = c["names"][(i + 1) % n]
    cut = draw(st.integers(0, n - 1))
    if cut:                         # two networks that have nothing to do with each other
        for i, k in enumerate(c["names"]):
            for r in c["lib"][k][1]:
                if r[0] != "none" and (c["names"].index(r[0]) < cut) != (i < cut):
                    r[0] = c["names"][i - 1] if i not in (0, cut) else "none"
    return c


def parts(M):
    """Species that can exchange anything, however indirectly."""
    n = len(M)
    R = (np.asarray(M, dtype=float) != 0) | np.eye(n, dtype=bool)
    R = R | R.T
    for _ in range(n):
        R = R @ R
    return R


LOCAL = ("exprb2_dense", "exp1_dense", "exp2_dense", "exp3_dense", "exp_pfd", "exprb2_pfd")


def amounts(n):
    return st.lists(st.one_of(st.just(0.0), gen.q(0, 4, 4), gen.logscale(-12, 10)), min_size=n, max_size=n)


def system(c, order=None):
    from ormatex_py.progression.bateman_sys import TestBatemanSysJac
    names = [c["names"][i] for i in order] if order is not None else c["names"]
    with contextlib.redirect_stdout(io.StringIO()):
        return TestBatemanSysJac(names, pylib(c))


def run(sysm, u, t0, dt, N, method, **kw):
    from ormatex_py.integrate_wrapper import integrate
    res = integrate(sysm, jnp_(u), t0, dt, N, method, **kw)
    require(len(res.t) == N + 1 and len(res.y) == N + 1, f"{method}: {len(res.t)} times and {len(res.y)} states for {N} steps")
    return np.asarray(res.t), np.asarray(res.y)


def strat(ctx):
    n = DIMS[ctx.part % len(DIMS)]
    methods = ctx.share(METHODS)

    @st.composite
    def s(draw):
        return {"net": draw(network(n)), "method": draw(st.sampled_from(sorted(set(methods + ctx.pick([["epi3"], ["exprb3"], ["exp3"], ["pexprb4"]]))))),
                "u": draw(amounts(n)), "v": draw(amounts(n)), "a": draw(st.sampled_from([1.0, 2.0, 0.5, 1e3])),
                "order": list(draw(st.permutations(range(n)))), "t0": draw(st.sampled_from([0.0, 100.0, -3.0])),
                "dt": draw(st.sampled_from([1.0, 0.1, 0.01, 10.0, 1e3, 1e5])), "N": draw(st.integers(1, 4))}
    return s()


def judge(ctx, c, M, E, t, y, u, what, rtol, ctol):
    """E: exp(dt M) in extended precision."""
    total = float(np.abs(u).sum())
    w = np.asarray(u, dtype=ref.LD)
    drain = -M.sum(axis=0)
    # what a method that works with matrices gets wrong for one species does not come from a separate network
    local = parts(M) @ np.abs(np.asarray(u)) if what.split()[0].rstrip(",") in LOCAL else None
    for i in range(len(t)):
        if i:
            w = E @ w
        ro = 16 * len(u) * EPS * total + 1e-280
        tol = i * rtol * total + ro
        close(ctx, y[i], w, tol, f"{what}: inventories after {i} steps", "inventories")
        if local is not None:
            close(ctx, y[i], w, (i * rtol + 16 * len(u) * EPS) * local + 1e-280, f"{what}: inventories after {i} steps, by separate network", "separate")
        require(np.all(y[i] >= -tol), f"{what}: negative inventory after {i} steps: {y[i].tolist()}")
        s = float(np.sum(y[i].astype(ref.LD)))
        tt = i * ctol * total + ro
        if not drain.any():
            close(ctx, s, float(np.sum(np.asarray(u, dtype=ref.LD))), tt, f"{what}: total after {i} steps when nothing leaves", "total")
        require(s <= total + max(tt, tol if drain.any() else 0.0), f"{what}: total grew from {total} to {s} after {i} steps")
    close(ctx, t, c["t0"] + np.arange(len(t)) * c["dt"], 1e-13 * (1 + abs(c["t0"]) + len(t) * abs(c["dt"])), f"{what}: times", "times")


def check(ctx, c):
    net, method, N = c["net"], c["method"], c["N"]
    names = net["names"]
    n = len(names)
    M, _ = model(names, net["lib"])
    nrm = float(np.abs(M).sum(axis=0).max())
    dt = c["dt"]
    while nrm * dt > 16:
        dt /= 10
    if dt != c["dt"]:
        c = dict(c, dt=dt)
    sysm = system(net)
    E = ref.phi(ref.LD(dt) * M, 0)
    nh = nrm * dt
    rtol = n * (1 + nh) * (1e-12 if method == "epi2" else 4e-6 if method.endswith("_dense") else 4e-7)
    ctol = n * (1 + nh) * (8e-6 if method.endswith("_dense") else 1e-13)
    u, v = np.array(c["u"]), np.array(c["v"])
    t, yu = run(sysm, u, c["t0"], dt, N, method)
    judge(ctx, c, M, E, t, yu, u, method, rtol, ctol)
    # inventories superpose
    z = c["a"] * u + v
    _, yv = run(sysm, v, c["t0"], dt, N, method)
    _, yz = run(sysm, z, c["t0"], dt, N, method)
    judge(ctx, c, M, E, t, yz, z, f"{method}, sum of inventories", rtol, ctol)
    close(ctx, yz, c["a"] * yu + yv, 3 * N * rtol * (z.sum() + 1e-280), f"{method}: superposition", "superposition")
    # the order in which species are listed only permutes
    o = c["order"]
    _, yp = run(system(net, o), u[o], c["t0"], dt, N, method)
    close(ctx, yp, yu[:, o], 2 * N * rtol * (u.sum() + 1e-280), f"{method}: species in another order", "permuted")
    ctx.label(method)
    return bool(u.any()) and bool(np.any(M @ u != 0))


# --- partial fractions: any step, however stiff ---------------------------------------------------------
def strat_pfd(ctx):
    n = [3, 5, 2, 4][ctx.part % 4]

    @st.composite
    def s(draw):
        return {"net": draw(network(n, st.one_of(st.just(0.0), gen.logscale(-10, 6)))), "method": draw(st.sampled_from(["exp_pfd", "exprb2_pfd"])),
                "pfd": draw(st.sampled_from(["cram_16", "cram_14"])), "u": draw(amounts(n)), "t0": draw(st.sampled_from([0.0, 50.0])),
                "dt": draw(st.sampled_from([1.0, 0.1, 10.0, 1e4, 1e7])), "N": draw(st.integers(1, 3))}
    return s()


def check_pfd(ctx, c):
    net, method, N, dt = c["net"], c["method"], c["N"], c["dt"]
    names = net["names"]
    n = len(names)
    M, _ = model(names, net["lib"])
    nrm = float(np.abs(M).sum(axis=0).max())
    w, V = np.linalg.eig(M.astype(float))
    kap = np.linalg.cond(V)
    nh = nrm * dt
    if not kap < 1e6 or nh > 1e10:
        return False
    E = ref.phi(ref.LD(dt) * M, 0)
    u = np.array(c["u"])
    sysm = system(net)
    t, y = run(sysm, u, c["t0"], dt, N, method, pfd_method=c["pfd"])
    rtol = n * kap * (1e-8 if c["pfd"] == "cram_14" else 1e-10) + 1e-13 * nh
    judge(ctx, c, M, E, t, y, u, f"{method} with {c['pfd']}", rtol, rtol)
    ctx.label(method)
    ctx.label(f"norm 1e{int(np.floor(np.log10(nh))) if nh else 0}")
    return bool(u.any()) and nh > 1


# --- against the analytic solution of a chain, as the example does -------------------------------------
def strat_chain(ctx):
    n = [3, 4][ctx.part % 2]
    return st.fixed_dictionaries({
        "lam": st.lists(gen.logscale(-2, 1), min_size=n, max_size=n, unique=True), "n0": st.sampled_from([1.0, 2.5, 1e6]),
        "method": st.sampled_from(["epi2", "epi3", "exprb3", "exp2_dense", "exp3_dense", "exprb2_dense", "exp_pfd", "exprb2_pfd"]),
        "dt": st.sampled_from([1.0, 0.5, 0.1]), "N": st.integers(1, 4)})


def check_chain(ctx, c):
    from ormatex_py.progression.bateman_sys import analytic_bateman_single_parent
    from pbt.props.c19 import exact_solution
    lam, n = c["lam"], len(c["lam"])
    if any(abs(lam[i] - lam[j]) < 0.05 * lam[i] for i in range(n) for j in range(n) if i != j):
        return False
    names = [f"s{i}" for i in range(n)]
    lib = {k: ["single", [[names[i + 1] if i + 1 < n else "none", lam[i]]]] for i, k in enumerate(names)}
    sysm = system({"names": names, "lib": lib})
    u = np.zeros(n)
    u[0] = c["n0"]
    nh = max(lam) * c["dt"] * 2
    t, y = run(sysm, u, 0.0, c["dt"], c["N"], c["method"], pfd_method="cram_16")
    B = np.asarray(sysm.bat_mat)
    an = analytic_bateman_single_parent(t, B, c["n0"])
    for i in range(c["N"] + 1):
        want, mag = exact_solution(lam, float(t[i]), c["n0"])
        rt = c["n0"] * n * i * (1 + nh) * 4e-6 + 1e-15 * c["n0"]
        close(ctx, y[i], np.array(want), rt, f"{c['method']}: chain after {i} steps", "chain")
        close(ctx, y[i], an[i], rt + 8 * n * EPS * np.array(mag) + 1e-290, f"{c['method']}: chain after {i} steps against the analytic solution", "analytic")
    ctx.label(c["method"])
    return True


PROP = Prop("C20", [
    Sub("networks", strat, check, 200, parts=8, cost=6, rule="a non-empty inventory that decays"),
    Sub("stiff", strat_pfd, check_pfd, 300, parts=4, cost=4, rule="a non-empty inventory and a step longer than the shortest lifetime"),
    Sub("chains", strat_chain, check_chain, 60, parts=2, cost=6, rule="every case"),
], rule="Random decay networks (branches, loops, dead ends), inventories over 16 decades, all exponential methods; steps up to 1e10 lifetimes with partial fractions.",
    assumptions=["oracle: 80-bit exponential of the reaction-list model's matrix",
                 "methods that evaluate phi_k, k>0, by squaring are judged up to its documented degree-4 truncation (about 2e-6); the total is held to roundoff for the Krylov methods"])
