"""C23: source and sink models satisfy their physical laws."""
import math
import numpy as np
from hypothesis import strategies as st
from pbt import gen, ref
from pbt.core import Prop, Sub, fail, require
from pbt.props.c03 import jnp_
from pbt.util import close, exact

LD = np.longdouble
EPS = ref.EPS
RGAS = LD(8.3145)
PI = LD("3.14159265358979323846264338327950288")
LN2 = math.log(2)
CONC = st.one_of(st.just(0.0), gen.q(0, 4, 4), gen.logscale(-20, 3), gen.real(0, 1, 5))
POS = st.one_of(gen.q(0.125, 4, 8), gen.logscale(-6, 4))


def shapes(draw):
    """How the two concentrations are given: same arrays, scalar against array, or both scalars."""
    return draw(st.sampled_from(["array", "array", "scalar", "mixed", "matrix"]))


def give(c, v, which):
    k = c["shape"]
    v = np.array(v)
    if k == "scalar":
        return jnp_(v[0]), v[0].astype(LD)
    if k == "matrix":
        return jnp_(v[:4].reshape(2, 2)), v[:4].reshape(2, 2).astype(LD)
    if k == "mixed" and which:
        return float(v[0]), LD(v[0])
    return jnp_(v), v.astype(LD)


def some(draw, **opts):
    """A subset of keyword arguments; the others keep their documented defaults."""
    return {k: draw(s) for k, s in opts.items() if draw(st.booleans())}


# --- reference laws ---------------------------------------------------------------------------------------
def lin(ua, ug, k=1e-2, k_g=1.0, k_a=1.0, a=1.0):
    k, k_g, k_a, a = (LD(x) for x in (k, k_g, k_a, a))
    return k * a * (k_g * ug - k_a * ua), k * a * (abs(k_g * ug) + abs(k_a * ua))


def nonlin(ua, ug, k=1e-2, k_g=1.0, k_a=1.0, k_s=1e-12):
    k, k_g, k_a, k_s = (LD(x) for x in (k, k_g, k_a, k_s))
    s = np.maximum(ug, LD(1e-16)) ** (LD(2) / 3) + k_s
    return k * s * (k_g * ug - k_a * ua), abs(k) * s * (abs(k_g * ug) + abs(k_a * ua)) * 4


def area(ug, cvol, alpha_g=0.01, nb=10, a_k=1e-1, T=900., P=101.3e3):
    cvol, alpha_g, nb, a_k, T, P = (LD(x) for x in (cvol, alpha_g, nb, a_k, T, P))
    one = cvol * alpha_g / nb + a_k * (cvol * ug / (P * LD(1e-6))) * RGAS * T / nb
    r = (3 * one / (4 * PI)) ** (LD(1) / 3)
    return nb * 4 * PI * r * r, None


def bubble(ua, ug, cvol, alpha_g=0.01, k=1e-2, h=1e-4, nb=10., T=900.):
    a = area(ug, cvol, alpha_g=alpha_g, nb=nb, T=T)[0]
    alpha_g, k, h, T = (LD(x) for x in (alpha_g, k, h, T))
    x, y = (ug / alpha_g) * h * RGAS * T, ua / (1 - alpha_g)
    return k * a * (x - y), abs(k) * a * (abs(x) + abs(y)) * 4


def sorption(ua, us, alpha_s, k=1e-4, a=1.0):
    alpha_s, k, a = (LD(x) for x in (alpha_s, k, a))
    return -k * a * (ua - us / alpha_s), abs(k * a) * (abs(ua) + abs(us / alpha_s))


def arrhenius(ua, ub, e, apre, m_a=1.0, m_b=1.0, T=900.):
    r = ua ** LD(m_a) * ub ** LD(m_b) * LD(apre) * np.exp(-LD(e) / (RGAS * LD(T)))
    return r, abs(r) * (8 + abs(e / (8.3 * T)) + 60 * (abs(m_a) + abs(m_b)))


@st.composite
def law(draw):
    name = draw(st.sampled_from(["lin", "nonlin", "bubble", "sorption", "arrhenius", "area"]))
    n = draw(st.integers(4, 6))
    c = {"name": name, "shape": shapes(draw), "u": draw(st.lists(CONC, min_size=n, max_size=n)), "v": draw(st.lists(CONC, min_size=n, max_size=n)),
         "args": [], "f": draw(st.sampled_from([2.0, 0.5, 10.0]))}
    frac = st.one_of(st.sampled_from([0.01, 0.05, 0.5]), gen.real(0.001, 0.9, 3))
    if name == "lin":
        c["kw"] = some(draw, k=POS, k_g=POS, k_a=POS, a=POS)
    elif name == "nonlin":
        c["kw"] = some(draw, k=POS, k_g=POS, k_a=POS, k_s=st.one_of(st.just(0.0), gen.logscale(-14, 0)))
    elif name == "bubble":
        c["args"] = [draw(POS)]
        c["kw"] = some(draw, alpha_g=frac, k=POS, h=gen.logscale(-6, 0), nb=gen.q(1, 50, 1), T=gen.q(300, 1500, 1))
    elif name == "area":
        c["args"] = [draw(POS)]
        c["kw"] = some(draw, alpha_g=frac, nb=gen.q(1, 50, 1), a_k=gen.logscale(-3, 1), T=gen.q(300, 1500, 1), P=gen.q(1e4, 1e6, 1))
    elif name == "sorption":
        c["args"] = [draw(frac)]
        c["kw"] = some(draw, k=POS, a=POS)
    else:
        c["args"] = [draw(st.one_of(st.just(0.0), gen.q(0, 2e5, 1))), draw(st.one_of(gen.logscale(-3, 12), st.just(0.0)))]
        c["kw"] = some(draw, m_a=st.sampled_from([1.0, 2.0, 0.5, 3.0]), m_b=st.sampled_from([1.0, 2.0, 0.5, 0.0]), T=gen.q(300, 1500, 1))
    return c


def call(name, *a, **kw):
    from ormatex_py.progression import species_source_sink as m
    f = {"lin": m.mxf_liq_vapor_lin, "nonlin": m.mxf_liq_vapor_nonlin, "bubble": m.mxf_liq_vapor_bubble_ig, "area": m.bubble_surface_area,
         "sorption": m.mxf_diffusion_sorption, "arrhenius": m.mxf_arrhenius}[name]
    return np.asarray(f(*a, **kw))


REF = {"lin": lin, "nonlin": nonlin, "bubble": bubble, "area": area, "sorption": sorption, "arrhenius": arrhenius}
COEF = {"lin": ("k", 1e-2), "nonlin": ("k", 1e-2), "bubble": ("k", 1e-2), "sorption": ("k", 1e-4)}


def check(ctx, c):
    name, args, kw = c["name"], c["args"], c["kw"]
    U, u = give(c, c["u"], 0)
    V, v = give(c, c["v"], 1)
    two = name != "area"
    before = [np.array(x) for x in (U, V)]
    want, mag = REF[name](u, v, *args, **kw) if two else REF[name](u, *args, **kw)
    mag = np.abs(want) * 8 if mag is None else mag
    want = np.asarray(want)
    got = call(name, *([U, V] if two else [U]), *args, **kw)
    tol = 32 * EPS * np.asarray(mag, dtype=float) + 1e-290
    close(ctx, got, want, tol, f"{name}: rate", name)
    for x, b in zip((U, V), before):
        exact(np.asarray(x), b, f"{name}: concentration after the call")
    if name in COEF:
        key, default = COEF[name]
        k2 = dict(kw)
        k2[key] = kw.get(key, default) * c["f"]
        close(ctx, call(name, U, V, *args, **k2), c["f"] * got, c["f"] * 2 * tol, f"{name}: linear in {key}", "linear")
        # the sign follows the driving difference; with nothing anywhere nothing moves
        Z = 0.0 * u
        close(ctx, call(name, jnp_(np.asarray(Z, dtype=float)), jnp_(np.asarray(Z, dtype=float)), *args, **kw), np.asarray(Z), 1e-300, f"{name}: without species", "nothing")
        require(np.all(got[want > np.asarray(mag) * 1e-13] > 0) and np.all(got[want < -np.asarray(mag) * 1e-13] < 0), f"{name}: sign of the rate {got} against {want}")
    # equilibrium of the two phases
    if name in ("lin", "nonlin"):
        ug = np.asarray(u, dtype=float) * kw.get("k_a", 1.0) / kw.get("k_g", 1.0)
        eq, (_, m2) = call(name, U, jnp_(ug), *args, **kw), REF[name](u, ug.astype(LD), *args, **kw)
    elif name == "bubble":
        al = kw.get("alpha_g", 0.01)
        ug = np.asarray(u / (1 - LD(al)) * al / (LD(kw.get("h", 1e-4)) * RGAS * kw.get("T", 900.)), dtype=float)
        eq, (_, m2) = call(name, U, jnp_(ug), *args, **kw), REF[name](u, ug.astype(LD), *args, **kw)
    elif name == "sorption":
        us = np.asarray(u * LD(args[0]), dtype=float)
        eq, (_, m2) = call(name, U, jnp_(us), *args, **kw), REF[name](u, us.astype(LD), *args, **kw)
    else:
        eq = None
    if eq is not None:
        close(ctx, eq, np.zeros(eq.shape), 32 * EPS * np.asarray(m2, dtype=float) + 1e-290, f"{name}: at equilibrium", "equilibrium")
    if name == "area":
        if u.size > 1 and u.ndim == 1:
            o = np.argsort(np.asarray(u, dtype=float))
            require(np.all(np.diff(got[o]) >= -1e-14 * np.abs(got[o][1:])), "the bubbles' area does not grow with their gas")
        base = 10 if "nb" not in kw else kw["nb"]
        r3 = 3 * LD(args[0]) * LD(kw.get("alpha_g", 0.01)) / base / (4 * PI)
        close(ctx, call(name, jnp_(0.0), *args, **kw), base * 4 * PI * r3 ** (LD(2) / 3), 64 * EPS * float(base * 4 * PI * r3 ** (LD(2) / 3)), "area of the carrier bubbles", "carrier")
    if name == "arrhenius":
        z = call(name, jnp_(np.zeros(np.shape(np.asarray(u, dtype=float)))), V, *args, **kw)
        close(ctx, z, np.zeros(z.shape), 1e-300, "arrhenius: without the first species", "nothing")
        hot = call(name, U, V, *args, **dict(kw, T=kw.get("T", 900.) * 1.5))
        require(np.all(hot >= got * (1 - 1e-12)), "arrhenius: the rate falls with temperature")
    # every entry by itself
    if c["shape"] == "array":
        for i in (0, len(c["u"]) - 1):
            one = call(name, *([jnp_(c["u"][i]), jnp_(c["v"][i])] if two else [jnp_(c["u"][i])]), *args, **kw)
            close(ctx, one, got[i], 2 * (tol[i] if np.ndim(tol) else tol), f"{name}: entry {i} by itself", "single")
    ctx.label(name)
    return bool(np.any(np.asarray(u) != 0)) and (not two or bool(np.any(np.asarray(want) != 0)))


# --- the tank: decay, fission, transmutation and exchange with the vapor ------------------------------------
NAMES = ["c_0_a", "c_1_a", "c_2_a", "te_135_a", "i_135_a", "xe_135_a", "cs_135_a", "xe_135_v", "cs_135_v"]
XE, I135, TE, CS, PUR = LN2 / (9.14 * 3600), LN2 / (6.57 * 3600), LN2 / 19.0, LN2 / (1.33e6 * 365 * 24 * 3600), LN2
LINKS = [(0, None, 3.0), (1, None, 0.3), (2, None, 0.03), (3, 4, TE), (4, 5, I135), (5, 6, XE), (6, None, CS),
         (7, 8, XE), (7, None, PUR), (8, None, CS + PUR)]


def tank(u, n_phi, vol):
    from pbt.props.c22 import chain
    B = chain(LINKS, 9)
    sig = np.zeros(9, dtype=LD)
    sig[[5, 7]] = LD(1e-9)
    yld = LD(1e-9) * np.array([0.03, 0.02, 0.01, 0.20, 0.01, 0, 0, 0, 0]).astype(LD)
    s, m = bubble(u[5], u[7], vol, alpha_g=0.05, k=1e-2)
    f = B @ u - n_phi * sig * u + n_phi * yld
    mag = np.abs(B) @ np.abs(u) + abs(n_phi) * (sig * np.abs(u) + yld)
    f[5] += s
    f[7] -= s
    mag[[5, 7]] += m
    return f, mag.astype(float), s, B


def strat_tank(ctx):
    return st.fixed_dictionaries({
        "u": st.lists(st.one_of(st.just(0.0), gen.q(0, 4, 4), gen.logscale(-16, 2)), min_size=9, max_size=9),
        "kw": st.fixed_dictionaries({}, optional={"n_phi": st.one_of(st.just(0.0), gen.logscale(6, 14)), "tank_vol": st.one_of(st.sampled_from([1.0, 10.0, 1e4]), gen.logscale(0, 5))}),
        "v": gen.vec(9), "t": st.sampled_from([0.0, 5.0, -1.0])})


def check_tank(ctx, c):
    from ormatex_py.progression import bateman_nonlin_sys as m
    require(list(m.keymap) == NAMES, f"species {m.keymap}")
    sysm = m.NonlinearBateman(**c["kw"])
    n_phi, vol = c["kw"].get("n_phi", 1e9), c["kw"].get("tank_vol", 100.0)
    u = np.array(c["u"])
    want, mag, s, B = tank(u.astype(LD), LD(n_phi), vol)
    f = np.asarray(sysm.frhs(c["t"], jnp_(u)))
    close(ctx, f, want, 64 * EPS * mag + 1e-290, f"tank with {c['kw']}: right-hand side", "rhs")
    # the exchange by itself: removed from one phase, added to the other, nothing else
    src = np.asarray(m.srcf_xe_av(jnp_(u), 5, 7, tank_vol=vol))
    require(src[5] == -src[7] and not np.delete(src, [5, 7]).any(), f"exchange between the phases {src}")
    close(ctx, src[5], s, 64 * EPS * mag[5] + 1e-290, "exchange between the phases", "exchange")
    a2 = np.asarray(m.srcf_xe_av(jnp_(u), 5, 7, alpha_g=0.2, tank_vol=vol))
    s2, m2 = bubble(u[5].astype(LD), u[7].astype(LD), vol, alpha_g=0.2, k=1e-2)
    close(ctx, a2[[5, 7]], np.array([s2, -s2]), 64 * EPS * float(m2) + 1e-290, "exchange with another gas fraction", "exchange")
    v = np.array(c["v"])
    close(ctx, np.asarray(sysm.fl(c["t"], jnp_(u)).matvec(jnp_(v))), B @ v, 32 * EPS * (np.abs(B) @ np.abs(v)).astype(float) + 1e-290, "linear part", "L")
    # Jacobian of the laws
    K = np.array(B)
    K[5, 5] -= LD(n_phi) * LD(1e-9)
    K[7, 7] -= LD(n_phi) * LD(1e-9)
    a = area(u[7].astype(LD), vol, alpha_g=0.05, nb=10., T=900.)[0]
    vol1 = LD(vol) * LD(0.05) / 10 + LD(0.1) * (LD(vol) * LD(u[7]) / LD("101.3e-3")) * RGAS * 900 / 10
    dvol = LD(0.1) * (LD(vol) / LD("101.3e-3")) * RGAS * 900 / 10
    c1, c2, k = LD(1e-4) * RGAS * 900 / LD(0.05), 1 / LD(0.95), LD(1e-2)
    da = -k * a * c2
    dg1, dg2 = k * LD(2) / 3 * a / vol1 * dvol, k * a * c1
    diff = c1 * u[7] - c2 * u[5]
    Km = np.abs(K)
    for r, sign in ((5, 1), (7, -1)):
        K[r, 5] += sign * da
        K[r, 7] += sign * (dg1 * diff + dg2)
        Km[r, 5] += abs(da)
        Km[r, 7] += 4 * dg1 * (c1 * u[7] + c2 * u[5]) + dg2
    J = sysm.fjac(c["t"], jnp_(u))
    close(ctx, np.asarray(J.matvec(jnp_(v))), K @ v, 64 * EPS * (Km @ np.abs(v)).astype(float) + 1e-290, "Jacobian times a vector", "jacobian")
    ctx.label("+".join(sorted(c["kw"])) or "defaults")
    return bool(u.any())


# --- trajectories of the tank -----------------------------------------------------------------------------
def strat_run(ctx):
    return st.fixed_dictionaries({
        "u": st.lists(st.one_of(st.just(0.0), gen.q(0, 2, 4)), min_size=9, max_size=9),
        "method": st.sampled_from(ctx.share(["epi2", "exprb2", "exprb3", "epi3"]) ), "n_phi": st.sampled_from([0.0, 1e9, 1e8]), "vol": st.sampled_from([100.0, 10.0]),
        "dt": st.sampled_from([0.1, 0.5]), "N": st.integers(1, 4), "t0": st.sampled_from([0.0, 7.0])})


def check_run(ctx, c):
    """Without losses to count, xenon and caesium only move and decay: their books balance along the way."""
    from ormatex_py.integrate_wrapper import integrate
    from ormatex_py.progression.bateman_nonlin_sys import NonlinearBateman
    sysm = NonlinearBateman(n_phi=c["n_phi"], tank_vol=c["vol"])
    u = np.array(c["u"]) * 1e-7      # traces, as the model assumes; growth by bubble swelling is then slow
    res = integrate(sysm, jnp_(u), c["t0"], c["dt"], c["N"], c["method"], max_krylov_dim=12, iom=12)
    Y = np.asarray(res.y)
    require(Y.shape == (c["N"] + 1, 9) and np.all(np.isfinite(Y)), f"{c['method']}: states of shape {Y.shape}")
    # the species that do not exchange follow a linear system
    from pbt.props.c22 import chain
    from pbt import schemes
    B = chain(LINKS, 9)[:5, :5]
    yld = 1e-9 * np.array([0.03, 0.02, 0.01, 0.20, 0.01])
    src = c["n_phi"] * yld
    for i in range(c["N"] + 1):
        w, _ = schemes.affine_exact(B, [src], 0.0, u[:5], i * c["dt"])
        tol = 1e-6 * (i + 1e-6) * (ref.maxabs(u) + c["n_phi"] * 1e-9) * 9
        close(ctx, Y[i, :5], w, tol, f"{c['method']}: species without exchange after {i} steps", "linear part")
        require(np.all(Y[i] >= -tol * 10), f"{c['method']}: negative inventory {Y[i].tolist()}")
    ctx.label(c["method"])
    return bool(u.any())


PROP = Prop("C23", [
    Sub("laws", lambda ctx: law(), check, 1200, parts=8, cost=3, rule="a non-zero concentration and rate"),
    Sub("tank", strat_tank, check_tank, 240, parts=4, cost=3, rule="a non-zero state"),
    Sub("tank_runs", strat_run, check_run, 40, parts=4, cost=8, rule="a non-zero state"),
], rule="Concentrations over 23 decades and zero, any subset of the parameters, scalars, arrays, matrices and mixtures of them.",
    assumptions=["oracle: the documented laws in 80-bit arithmetic, with gas constant 8.3145 J/mol/K"])
