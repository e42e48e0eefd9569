"""C17: unknown or unavailable methods are rejected, never run as something else."""
import string
import numpy as np
from hypothesis import strategies as st
from pbt import gen, ref, schemes
from pbt.core import Prop, Sub, fail, require
from pbt.props.c03 import jnp_
from pbt.props.c10 import TAB, rk
from pbt.util import close, finite

RB = schemes.RB + ["exprb2_pfd", "exp_pfd"]
RK = ["rk4"]
DIFFRAX = ["euler", "heun", "midpoint", "bosh3", "dopri5", "implicit_euler", "implicit_esdirk3", "implicit_esdirk4"]
AVAILABLE = RB + schemes.LEJA + schemes.SPLIT + RK + DIFFRAX
NATIVE = ["exprb2_rs", "exprb3_rs", "epi2_rs", "epi3_rs", "bdf2_rs", "bdf1_rs", "backeuler_rs", "cn_rs", "rk1_rs", "rk4_rs",
          "exprb2_pfd_rs", "exp_pfd_rs"]
FAMILIES = {"ExpRBIntegrator": RB, "ExpLejaIntegrator": schemes.LEJA, "ExpSplitIntegrator": schemes.SPLIT, "RKIntegrator": RK}
NEAR = ["", "epi", "epi2_leja", "epi3_leja_re", "epi1", "exprb", "exprb1", "exprb4", "pexprb3", "exp", "exp4", "exp0", "rk", "rk1", "rk2",
        "rk45", "cn", "bdf1", "bdf2", "backeuler", "Euler", "forward_euler", "implicit_midpoint", "tsit5", "kvaerno3", "exp2_pfd",
        "exprb3_dense", "exprb3_pfd", "epi2_dense", "_rs", "rs", "exp1_rs", "epi2_leja_re_rs", "euler_rs", "None", "default"]


@st.composite
def name(draw):
    how = draw(st.sampled_from(["near", "mutate", "mutate", "text", "native", "other", "join"]))
    v = draw(st.sampled_from(AVAILABLE + NATIVE))
    if how == "near":
        return draw(st.sampled_from(NEAR))
    if how == "native":
        return draw(st.sampled_from(NATIVE))
    if how == "text":
        return draw(st.text(st.sampled_from(string.ascii_lowercase + string.digits + "_ "), max_size=12))
    if how == "other":
        return draw(st.sampled_from([None, 0, 3, True]))
    if how == "join":
        return v + draw(st.sampled_from(["_", ",", " ", ""])) + draw(st.sampled_from(AVAILABLE))
    i = draw(st.integers(0, len(v)))
    k = draw(st.sampled_from(["upper", "drop", "insert", "swap", "space", "suffix", "prefix", "digit"]))
    if k == "upper":
        return v.upper() if i % 2 else v.capitalize()
    if k == "drop":
        return v[:i] + v[i + 1:]
    if k == "insert":
        return v[:i] + draw(st.sampled_from("_s12 x")) + v[i:]
    if k == "swap":
        return v[:i] + v[i + 1:i + 2] + v[i:i + 1] + v[i + 2:]
    if k == "space":
        return draw(st.sampled_from([" " + v, v + " ", v + "\n", v.replace("_", "-"), v.replace("_", "")]))
    if k == "suffix":
        return v + draw(st.sampled_from(["_rs", "_dense", "_pfd", "_leja", "_jit", "2"]))
    if k == "prefix":
        return draw(st.sampled_from(["p", "e", "implicit_", "_"])) + v
    return v.translate(str.maketrans("1234", "2345"))


def strat(ctx):
    @st.composite
    def s(draw):
        if draw(st.integers(0, 4)) == 0:
            fam = draw(st.sampled_from(sorted(FAMILIES)))
            return {"name": draw(st.one_of(st.sampled_from(AVAILABLE + NATIVE), name())), "via": fam}
        return {"name": draw(name()), "via": "integrate"}
    return s()


CACHE = {}


def make_system():
    if CACHE:
        CACHE["s"][2][0] = 0
        return CACHE["s"]
    from pbt import systems
    d = {"A": [[-1.0, 0.5], [0.25, -2.0]], "P": [[0.5, 0.0], [0.0, 0.25]], "R": [[0.25, 0.5], [0.5, 0.0]],
         "G": [0.5, -0.25], "w": 1.0}
    d = systems.from_case(2, d)
    count = [0]

    class Counting(systems.GenSplit):
        def _frhs(self, t, u, **kw):
            count[0] += 1
            return super()._frhs(t, u, **kw)
    CACHE["s"] = Counting(d), systems.Twin(d), count
    return CACHE["s"]


def check(ctx, c):
    import jax
    from ormatex_py import integrate_wrapper, ode_exp, ode_explicit
    nm, via = c["name"], c["via"]
    ok = AVAILABLE if via == "integrate" else FAMILIES[via]
    if nm in ok and isinstance(nm, str):
        return False      # the other sub-check runs these
    if integrate_wrapper.HAS_ORMATEX_RUST and nm in NATIVE:
        return False
    sysm, _, count = make_system()
    y0 = jnp_([1.0, 0.5])
    try:
        if via == "integrate":
            res = integrate_wrapper.integrate(sysm, y0, 0.0, 0.1, 1, nm)
        else:
            cls = getattr(ode_exp, via, None) or getattr(ode_explicit, via)
            it = cls(sysm, 0.0, y0, method=nm)
            res = "an integrator"
    except Exception as e:
        require(count[0] == 0, f"{via}: {nm!r} is rejected after the right-hand side was evaluated ({type(e).__name__})")
        ctx.label(f"{via}: {type(e).__name__}")
        return True
    fail(f"{via}: {nm!r} is no available method but gives {str(res)[:200]}")


# --- every available name runs as itself -----------------------------------------------------------
def strat_ok(ctx):
    return st.fixed_dictionaries({"name": st.sampled_from(AVAILABLE), "dt": st.sampled_from([0.125, 0.25, 0.0625]),
                                  "u0": gen.nzvec(2, -1, 1), "via": st.sampled_from(["integrate", "class"])})


def check_ok(ctx, c):
    from ormatex_py import integrate_wrapper, ode_exp, ode_explicit
    m, dt = c["name"], c["dt"]
    sysm, tw, count = make_system()
    u = np.array(c["u0"])
    if m == "exp_pfd":       # homogeneous linear systems only
        from pbt import systems
        d = systems.from_case(2, {"A": [[-1.0, 0.5], [0.25, -2.0]]})
        sysm, tw = systems.GenSys(d), systems.Twin(d)
    kw = {"n_leja": 60, "leja_tol": 1e-12, "leja_a": -24.0} if m in schemes.LEJA else {}
    if m.endswith("_im"):
        kw["leja_c"] = 8.0
    if c["via"] == "class":
        fam = [f for f, ns in FAMILIES.items() if m in ns]
        if not fam:
            return False
        cls = getattr(ode_exp, fam[0], None) or getattr(ode_explicit, fam[0])
        it = cls(sysm, 0.5, jnp_(u), method=m, **kw)
        require(it.method == m, f"integrator built for {m!r} calls itself {it.method!r}")
        got = np.asarray(it.step(dt).y)
    else:
        r = integrate_wrapper.integrate(sysm, jnp_(u), 0.5, dt, 1, m, **kw)
        got = np.asarray(r.y[-1])
    finite(got, m)
    if m in TAB:
        want, tol = rk(tw, TAB[m], 0.5, u.astype(ref.LD), ref.LD(dt)), 1e-9
    elif m.startswith("implicit"):
        want = u.astype(ref.LD)
        for i in range(32):
            want = schemes.step("rk4", tw, 0.5 + i * dt / 32, want, dt / 32)
        tol = {"implicit_euler": 1.0, "implicit_esdirk3": 2e-2, "implicit_esdirk4": 2e-3}[m]
        tol = tol * dt * (8 * dt) + 1e-6
        if m == "implicit_euler":        # y1 = u + dt f(t + dt, y1)
            want, tol = u.astype(ref.LD) + dt * tw.f(0.5 + dt, got), 1e-6
    else:
        want = schemes.step("exprb2" if m == "exprb2_pfd" else m, tw, 0.5, u, dt)
        tol = 1e-5 if m.endswith("dense") else 1e-6
    close(ctx, got, want, tol * (1 + ref.maxabs(want)), f"{m} via {c['via']}", m)
    ctx.label(m)
    return True


# --- names of partial fraction tables ----------------------------------------------------------------
TABLES = ["cram_16", "cram_14", "cram_12", "pade_8_8", "pade_2_4"]


def strat_pfd(ctx):
    @st.composite
    def s(draw):
        v = draw(st.sampled_from(TABLES))
        i = draw(st.integers(0, len(v)))
        bad = draw(st.one_of(
            st.sampled_from(["", "cram", "cram_17", "cram_15", "cram_8", "CRAM_16", "pade_8_9", "pade", "taylor", "cram-16", "pade_16",
                             "pade_7_7", "crank", "exp", "cram_160", "16", "default", "none"]),
            st.just(v[:i] + v[i + 1:]), st.just(v[:i] + "_" + v[i:]), st.just(v + "_" + str(i)), st.just(v.upper()), st.just(" " + v)))
        return {"pfd": draw(st.sampled_from([bad, bad, bad, v])), "via": draw(st.sampled_from(["exp_pfd", "exprb2_pfd", "class", "phi"])),
                "k": draw(st.sampled_from([0, 1]))}
    return s()


def check_pfd(ctx, c):
    from ormatex_py import integrate_wrapper, matexp_phi, ode_exp
    from ormatex_py.matexp_phi_pfd_dict import pfd_dict
    from pbt import systems
    A, nm = np.array([[-1.0, 0.5], [0.25, -2.0]]), c["pfd"]
    u = np.array([1.0, 0.5])
    sysm = systems.GenSys(systems.from_case(2, {"A": A}))
    try:
        if c["via"] == "phi":
            got = np.asarray(matexp_phi.f_phi_k_pfd(jnp_(A), jnp_(u), c["k"], nm)).reshape(-1)
        elif c["via"] == "class":
            it = ode_exp.ExpRBIntegrator(sysm, 0.0, jnp_(u), method="exp_pfd", pfd_method=nm)
            got = np.asarray(it.step(1.0).y)
        else:
            got = np.asarray(integrate_wrapper.integrate(sysm, jnp_(u), 0.0, 1.0, 1, c["via"], pfd_method=nm).y[-1])
    except Exception as e:
        require(nm not in pfd_dict, f"{c['via']}: the table {nm!r} is there but gives {type(e).__name__}: {e}")
        ctx.label(f"{c['via']}: {type(e).__name__}")
        return True
    if nm in pfd_dict:
        if nm not in TABLES:       # the values of all tables are C02's
            return False
        want = ref.phi(A, c["k"] if c["via"] == "phi" else 0) @ u
        close(ctx, got, want, {"pade_2_4": 1e-2}.get(nm, 1e-6), f"{c['via']} with table {nm}", "table")
        ctx.label("available table")
        return False
    fail(f"{c['via']}: there is no table {nm!r}, but it gives {got.tolist()}")


PROP = Prop("C17", [
    Sub("tables", strat_pfd, check_pfd, 160, parts=4, cost=3, rule="there is no table of the name"),
    Sub("rejected", strat, check, 900, parts=6, rule="the name is not an available method",
        examples=[{"name": x, "via": "integrate"} for x in NATIVE + NEAR] +
                 [{"name": x, "via": f} for f in sorted(FAMILIES) for x in AVAILABLE + NATIVE]),
    Sub("available", strat_ok, check_ok, 120, parts=6, cost=5, rule="the named method ran and was compared with its formula",
        examples=[{"name": m, "dt": 0.125, "u0": [0.5, -1.0], "via": v} for m in AVAILABLE for v in ["integrate"]]),
], rule="Names that are near misses, mutations, random text, of other families, or need the native backend; all available names.",
    assumptions=["the native backend is absent, as in this build; where it is present its names are not judged"])
