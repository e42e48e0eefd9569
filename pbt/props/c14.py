"""C14: Leja integrators advance by their scheme to the requested tolerance, or raise."""
import math
import numpy as np
from hypothesis import strategies as st
from pbt import gen, ref, schemes
from pbt.core import Prop, Sub, fail, require
from pbt.props.c03 import jnp_
from pbt.props.c11 import FACTOR, spectrum, truncation
from pbt.util import close

EPS = ref.EPS
DIMS = [3, 2, 4, 1, 3, 5, 2, 6]
NLEJA = [60, 100, 41, 80, 60, 40, 120, 80]
ZEROS = [2, 2, 0, 1, 3, 2, 0, 2]


def strat(ctx):
    n = DIMS[ctx.part % len(DIMS)]
    k = (ctx.part + ctx.seed - 1) % 8

    @st.composite
    def s(draw):
        method = draw(st.sampled_from(schemes.LEJA))
        re = method == "epi2_leja_re"
        kind = draw(st.sampled_from(["symmetric", "symmetric", "upper"] if re else ["normal", "normal", "skew", "symmetric", "upper"]))
        A, lo, hi, im = spectrum(draw, n, kind)
        c = {"method": method, "kind": kind, "A": A.tolist(), "u0": draw(gen.vec(n)), "t0": draw(st.sampled_from([0.0, 0.5, -1.0, 2.0])),
             "kw": draw(st.sampled_from([None, None, [0.25, 1.0], [-0.5, -0.5]])), "jac": draw(st.sampled_from(["ad", "ad", "custom"]))}
        nf = draw(st.integers(0, 3))
        c["B"] = [draw(gen.vec(n)) for _ in range(nf)] or None
        if draw(st.booleans()):
            c["G"] = draw(gen.vec(n, -0.5, 0.5))
            c["w"] = draw(st.sampled_from([0.0, 1.0, -2.0]))
            if draw(st.booleans()):
                c["C"] = [draw(st.lists(st.one_of(st.just(0.0), gen.q(-0.5, 0.5, 8)), min_size=n, max_size=n)) for _ in range(n)]
        if draw(st.integers(0, 2)) == 0:
            for f in "PR":
                c[f] = [draw(st.lists(st.one_of(st.just(0.0), gen.q(-0.25, 0.25, 8)), min_size=n, max_size=n)) for _ in range(n)]
        size = max(abs(lo), im, 1e-3)
        nst = draw(st.integers(1, 3))
        h0 = draw(st.sampled_from([0.1, 0.5, 1.0, 0.02]))
        if h0 * size > 20:
            h0 = float(f"{20 / size:.2g}")
        c["dts"] = [h0 * draw(st.sampled_from([1.0, 1.0, 0.5, 1.5])) for _ in range(nst)]
        cov = draw(st.sampled_from([1.0, 1.0, 1.3, 2.0, 0.6]))
        a, cc = -max(abs(lo), 0.01) * cov, im * cov
        auto = kind == "symmetric" and draw(st.booleans())
        c["opts"] = {"leja_tol": draw(st.sampled_from([None, 1e-12, 1e-8, 1e-6, 1e-10])), "leja_substep": draw(st.sampled_from([True, True, False])),
                     "n_leja": NLEJA[k], "dd_method": draw(st.sampled_from(["taylor", "taylor", None, "pade"])),
                     "leja_n_zeros": ZEROS[k], "leja_a": None if auto else a,
                     "leja_c": None if re or im == 0 and draw(st.booleans()) else max(cc, 0.01 if kind != "symmetric" else 0.0)}
        if auto:
            c["opts"]["leja_max_re_eig_scale"] = draw(st.sampled_from([None, 1.0, 1.5]))
        c["opts"] = {k: v for k, v in c["opts"].items() if v is not None}
        return c
    return s()


def power_estimate(J, h, vb, bk, sf):
    """The documented power iteration on the extended operator."""
    n, p = len(J), len(vb)
    M = np.zeros((n + p, n + p))
    M[:n, :n] = h * J
    for i, b in enumerate(vb):          # columns: vb[p], ..., vb[1]
        M[:n, n + p - 1 - i] = b
    for i in range(p - 1):
        M[n + i, n + i + 1] = 1.0
    new, old, k = 1e20, 1.0, 0
    while abs(new - old) > 0.05 and k < 100:
        w = M @ bk
        new, old = (bk @ w) / (bk @ bk), new
        bk = w / np.linalg.norm(w)
        k += 1
    return new * sf, bk


def check(ctx, c):
    import jax
    from pbt import systems
    n, method, o = len(c["u0"]), c["method"], dict(c["opts"])
    d = systems.from_case(n, c)
    tw = systems.Twin(d)
    sysm = systems.JAC_KINDS[c["jac"]](d)
    t, u = c["t0"], np.array(c["u0"])
    tolr = o.get("leja_tol", 1e-15)
    dd = "taylor" if o.get("dd_method", "taylor") == "taylor" else o["dd_method"]
    it = schemes.integrator(method, sysm, t, jnp_(u), **o)
    prev, nontriv, bk = None, False, None
    for i, h in enumerate(c["dts"]):
        th, src = c["kw"] or (0.0, 0.0)
        kw = {} if c["kw"] is None else {"frhs_kwargs": {"theta": th, "src": src}}
        J = tw.jac(t, u, th).astype(float)
        fn, ft = tw.f(t, u, th, src).astype(float), tw.fdt(t, u, src).astype(float)
        b1, b2 = h * fn, h * h * ft
        if method == "epi3_leja_im" and prev is not None:
            up = np.asarray(prev[1], dtype=ref.LD)
            rn = tw.f(prev[0], up, th, src) - fn - tw.jac(t, u, th) @ (up - u) - tw.fdt(t, u, src) * (prev[0] - t)
            b2 = b2 + (2.0 / 3 * h) * rn.astype(float)
        bn = float(np.linalg.norm(b1) + np.linalg.norm(b2))
        if "leja_a" in o:
            a, auto = o["leja_a"] * h, False
        else:
            if bk is None:
                bk = np.asarray(jax.random.uniform(jax.random.key(42), (n + 2,)))
            e, bk = power_estimate(J, h, [b1, b2], bk, o.get("leja_max_re_eig_scale", 1.2))
            a, auto = (e if method == "epi2_leja_re" else -abs(e)), True
        half = o.get("leja_c", 0.0) * h
        ev = np.linalg.eigvals(h * J)
        covered = (np.all(((ev.real - a / 2) / (abs(a / 2) + 1e-12)) ** 2 + (ev.imag / half) ** 2 <= 1 + 1e-9) if half > 1e-3 * abs(a) else
                   np.all(np.abs(ev.imag) < 1e-9 + 1e-9 * abs(a)) and np.all(ev.real <= 1e-9) and np.all(ev.real >= a * (1 + 1e-9)))
        normal = np.max(np.abs(J @ J.T - J.T @ J)) <= 1e-9 * (1e-12 + np.max(np.abs(J)) ** 2)
        size = abs(a) / 4 + half / 2
        try:
            r = it.step(h, **kw)
        except RuntimeError as ex:
            easy = (covered and normal and o["n_leja"] >= 40 + 6 * size and size > 0.05 and not auto and tolr >= 1e-12 and bn <= 20
                    and dd == "taylor")
            if easy:
                fail(f"{method}: gave up on a problem inside its bounds (set size {size:.3g}, {o['n_leja']} points): {ex}")
            ctx.label("raised")
            return nontriv
        got = np.asarray(r.y)
        want = schemes.step(method, tw, t, u, h, prev, th, src)
        case = {"A": J, "dt": h, "dd": dd}
        trunc = truncation(case, a, half) if size > 0 and np.isfinite(size) else None
        if trunc is None or auto and dd != "taylor" or not np.all(np.isfinite(want.astype(float))) or ref.maxabs(want) > 1e6:
            ctx.label("not judged")
            return nontriv
        ex = ref.Exp(h * J, 4)
        amp = max(1.0, max(ex.norms))
        noise = 1e-13 * (1 + o["n_leja"] / 10) * (1 + size * 4)
        if dd == "pade":
            noise += 100 * EPS / min(1.0, size) ** 2
        tol = (FACTOR * tolr + noise + 10 * trunc) * (1 + bn) * amp * 5 + 1e-13 * (1 + ref.maxabs(u))
        if tol > 1e-2:
            ctx.label("not judged")
            return nontriv
        close(ctx, got, want, tol, f"{method} step {i + 1}, {h:+g} from t={t:g} ({c['kind']}, size {size:.3g})", method)
        close(ctx, float(r.t), t + h, 1e-14 * (1 + abs(t) + abs(h)), f"{method}: time after the step", "time")
        require(float(r.dt) == h, f"{method}: StepResult.dt is {r.dt}, step was {h}")
        it.accept_step(r)
        ctx.label(f"{method} {'auto' if auto else 'given'}")
        nontriv = nontriv or ref.maxabs(got - u) > 1e-6
        prev = (t, u)
        t, u = float(r.t), got
    return nontriv


PROP = Prop("C14", [
    Sub("steps", strat, check, 640, parts=8, cost=3, rule="a step that moved the state was judged"),
], rule="Symmetric, normal, skew and triangular operators plus forcing, sine and quadratic terms; bounds too large, right, and too small.",
    assumptions=["tolerance is 60 times leja_tol, relative to the extended vector, plus round-off of the Newton form"])
