"""C11: Leja interpolation of exp(dt A) u is accurate whenever it reports convergence."""
import math
import numpy as np
from hypothesis import strategies as st
from pbt import gen, ref
from pbt.core import Prop, Sub, fail, require
from pbt.props.c03 import jnp_
from pbt.util import close, finite

EPS = ref.EPS
FACTOR = 60.0      # claimed accuracy: FACTOR * tol * |u|
DIMS = [3, 2, 4, 1, 5, 6, 3, 4]
LENS = [40, 24, 60, 33, 80, 41, 50, 25]
DDS = ["taylor", "taylor", "pade", "recursive"]


def spectrum(draw, n, kind):
    """A real matrix with a known spectrum box: returns (A, re_min, re_max, im_max, normal)."""
    re = st.one_of(st.just(0.0), gen.q(-4, 0, 4), gen.logscale(-3, 1.5).map(lambda v: -v))
    im = st.one_of(gen.q(0, 3, 4), gen.logscale(-2, 1))
    A = np.zeros((n, n))
    i, box = 0, []
    while i < n:
        a = 0.0 if kind == "skew" else draw(re)
        if kind in ("normal", "skew", "jordanish") and i + 1 < n and (kind == "skew" or draw(st.booleans())):
            w = draw(im)
            A[i:i + 2, i:i + 2] = [[a, w], [-w, a]]
            box += [(a, w)]
            i += 2
        else:
            A[i, i] = a
            box += [(a, 0.0)]
            i += 1
    if kind in ("jordanish", "upper"):
        for i in range(n):
            for j in range(i + 2, n):
                A[i, j] = draw(gen.q(-1, 1, 4))
            if i + 1 < n and A[i + 1, i] == 0 and A[i, i + 1] == 0:
                A[i, i + 1] = draw(gen.q(-1, 1, 4))
    if kind in ("normal", "skew", "symmetric") and n > 1:
        # an orthogonal change of basis: Householder
        v = np.array(draw(gen.nzvec(n)))
        Q = np.eye(n) - 2 * np.outer(v, v) / (v @ v)
        A = Q @ A @ Q.T
    return A, min(b[0] for b in box), max(b[0] for b in box), max(b[1] for b in box)


@st.composite
def case(draw, ctx, kinds, modes):
    n = DIMS[ctx.part % len(DIMS)]
    kind = draw(st.sampled_from(kinds))
    A, lo, hi, im = spectrum(draw, n, kind)
    dt = draw(st.sampled_from([1.0, 0.5, 0.1, 0.25, 2.0, 0.01]))
    big = max(abs(lo), im) * dt
    if big > 25.0:
        dt = float(f"{dt * 25 / big:.3g}")
    unit = draw(st.sampled_from([1.0, 1.0, 1e-6, 1e-12, 1e5]))         # the tolerance is relative to |u|
    return {"A": A.tolist(), "box": [lo, hi, im], "kind": kind, "dt": dt, "u": [unit * v for v in draw(gen.nzvec(n))],
            "n": LENS[(ctx.part + ctx.seed) % len(LENS)], "tol": draw(st.sampled_from([1e-4, 1e-6, 1e-8, 1e-10, 1e-12])),
            "cover": draw(st.sampled_from([1.0, 1.0, 1.1, 2.0, 0.5])), "dd": draw(st.sampled_from(DDS)),
            "pad": [0, 2, 0, 1, 3, 2, 0, 2][(ctx.part + ctx.seed) % 8], "mode": draw(st.sampled_from(modes)),
            "tau": draw(st.sampled_from([1.0, 1.1, 0.5, 0.3, 0.07, 0.333, 0.499, 0.9985, 0.99999, 0.24999, 0.0012, 0.0007])), "small": draw(st.sampled_from([0.0, 0.0, 1e-6, 1e-13]))}


def exact_exp(A, dt, u):
    ex = ref.Exp(dt * np.asarray(A))
    return ex.E @ np.asarray(u, dtype=ref.LD), ex


def amplification(A, dt, u):
    """max over s in [0,1] of |exp((1-s) dt A)| (inf-norm), for errors made in substeps."""
    ex = ref.Exp(dt * np.asarray(A), 4)
    return max(1.0, max(ex.norms))


def prepare(c, real):
    import jax.numpy as jnp
    from ormatex_py.matexp_leja import gen_leja_conjugate, gen_leja_fast
    lo, hi, im = c["box"]
    dt, cov = c["dt"], c["cover"]
    a = min(lo * dt * cov, -1e-3)
    if real:
        x = gen_leja_fast(-2.0, 2.0, c["n"])
        shift, scale, nreal = a / 2, -a / 4, c["n"]
        half = 0.0
    else:
        half = im * dt * cov
        if c["kind"] == "skew":
            a, half = 0.0, max(half, 1e-3)
        x, nreal, scale, shift = gen_leja_conjugate(c["n"], a, 0.0, half)
    return jnp.asarray(x), nreal, float(scale), float(shift), a, half


def inside(c, a, half):
    """Is dt * spectrum inside the interval / the ellipse?"""
    lo, hi, im = c["box"]
    dt = c["dt"]
    A = np.asarray(c["A"])
    ev = np.linalg.eigvals(A) * dt
    if half <= 1e-4 * (abs(a) / 2 + half) / 2 and a < 0:
        return np.all(np.abs(ev.imag) < 1e-9) and np.all(ev.real >= a * (1 + 1e-9)) and np.all(ev.real <= 1e-9)
    if a == 0.0:
        return np.all(np.abs(ev.real) < 1e-9) and np.all(np.abs(ev.imag) <= half * (1 + 1e-9))
    return np.all(((ev.real - a / 2) / (a / 2)) ** 2 + (ev.imag / half) ** 2 <= 1 + 1e-9)


def truncation(c, a, half):
    """What a degree-20 Taylor series with as many squarings as the points ask for misses on this
    operator; None when the given set is far too small for the operator."""
    A, dt = np.asarray(c["A"]), c["dt"]
    r = float(np.linalg.norm(dt * A - a / 2 * np.eye(len(A)), 2))
    size = max(abs(a) / 2, half)
    if r > 3 * size and (r > 2 or c["dd"] != "taylor"):
        return None
    s = max(int(np.ceil(np.log2(size))), 1)
    return 2.0 ** s * (r / 2.0 ** s) ** 21 / float(math.factorial(21))


def judge(ctx, c, got, converged, a, half, nsub, steps_ok, what, extra=0.0):
    A, dt, u = np.asarray(c["A"]), c["dt"], np.asarray(c["u"])
    want, ex = exact_exp(A, dt, u)
    nu = float(np.linalg.norm(u))
    if not converged:
        # a covered normal operator with enough points must converge
        size = abs(a) / 4 + half / 2
        tol_ok = c["tol"] >= 1e-10 and c["dd"] != "recursive"
        enough = c["n"] >= 24 + 4 * size
        if c["kind"] in ("symmetric", "normal", "skew") and tol_ok and enough and steps_ok and inside(c, a, half):
            fail(f"{what}: no convergence to {c['tol']} with {c['n']} points although the spectrum is covered (size {size:.3g})")
        ctx.label("not converged")
        return False
    trunc = truncation(c, a, half)
    if trunc is None:
        ctx.label("set far too small")
        return False
    amp = amplification(A, dt, u)
    # coefficients and Newton polynomial in double precision
    noise = 1e-13 * (1 + c["n"] / 10) * (1 + abs(a) + half)
    if c["dd"] == "recursive":
        noise *= 1e3
    noise += extra + 10 * trunc
    tol = (FACTOR * c["tol"] + noise) * nu * amp * max(1, nsub)
    ctx.label("converged")
    err = float(np.linalg.norm((np.asarray(got).astype(ref.LD) - want).astype(float)))
    ctx.maximum(f"err/(tol |u|) {what}", (err - noise * nu * amp * max(1, nsub)) / (c["tol"] * nu * amp * max(1, nsub)))
    close(ctx, got, want, tol, f"{what} reports convergence ({c['dd']}, {c['kind']})", what)
    return True


def strat_real(ctx):
    return case(ctx, ["symmetric", "symmetric", "upper", "normal"], ["plain", "plain", "conj", "substep", "substep", "nosub"])


def check_real(ctx, c):
    from ormatex_py.matexp_leja import (complex_conj_leja_expmv, complex_conj_leja_expmv_substep, dd_method_dict,
                                        real_leja_expmv, real_leja_expmv_substep)
    from ormatex_py.ode_sys import MatrixLinOp
    x, nreal, scale, shift, a, half = prepare(c, True)
    lop, u, n = MatrixLinOp(jnp_(c["dt"] * np.asarray(c["A"]))), jnp_(c["u"]), len(c["u"])
    m = c["mode"]
    if m in ("plain", "conj"):
        lop = MatrixLinOp(jnp_(np.asarray(c["A"])))
        co = dd_method_dict[c["dd"]](x, shift, scale, 1.0)
        if m == "plain":
            got, it, conv = real_leja_expmv(lop, c["dt"], u, shift, scale, x, co, c["tol"])
        else:
            got, it, conv = complex_conj_leja_expmv(lop, c["dt"], u, shift, scale, x, nreal, co, c["tol"])
        require(int(it) <= c["n"], f"{int(it)} points used of {c['n']}")
        return judge(ctx, c, np.asarray(got), bool(conv), a, 0.0, 1, True, f"real {m}")
    return substeps(ctx, c, lambda **k: real_leja_expmv_substep(
        lop, c["tau"], u, x, n, shift, scale, c["tol"], dd_method=c["dd"], **k), a, 0.0, "real substeps", lop)


def substeps(ctx, c, f, a, half, what, lop):
    sub = c["mode"] == "substep"
    try:
        got, iters, conv, max_tau = f(substep=sub)
    except RuntimeError as e:
        require(sub and "substeps" in str(e), f"unexpected {e}")
        A, dt = np.asarray(c["A"]), c["dt"]
        small = c["tau"] > 0.002 and ref.infnorm(A) * dt < 2 and c["tol"] >= 1e-10 and c["n"] >= 24 and c["dd"] != "recursive"
        if small and c["kind"] in ("symmetric", "normal", "skew") and inside(c, a, half):
            fail(f"{what}: substepping gave up on an easy problem: {e}")
        ctx.label("gave up")
        return False
    if sub:
        require(bool(conv), "substeps returned without convergence")
        require(0 < float(max_tau) <= 1 + 1e-12, f"largest substep {float(max_tau)}")
        nsub = int(np.ceil(min(1000, max(1 / float(max_tau), 1 / min(1.0, c["tau"])))) + 30)
        return judge(ctx, c, np.asarray(got), True, a, half, nsub, True, what)
    require(float(max_tau) == 1.0, "no substeps, but a substep size other than one")
    return judge(ctx, c, np.asarray(got), bool(conv), a, half, 1, True, what + " off")


def strat_conj(ctx):
    return case(ctx, ["normal", "normal", "skew", "symmetric", "jordanish", "upper"], ["plain", "plain", "substep", "substep", "nosub"])


def check_conj(ctx, c):
    from ormatex_py.matexp_leja import complex_conj_leja_expmv, complex_conj_leja_expmv_substep, dd_method_dict
    from ormatex_py.matexp_poly import leja_seq_pad_zeros
    from ormatex_py.ode_sys import MatrixLinOp
    x, nreal, scale, shift, a, half = prepare(c, False)
    u, n, pad = jnp_(c["u"]), len(c["u"]), c["pad"]
    if pad and np.any(np.abs(np.asarray(x)) < 1e-9) and c["dd"] == "recursive":
        return False    # points repeated to 1e-12 are beyond the plain recursion
    if pad > 1 and c["dd"] == "recursive":
        return False
    if c["mode"] == "plain":
        lop = MatrixLinOp(jnp_(np.asarray(c["A"])))
        if pad:
            x = leja_seq_pad_zeros(x, pad)
        co = dd_method_dict[c["dd"]](x, shift, scale, 1.0)
        got, it, conv = complex_conj_leja_expmv(lop, c["dt"], u, shift, scale, x, nreal + pad, co, c["tol"])
        require(int(it) <= len(x), f"{int(it)} points used of {len(x)}")
        return judge(ctx, c, np.asarray(got), bool(conv), a, half, 1, True, "conjugate")
    lop = MatrixLinOp(jnp_(c["dt"] * np.asarray(c["A"])))
    return substeps(ctx, c, lambda **k: complex_conj_leja_expmv_substep(
        lop, c["tau"], u, x, nreal, n, shift, scale, c["tol"], leja_n_zeros=pad, dd_method=c["dd"], **k),
        a, half, "conjugate substeps", lop)


def strat_imag(ctx):
    return case(ctx, ["skew", "skew", "normal"], ["double", "double", "single"])


def check_imag(ctx, c):
    import jax.numpy as jnp
    from ormatex_py.matexp_leja import complex_conj_imag_leja_expmv, dd_method_dict, gen_complex_conj_leja_fast
    from ormatex_py.ode_sys import MatrixLinOp
    lo, hi, im = c["box"]
    A, dt = np.asarray(c["A"]), c["dt"]
    half = max(im * dt * c["cover"], 0.1)
    beta = [1.0, 2.0, 4.0][c["pad"] % 3]
    scale = half / beta
    x = gen_complex_conj_leja_fast(beta, c["n"])
    extra = 0.0
    if c["mode"] == "double":
        x = jnp.asarray(np.asarray(x).astype(np.complex128))
    else:
        # the generator's points are single precision, and so is what is computed from them
        extra = 1e-5 * (1 + half) ** 2
    co = dd_method_dict[c["dd"]](x, 0.0, scale, 1.0)
    got, it, conv = complex_conj_imag_leja_expmv(MatrixLinOp(jnp_(A)), dt, jnp_(c["u"]), 0.0, scale, x, co, c["tol"])
    return judge(ctx, dict(c, n=0), np.asarray(got), bool(conv), 0.0, half, 1, True, "imaginary " + c["mode"], extra)


# --- spectral estimate -----------------------------------------------------------------------
def strat_power(ctx):
    n = DIMS[ctx.part % len(DIMS)]

    @st.composite
    def s(draw):
        lead = draw(st.sampled_from([-1.0, 1.0, -1.0])) * draw(gen.logscale(-1, 3))
        rest = [draw(gen.q(-0.5, 0.5, 16)) * abs(lead) for _ in range(n - 1)]
        return {"ev": [lead] + rest, "v": draw(gen.nzvec(n)), "b0": draw(st.one_of(st.none(), gen.nzvec(n))),
                "iter": draw(st.sampled_from([20, 50, 5])), "sf": draw(st.sampled_from([1.0, 1.2, 2.0]))}
    return s()


def check_power(ctx, c):
    from ormatex_py.matexp_leja import leja_shift_scale, power_iter
    from ormatex_py.ode_sys import MatrixLinOp
    ev, v = np.asarray(c["ev"]), np.asarray(c["v"])
    n = len(ev)
    Q = np.eye(n) - 2 * np.outer(v, v) / (v @ v)
    A = Q @ np.diag(ev) @ Q
    lead = Q[:, 0]
    lop = MatrixLinOp(jnp_(A))
    b0 = None if c["b0"] is None else np.asarray(c["b0"])
    import jax
    start = np.asarray(jax.random.uniform(jax.random.key(42), (n,))) if b0 is None else b0
    if np.linalg.norm(A @ start) < 1e-3 * abs(ev[0]) * np.linalg.norm(start):
        return False        # the start vector lies in the kernel: there is nothing to iterate on
    shift, scale, eig, b, it = leja_shift_scale(lop, n, c["iter"], None if b0 is None else jnp_(b0), c["sf"])
    shift, scale, eig = float(shift), float(scale), float(eig)
    require(int(it) <= c["iter"], f"{int(it)} power iterations, at most {c['iter']} allowed")
    finite(b, "eigenvector")
    close(ctx, shift, eig / 2, 4 * EPS * abs(eig), "shift is half the extreme eigenvalue", "relation")
    close(ctx, scale, abs(eig) / 4, 4 * EPS * abs(eig), "scale is a quarter of its size", "relation")
    close(ctx, np.linalg.norm(np.asarray(b)), 1.0, 1e-12, "the eigenvector is normalised", "norm")
    lam = eig / c["sf"]
    require(abs(lam) <= abs(ev[0]) * (1 + 1e-12), f"estimate {lam} larger than any eigenvalue")
    # the documented iteration, in the eigenbasis and in 80 bits
    w = np.asarray(Q @ start, dtype=np.longdouble)
    E = np.asarray(ev, dtype=np.longdouble)
    new, old, k, margin = np.longdouble(1e20), np.longdouble(1), 0, np.inf
    while abs(new - old) > 0.05 and k < c["iter"]:
        new, old = (w * E * w).sum() / (w * w).sum(), new
        w = E * w / np.sqrt(((E * w) ** 2).sum())
        k += 1
        margin = min(margin, float(abs(abs(new - old) - 0.05)))
    if margin > 1e-9 * (1 + abs(ev[0])):
        require(int(it) == k, f"{int(it)} power iterations, the documented rule stops after {k}")
        close(ctx, lam, float(new), 1e-10 * abs(ev[0]), "Rayleigh quotient of the last iterate", "rayleigh")
        close(ctx, np.abs(np.asarray(b)), np.abs(Q @ w.astype(float)), 1e-8, "eigenvector iterate", "iterate")
    e2, b2, it2 = power_iter(lop, jnp_(lead), 20)
    close(ctx, float(e2), ev[0], 1e-9 * abs(ev[0]), "started at the eigenvector", "eigen start")
    require(int(it2) <= 3, f"started at the eigenvector, {int(it2)} iterations")
    return n > 1


PROP = Prop("C11", [
    Sub("real", strat_real, check_real, 640, parts=8, cost=3, rule="convergence reported"),
    Sub("conjugate", strat_conj, check_conj, 480, parts=8, cost=6, rule="convergence reported"),
    Sub("imaginary", strat_imag, check_imag, 320, parts=4, cost=2, rule="convergence reported"),
    Sub("power", strat_power, check_power, 240, parts=4, cost=2, rule="dimension above 1"),
], rule="Symmetric, skew, normal and non-normal dissipative operators, spectra inside and outside the given set.",
    assumptions=["reported convergence is held to 60 times the tolerance, plus the round-off of the Newton form"])
