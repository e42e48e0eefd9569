"""C13: divided-difference coefficients of exp and phi_l."""
import math
import numpy as np
from hypothesis import strategies as st
from mpmath import mp
from pbt import gen, ref
from pbt.core import Prop, Sub, fail, require
from pbt.util import close

EPS = ref.EPS


def exact_dd(z, f, steps=None, dps=None):
    """Divided differences of f at the nodes z, in multiprecision."""
    n = len(z)
    mp.dps = dps or (80 + 4 * n)
    zi = [mp.mpc(complex(v)) for v in z]
    a = [f(v) for v in zi]
    for k in range(1, n):
        for b in range(k, n):
            a[b] = (a[b] - a[k - 1]) / (zi[b] - zi[k - 1])
    return a


def phi_mp(l):
    def f(v):
        if l == 0:
            return mp.exp(v)
        s, term, k = mp.mpf(0), mp.mpf(1) / mp.factorial(l), 0
        while True:
            s += term
            k += 1
            term = term * v / (k + l)
            if abs(term) < mp.mpf(10) ** (-mp.dps) * (1 + abs(s)) and k > 2 * abs(v):
                return s
    return f


def to_np(a):
    return np.array([complex(v) for v in a])


# --- node families -------------------------------------------------------------------------------
def nodes_strategy(sizes):
    return st.fixed_dictionaries({
        "fam": st.sampled_from(["interval", "ellipse", "imag", "circle", "fast", "list"]),
        "n": st.sampled_from(sizes),
        "c": st.sampled_from([0.1, 0.5, 1.0, 2.0, 4.0]), "pad": st.sampled_from([0, 0, 0, 1, 2, 3, 5]),
        "x": st.lists(gen.q(-2, 2, 64), min_size=max(sizes), max_size=max(sizes), unique=True)})


def make_nodes(c):
    """c["n"] distinct nodes, c["pad"] of them near zero."""
    from ormatex_py.matexp_leja import gen_leja_circle, gen_leja_conjugate, gen_leja_fast
    from ormatex_py.matexp_poly import leja_seq_pad_zeros, leja_seq_reordering
    import jax.numpy as jnp
    fam, pad = c["fam"], c["pad"]
    n = c["n"] - pad
    if n < 4:
        n, pad = c["n"], 0
    x = None
    for i in range(2):
        if fam == "interval":
            x = gen_leja_conjugate(n, -2.0, 0.0, 0.0)[0]
        elif fam == "ellipse":
            x = gen_leja_conjugate(n, -2.0, 0.0, c["c"])[0]
        elif fam == "imag":
            x = gen_leja_conjugate(n, 0.0, 0.0, c["c"])[0]
        elif fam == "circle":
            x = gen_leja_circle(n, conjugate=True)
        elif fam == "fast":
            x = gen_leja_fast(-2.0, 2.0, n)
        else:
            x = leja_seq_reordering(np.array(c["x"][:n]))
        x = np.asarray(x)
        if pad and np.any(np.abs(x) < 1e-9):
            n, pad = c["n"], 0
            continue
        break
    if pad:
        x0, x = x, np.asarray(leja_seq_pad_zeros(jnp.asarray(x), pad))
        require(np.array_equal(x[pad:], x0), f"padding with {pad} zeros changed the sequence")
        require(np.all(np.abs(x[:pad]) < 1e-9) and len(np.unique(x)) == pad + len(np.unique(x0)),
                f"padding with {pad} zeros gives nodes that are not {pad} distinct points next to zero: {x[:pad].tolist()}")
    assert len(x) == c["n"]
    return x if len(np.unique(x)) == len(x) else None


SIZES = [4, 5, 6, 7, 8, 10, 12, 16, 20, 25, 31, 40]


def strat_coeffs(ctx):
    return st.fixed_dictionaries({
        "nodes": nodes_strategy([SIZES[(ctx.part + ctx.seed) % 8], SIZES[8 + (ctx.part + 3 * ctx.seed) % 4]]), "method": st.sampled_from(["taylor", "pade", "recursive"]),
        "shift": st.one_of(st.just(0.0), gen.q(-30, 3, 8), st.just("spectrum")),
        "scale": st.one_of(gen.logscale(-3, 1), gen.q(0.125, 16, 8), gen.logscale(1, 2.4)),
        "h": st.sampled_from([1.0, 1.0, 0.5, 0.25, 0.3, 0.01])}).map(_box)


def _box(c):
    # wide intervals only where the spectrum of a decaying operator lies: [-4 scale, 0] for nodes in
    # [-2, 2]; the exponential about their mean overflows beyond a width of about 1400
    if c["shift"] == "spectrum" or c["scale"] > 16:
        c = dict(c, shift=-2 * c["scale"])
    return c


def check_coeffs(ctx, c):
    import jax.numpy as jnp
    from ormatex_py.matexp_leja import dd_method_dict
    x = make_nodes(c["nodes"])
    if x is None:
        return False
    shift, scale, h, n = c["shift"], c["scale"], c["h"], len(x)
    got = np.asarray(dd_method_dict[c["method"]](jnp.asarray(x), shift, scale, h))
    require(got.shape == (n,), f"{got.shape} coefficients for {n} nodes")
    want = to_np(exact_dd(x, lambda v: mp.exp(mp.mpf(h) * (mp.mpf(shift) + mp.mpf(scale) * v)),
                          dps=120 + 6 * n + 13 * c["nodes"]["pad"]))
    Xi = np.diag(x) + np.diag(np.ones(n - 1), -1)
    M = h * (shift * np.eye(n) + scale * Xi)
    if c["method"] == "pade":
        tol = ref.expm_tol(M)
    elif c["method"] == "taylor":
        mu = np.mean(h * (shift + x * scale))
        Z = h * (shift * np.eye(n) + scale * Xi - mu * np.eye(n))
        s = max(1, int(math.ceil(math.log2(np.max(np.abs(Z)) / h))))
        ex = ref.Exp(Z, s)
        th = ref.infnorm(Z) / 2.0 ** s
        tol = 5 * ex.roundoff(delta=2 * th ** 21 / math.factorial(21), stages=s) * abs(np.exp(h * mu))
    else:
        # running error of the recursion
        a = np.exp(h * (shift + scale * x))
        e = 4 * EPS * np.abs(a) * (1 + np.abs(h * (shift + scale * x)))
        ex = want
        a = a.astype(np.clongdouble)
        for k in range(1, n):
            d = np.abs(x[k:] - x[k - 1])
            e[k:] = (e[k:] + e[k - 1]) / d + 8 * EPS * np.abs(a[k:] - a[k - 1]) / d
            a[k:] = (a[k:] - a[k - 1]) / (x[k:] - x[k - 1])
        tol = 4 * e.astype(float) + 1e-300
        if not np.all(np.isfinite(tol)):
            return False
    close(ctx, got, want, tol, f"divided differences ({c['method']}) on {c['nodes']['fam']} nodes", c["method"])
    big = np.max(np.abs(want[:min(4, n)]))
    return np.min(np.broadcast_to(tol, n)[:min(4, n)]) < 1e-3 * big


# --- other routines -----------------------------------------------------------------------------------
def strat_other(ctx):
    return st.fixed_dictionaries({
        "nodes": nodes_strategy([ctx.pick([4, 5, 6, 7, 8, 9, 11, 14])]), "method": st.sampled_from(["ts_ss", "ts_phi", *(["ts_phi_jax"] if ctx.part % 8 in (0, 1, 2) else []), "ts_full", "substep", "dd_phi", "dd_phi", "ndd"]),
        "shift": st.one_of(st.just(0.0), gen.q(-1, 0.5, 8)), "scale": gen.q(0.125, 1, 8), "h": st.sampled_from([1.0, 0.5, 0.3]),
        "l": st.integers(0, 3), "big": gen.q(0.25, 8, 4)})


def check_other(ctx, c):
    import jax.numpy as jnp
    from ormatex_py import matexp_poly as P
    x = make_nodes(c["nodes"])
    if x is None:
        return False
    m, shift, scale, h, l, n = c["method"], c["shift"], c["scale"], c["h"], c["l"], len(x)
    dps = 120 + 6 * n + 13 * c["nodes"]["pad"]

    def ddx(hh, sh, sc):
        return to_np(exact_dd(x, lambda v: mp.exp(mp.mpf(hh) * (mp.mpf(sh) + mp.mpf(sc) * v)), dps=dps))

    def ts_tol(hh, sh, sc, terms=17):
        """Truncation after `terms` terms of the Taylor series, and roundoff."""
        X = hh * (float(np.max(np.abs(sh + sc * x))) + sc)
        return 20 * X ** terms / math.factorial(terms) + 1e-12 * math.exp(X)

    if m == "ts_phi":
        got, want, tol = P.leja_coeffs_ts_phi(x, shift, scale, h, 0), ddx(h, shift, scale), ts_tol(h, shift, scale)
    elif m == "ts_phi_jax":
        x = x[:5]   # the unrolled kernel compiles slowly
        n = len(x)
        got, want, tol = P.leja_coeffs_ts_phi_jax(jnp.asarray(x), shift, scale, h, 0), ddx(h, shift, scale), 1e-4
    elif m == "ts_full":
        F = np.asarray(P.leja_coeffs_ts_phi(x, shift, scale, h, 0, full=True))
        require(F.shape == (n, n), f"full table has shape {F.shape}")
        Xi = np.diag(x) + np.diag(np.ones(n - 1), -1)
        want = ref.Exp(h * (shift * np.eye(n) + scale * Xi)).E
        got, tol = F, ts_tol(h, shift, scale)
    elif m == "substep":
        sc = c["big"]
        sh = -2 * sc if c["shift"] < 0 else 0.0
        got, want, tol = P.leja_coeffs_ts_phi_substep(x, sh, sc), ddx(1.0, sh, sc), None
        steps = max(1, math.ceil(sc))
        tau = 1.0 / steps
        # the amplification of the later substeps
        mu = max(1.0, math.exp(tau * (sh + 2 * sc)))
        nrm = max(1.0, ref.infnorm(ref.Exp(tau * (sh * np.eye(n) + sc * (np.diag(x) + np.diag(np.ones(n - 1), -1)))).E.astype(complex)))
        tol = n * steps * ts_tol(tau, sh, sc) * max(mu, nrm) ** steps
        if tol > 1e-2:
            return False
    elif m == "ts_ss":
        z = shift + scale * x
        got = P.leja_coeffs_ts_ss(x, shift, scale)
        want, tol = to_np(exact_dd(z, mp.exp, dps=dps)), 1e-9
    elif m == "dd_phi":
        sc = c["big"] if c["big"] <= 2 else scale
        z = h * (shift + sc * x)
        got = P.leja_coeffs_dd_phi(x, shift, sc, h, l)
        want, tol = to_np(exact_dd(z, phi_mp(l), dps=dps)), 1e-5 * math.exp(max(0.0, float(np.max(z.real))))
    else:
        y = np.cos(x) + 0.5 * x ** 3 - 1
        got = P.newton_poly_div_diff(jnp.asarray(x), jnp.asarray(y))
        # interpolation: the Newton form reproduces y at the nodes
        cs = np.asarray(got).astype(np.clongdouble)
        xl = x.astype(np.clongdouble)
        tolv = []
        for i in range(n):
            p, w, mag = np.clongdouble(0), np.clongdouble(1), 0.0
            for k in range(i + 1):
                p = p + cs[k] * w
                mag += float(np.abs(cs[k] * w))
                w = w * (xl[i] - xl[k])
            tolv.append((float(np.abs(p - y[i])), mag))
        for i, (e, mag) in enumerate(tolv):
            require(e <= 1e-13 * n * mag + 1e-13, f"the Newton polynomial misses node {i} by {e:.3g}")
        return True
    ctx.label(m)
    close(ctx, np.asarray(got), want, tol, f"{m}", m)
    return True


# --- expm_taylor ------------------------------------------------------------------------------------------
def strat_taylor(ctx):
    n = ctx.pick([2, 3, 4, 5])
    return st.fixed_dictionaries({"A": gen.matrix(n, maxnorm=2.0), "shift": st.one_of(st.just(0.0), gen.q(-4, 4, 8)),
                                  "scale": st.sampled_from([1.0, 0.5, -1.0, 2.0, -0.25, 0.0, 1.5]), "p": st.sampled_from([20, 20, 10, 4, 1])})


def check_taylor(ctx, c):
    import jax.numpy as jnp
    from ormatex_py.matexp_poly import expm_taylor
    A = np.asarray(c["A"]["a"])
    n, sc, sh, p = len(A), c["scale"], c["shift"], c["p"]
    got = np.asarray(expm_taylor(jnp.asarray(A), sh, sc, p))
    S = np.asarray(sc * A, dtype=ref.LD)
    X, T = np.eye(n, dtype=ref.LD), np.eye(n, dtype=ref.LD)
    for i in range(1, p + 1):
        T = T @ S / i
        X = X + T
    want = np.exp(ref.LD(sh)) * X
    close(ctx, got, want, 1e-13 * math.exp(sh) * math.exp(ref.infnorm(S)), f"degree-{p} Taylor polynomial", "taylor poly")
    return np.any(S != 0)


PROP = Prop("C13", [
    Sub("coeffs", strat_coeffs, check_coeffs, 480, parts=8, cost=4, rule="tolerance below 1e-3 of the leading coefficients"),
    Sub("other", strat_other, check_other, 400, parts=8, cost=4, rule="distinct nodes"),
    Sub("expm_taylor", strat_taylor, check_taylor, 320, parts=4, cost=0.5, rule="scale * A is not zero"),
], rule="Leja nodes of every family with shifts, scales, step fractions and padded zeros.",
    assumptions=["oracle: divided differences by the recursion in 100 to 400 decimal digits (mpmath)",
                 "phi tables by TS(II) are specified for k=0 and |h z| of a few units, as in the cited papers"])
