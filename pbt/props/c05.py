"""C05: sum_j phi_j(dt A) b_j in one Krylov solve."""
import numpy as np
from hypothesis import strategies as st
from pbt import gen, ref
from pbt.core import Prop, Sub, fail, require
from pbt.props.c03 import jnp_, lop
from pbt.props.c04 import tame
from pbt.util import close

EPS = ref.EPS
DIMS = [3, 2, 4, 1, 5, 3, 2, 6]


def strat(ctx):
    n = DIMS[ctx.part % len(DIMS)]

    @st.composite
    def s(draw):
        p = draw(st.sampled_from([1, 2, 3, 4, 2, 5]))
        vb = []
        unit = draw(st.sampled_from([1.0, 1.0, 1.0, 1e-15, 1e-30, 1e-100, 1e40]))
        for _ in range(p + 1):
            t = unit * draw(st.sampled_from([0.0, 1.0, 1.0, 1.0, 1e-8, 1e4, 0.1]))
            vb.append([float(f"{x * t:.12g}") for x in draw(gen.vec(n))])
        return {"m": draw(gen.matrix(n, maxnorm=40.0)), "vb": vb, "dt": draw(st.sampled_from([1.0, 0.5, 0.1, 2.0, -0.5, 0.0])),
                "dim": draw(st.sampled_from([n + p, 100])), "op": draw(st.sampled_from(["dense", "dense", "sparse"]))}
    return s()


def check(ctx, c):
    from ormatex_py.matexp_krylov import kiops_fixedsteps
    A, dt = np.array(c["m"]["a"]), c["dt"]
    vb = [np.array(v) for v in c["vb"]]
    M = dt * A
    if not tame(M):
        return False
    n, p = len(A), len(vb) - 1
    got = np.asarray(kiops_fixedsteps(lop(A, c["op"]), dt, [jnp_(v) for v in vb], c["dim"]))
    big = max(np.linalg.norm(v) for v in vb)
    if big == 0:
        require(got.shape == (n,) and not got.any(), "all vectors are zero, the sum is not")
        return False
    want = ref.phi_comb(M, vb)
    aug = ref.aug_comb(M, [v / big for v in vb])
    v0 = np.concatenate([vb[0] / big, np.zeros(p - 1), [1.0]])
    Q, H, _ = ref.arnoldi(aug, v0, n + p)
    ex = ref.Exp(aug)
    tol = big * np.linalg.norm(v0) * np.sqrt(n + p) * (ref.expm_tol(H) + 300 * (n + p) * EPS * (1 + ref.infnorm(aug)) * max(1.0, ref.maxabs(ex.E)))
    if tol > 1e-3 * max(big, np.max(np.abs(want))):
        ctx.label("tolerance too wide, not judged")
        return False
    close(ctx, got, want, tol, f"sum of {p + 1} phi terms, n={n}", f"p{p}")
    ctx.label(f"p={p}")
    return bool(M.any()) and sum(1 for v in vb if v.any()) >= 2


# --- linear in the vectors, b_0 alone is the exponential ------------------------------------
def strat_lin(ctx):
    n = DIMS[ctx.part % len(DIMS)]
    return st.fixed_dictionaries({
        "m": gen.matrix(n, maxnorm=10.0), "dt": st.sampled_from([1.0, 0.5, -0.5]),
        "u": st.lists(gen.vec(n), min_size=3, max_size=3), "w": st.lists(gen.vec(n), min_size=3, max_size=3),
        "a": st.sampled_from([1.0, -2.0, 0.5, 100.0])})


def check_lin(ctx, c):
    from ormatex_py.matexp_krylov import kiops_fixedsteps, matexp_linop
    A, dt = np.array(c["m"]["a"]), c["dt"]
    if not tame(dt * A):
        return False
    op = lop(A, "dense")

    def K(vb):
        return np.asarray(kiops_fixedsteps(op, dt, [jnp_(v) for v in vb], 100))
    u, w = [np.array(x) for x in c["u"]], [np.array(x) for x in c["w"]]
    s = [c["a"] * x + y for x, y in zip(u, w)]
    g = max(1.0, ref.maxabs(ref.phi(dt * A, 0)))
    size = max(max(np.abs(x).max() for x in v) * f for v, f in ((u, abs(c["a"])), (w, 1.0), (s, 1.0)))
    tol = 1e-6 * g * size + 1e-300
    close(ctx, K(s), c["a"] * K(u) + K(w), tol, "linear in the vectors", "linear")
    z = np.zeros(len(A))
    close(ctx, K([u[0], z, z]), np.asarray(matexp_linop(op, dt, jnp_(u[0]), 100)), 1e-6 * g * (np.abs(u[0]).max() + 1e-300),
          "b_0 alone is exp(dt A) b_0", "b0")
    return size > 0


# --- larger operator, subspace that has converged ---------------------------------------------
def strat_conv(ctx):
    n = [30, 50][ctx.part % 2]
    return st.fixed_dictionaries({
        "m": gen.matrix(n, kinds=["tridiag", "decay", "diag"], maxnorm=3.0),
        "vb": st.lists(gen.vec(6), min_size=3, max_size=3), "dt": st.sampled_from([1.0, -0.5]),
        "iom": st.sampled_from([100, 28])})


def check_conv(ctx, c):
    from ormatex_py.matexp_krylov import kiops_fixedsteps
    A = np.array(c["m"]["a"])
    n = len(A)
    vb = [np.array((v * (n // 6 + 1))[:n]) * f for v, f in zip(c["vb"], (0.0, 1.0, 0.5))]
    dt = c["dt"]
    got = np.asarray(kiops_fixedsteps(lop(A, "dense"), dt, [jnp_(v) for v in vb], 26, c["iom"]))
    want = ref.phi_comb(dt * A, vb)
    big = max(np.linalg.norm(v) for v in vb)
    close(ctx, got, want, 1e-9 * big * max(1.0, ref.maxabs(ref.phi(dt * A, 0))) + 1e-300, f"n={n}, subspace of 26", "converged")
    return big > 0 and bool(A.any())


PROP = Prop("C05", [
    Sub("exact", strat, check, 1600, parts=8, cost=1.5, rule="non-zero operator and at least two non-zero vectors"),
    Sub("linear", strat_lin, check_lin, 240, parts=4, cost=3, rule="some vector is non-zero"),
    Sub("converged", strat_conv, check_conv, 60, parts=2, cost=6, rule="non-zero operator and vectors, n = 30 or 50"),
], rule="1 to 5 phi terms of very different magnitude, zero vectors included, any sign of dt.",
    assumptions=["oracle: 80-bit exponential of the augmented matrix"])
