"""C06: linear operators behave as the matrices they stand for."""
import numpy as np
from hypothesis import strategies as st
from pbt import gen, ref
from pbt.core import Prop, Sub, fail, require
from pbt.props.c03 import jnp_
from pbt.util import close, exact

EPS = ref.EPS
DIMS = [3, 1, 5, 2, 4, 7, 8, 6]


def make(c, A, d):
    import jax.numpy as jnp
    from jax.experimental import sparse as jsp
    from ormatex_py.ode_sys import DiagLinOp, EyeLinOp, MatrixLinOp
    n = len(A)
    if c["op"] == "eye":
        return EyeLinOp(n), np.eye(n)
    if c["op"] == "diag":
        return DiagLinOp(jnp_(d)), np.diag(d)
    if c["op"] == "sparse":
        return MatrixLinOp(jsp.BCOO.fromdense(jnp_(A), nse=n * n)), A
    if c["op"] == "coo":       # unsorted, with duplicate entries that have to be summed
        idx = [(i, j) for i in range(n) for j in range(n)]
        idx = idx[::-1] + idx
        data = np.array([0.25 * A[i, j] for i, j in idx[:n * n]] + [0.75 * A[i, j] for i, j in idx[n * n:]])
        return MatrixLinOp(jsp.BCOO((jnp_(data), jnp.asarray(np.array(idx))), shape=(n, n))), A
    return MatrixLinOp(jnp_(A)), A


def strat(ctx):
    n = DIMS[ctx.part % len(DIMS)]
    return st.fixed_dictionaries({
        "op": st.sampled_from(["dense", "dense", "sparse", "coo", "diag", "eye"]),
        "m": gen.matrix(n, maxnorm=100.0), "d": gen.vec(n), "v": gen.vec(n), "w": gen.vec(n),
        "al": gen.q(-3, 3), "vs": st.sampled_from([1.0, 1e-12, 1e8])})


def check(ctx, c):
    A = np.array(c["m"]["a"])
    op, M = make(c, A, np.array(c["d"]))
    v, w, al = np.array(c["v"]) * c["vs"], np.array(c["w"]), c["al"]
    want = M @ v
    tol = 4 * len(A) * EPS * (np.abs(M) @ np.abs(v)) + 1e-300
    for name, f in (("__call__", op), ("matvec", op.matvec), ("_matvec", op._matvec)):
        got = np.asarray(f(jnp_(v)))
        close(ctx, got, want, tol, f"{c['op']}.{name}", "matvec")
    npc = op.matvec_npcompat(v if c["op"] != "coo" else jnp_(v))
    require(isinstance(npc, np.ndarray), f"matvec_npcompat returned {type(npc)}")
    close(ctx, npc, want, tol, f"{c['op']}.matvec_npcompat", "matvec")
    D = np.asarray(op.dense())
    close(ctx, D, M, 4 * EPS * np.abs(M) + 1e-300, f"{c['op']}.dense()", "dense")
    got = np.asarray(op(jnp_(al * v + w)))
    wt = al * np.asarray(op(jnp_(v))) + np.asarray(op(jnp_(w)))
    close(ctx, got, wt, 20 * len(A) * EPS * (np.abs(M) @ (abs(al) * np.abs(v) + np.abs(w))) + 1e-300,
          f"{c['op']}: linearity", "linear")
    ctx.label(c["op"])
    return bool(M.any() and v.any())


# --- augmented operator -------------------------------------------------------------------
def strat_aug(ctx):
    n = [3, 5, 1, 4][ctx.part % 4]

    @st.composite
    def s(draw):
        p = draw(st.sampled_from([1, 2, 3, 4]))
        return {"op": draw(st.sampled_from(["dense", "sparse", "diag", "eye"])),
                "m": draw(gen.matrix(n, maxnorm=50.0)), "d": draw(gen.vec(n)),
                "B": [draw(gen.vec(p)) for _ in range(n)],
                "K": draw(st.one_of(st.just(None), st.lists(gen.vec(p), min_size=p, max_size=p))), "p": p,
                "v": draw(gen.vec(n + p)), "dt": draw(st.sampled_from([1.0, 0.5, -2.0, 0.0, 1e-6]))}
    return s()


def check_aug(ctx, c):
    from ormatex_py.ode_sys import AugMatrixLinOp
    A = np.array(c["m"]["a"])
    op, M = make(c, A, np.array(c["d"]))
    n, p = len(A), c["p"]
    B = np.array(c["B"])
    K = np.eye(p, k=1) if c["K"] is None else np.array(c["K"])
    full = np.zeros((n + p, n + p))
    full[:n, :n] = c["dt"] * M
    full[:n, n:] = B
    full[n:, n:] = K
    aug = AugMatrixLinOp(op, c["dt"], jnp_(B), jnp_(K))
    v = np.array(c["v"])
    tol = 8 * (n + p) * EPS * (np.abs(full) @ np.abs(v)) + 1e-300
    close(ctx, np.asarray(aug(jnp_(v))), full @ v, tol, "augmented operator", "aug")
    close(ctx, aug.matvec_npcompat(jnp_(v)), full @ v, tol, "augmented operator (numpy)", "aug")
    return n > 1 and p > 1 and bool(full.any())


# --- kernels of phi_linop through every operator type -------------------------------------
def strat_build(ctx):
    n = [4, 2, 3, 6][ctx.part % 4]
    return st.fixed_dictionaries({
        "op": st.sampled_from(["dense", "sparse", "diag", "eye"]),
        "m": gen.matrix(n, maxnorm=10.0), "d": gen.vec(n),
        "vb": st.integers(1, 4).flatmap(lambda p: st.lists(gen.vec(n), min_size=p + 1, max_size=p + 1)),
        "dt": st.sampled_from([1.0, 0.5, -1.0, 1e-3])})


def check_build(ctx, c):
    """build_a_tilde: exp(a_tilde) v carries sum_j phi_j(A dt) vb_j in its first n entries."""
    from ormatex_py.matexp_leja import build_a_tilde
    A = np.array(c["m"]["a"])
    op, M = make(c, A, np.array(c["d"]))
    vb = np.array(c["vb"])
    n = len(A)
    lo, v, n_out = build_a_tilde(op, c["dt"], [jnp_(x) for x in vb])
    v = np.asarray(v)
    require(int(n_out) == n, f"build_a_tilde returned n={n_out}, operator has dimension {n}")
    require(v.shape == (n + len(vb) - 1,), f"start vector of shape {v.shape}")
    N = len(v)
    T = np.stack([np.asarray(lo(jnp_(e))) for e in np.eye(N)], axis=1)
    ex = ref.Exp(T)
    got = np.asarray((ex.E @ v.astype(ref.LD))[:n])
    want = ref.phi_comb(c["dt"] * M, vb)
    g = max(1.0, ref.maxabs(ex.E))
    close(ctx, got.astype(float), want.astype(float), 1e-13 * N * g * max(ref.maxabs(vb), 1e-300) * (1 + ref.infnorm(T)),
          "exp(a_tilde) v", "a_tilde")
    return n > 1 and bool(vb[1:].any())


PROP = Prop("C06", [
    Sub("matvec", strat, check, 2400, parts=8, rule="non-zero operator and vector"),
    Sub("augmented", strat_aug, check_aug, 800, parts=4, cost=1.5, rule="dimension and number of augmented columns above 1"),
    Sub("a_tilde", strat_build, check_build, 400, parts=4, cost=3, rule="dimension above 1 and some vector beyond the first non-zero"),
], rule="Dense, sparse (sorted, unsorted, with duplicates), diagonal and identity operators of dimension 1 to 8.",
    assumptions=["oracle: the explicit NumPy matrix"])
