"""C03: the Arnoldi process."""
import numpy as np
from hypothesis import strategies as st
from pbt import gen, ref
from pbt.core import Prop, Sub, fail, require
from pbt.util import close

EPS = ref.EPS
DIMS = [3, 5, 2, 6, 1, 8, 4, 7]
BREAK = 1e-12   # happy-breakdown threshold on the norm of the new direction


def jnp_(a):
    import jax.numpy as jnp
    return jnp.asarray(np.asarray(a, dtype=float))


def lop(A, kind):
    import jax.numpy as jnp
    from jax.experimental import sparse as jsp
    from ormatex_py.ode_sys import DiagLinOp, EyeLinOp, MatrixLinOp
    if kind == "sparse":
        return MatrixLinOp(jsp.BCOO.fromdense(jnp_(A), nse=A.size))
    if kind == "diag":
        return DiagLinOp(jnp_(np.diag(A)))
    if kind == "eye":
        return EyeLinOp(len(A))
    return MatrixLinOp(jnp_(A))


def strat(ctx):
    n = DIMS[ctx.part % len(DIMS)]

    @st.composite
    def s(draw):
        m = draw(gen.matrix(n, maxnorm=50.0))
        A = np.array(m["a"])
        bk = draw(st.sampled_from(["vec", "vec", "vec", "unit", "eig", "zero"]))
        if bk == "zero":
            b = [0.0] * n
        elif bk == "unit":
            b = [0.0] * n
            b[draw(st.integers(0, n - 1))] = draw(st.sampled_from([1.0, -3.0, 1e-5]))
        elif bk == "eig":   # in an invariant subspace: sum of two columns of a real eigenbasis
            w, V = np.linalg.eig(A)
            j = draw(st.integers(0, n - 1))
            b = [float(f"{x:.15g}") for x in (V[:, j] + V[:, j].conj()).real]
            if not any(b):
                b[0] = 1.0
        else:
            b = draw(gen.nzvec(n))
            t = draw(st.sampled_from([1.0, 1.0, 1.0, 1e-8, 1e6, 1e-40, 1e-100, 1e100]))
            b = [x * t for x in b]
        return {"m": m, "b": b, "bk": bk,
                "dim": draw(st.sampled_from(sorted({1, 2, 3, max(1, n - 1), n, n + 3}))),
                "iom": draw(st.sampled_from([100, 100, 100, 1, 2, 3, n])),
                "scale": draw(st.sampled_from([1.0, 1.0, 0.1, -0.5, 2.0, 1e-3, 1e-6, 1e-9])),
                "col": draw(st.booleans())}
    return s()


def check(ctx, c):
    from ormatex_py.arnoldi_jax import arnoldi_lop
    A, b = np.array(c["m"]["a"]), np.array(c["b"])
    n, m, iom, s = len(A), c["dim"], c["iom"], c["scale"]
    barg = jnp_(b).reshape((-1, 1)) if c["col"] else jnp_(b)
    Q, H = arnoldi_lop(lop(A, "dense"), s, barg, m, iom)
    Q, H = np.asarray(Q), np.asarray(H)
    if not b.any():
        require(Q.shape == (n, 0) and H.shape == (0, 0), f"zero start vector: shapes {Q.shape} {H.shape}")
        return False
    k = Q.shape[1]
    require(Q.shape == (n, k) and H.shape == (k, k), f"shapes {Q.shape} {H.shape}")
    require(1 <= k <= min(n, m), f"{k} basis vectors for n={n}, max_dim={m}")
    require(np.all(np.isfinite(Q)) and np.all(np.isfinite(H)), "not finite")
    nA = max(ref.infnorm(A), ref.infnorm(A.T)) * abs(s)
    base = 60 * n * EPS
    close(ctx, Q[:, 0], b / np.linalg.norm(b), base, "first basis vector is b/|b|", "q0")
    close(ctx, np.linalg.norm(Q, axis=0), np.ones(k), base, "unit basis vectors", "unit")
    require(not np.any(np.tril(H, -2)), "H is not upper Hessenberg")
    sub = np.diag(H, -1)
    require(np.all(sub > BREAK * 0.999), f"a subdiagonal entry {sub.min() if k > 1 else 0} below the breakdown threshold was kept")
    for j in range(k):
        for i in range(0, max(j - iom, 0)):
            require(H[i, j] == 0.0, f"H[{i},{j}] nonzero outside the orthogonalisation depth {iom}")
    # Arnoldi relation, column by column
    W = s * (A @ Q) - Q @ H
    tolrel = base * (nA + 1e-300) * 2 + base * ref.infnorm(H)
    if k > 1:
        close(ctx, W[:, :k - 1], np.zeros((n, k - 1)), tolrel, "s*A*Q = Q*H on all columns but the last", "relation")
    r = W[:, k - 1]
    if k < min(n, m):
        # stopped early: only when the Krylov space is exhausted
        require(np.linalg.norm(r) <= BREAK + tolrel,
                f"stopped after {k} of {min(n, m)} vectors although the next direction has norm {np.linalg.norm(r):.3g}")
        ctx.label("breakdown")
    # orthogonality
    smin = sub.min() if k > 1 else 1.0
    tolorth = base * (1 + 40 * k * nA / smin) if k > 1 else base
    if k > 1:
        # loss of orthogonality of MGS grows with every small subdiagonal entry
        p = 1.0
        for h in sub:
            p *= max(1.0, 4 * nA / h)
        tolorth = base * p
    G = Q.T @ Q - np.eye(k)
    full = iom >= k
    toldep = tolorth
    if full and k > 1:
        # Bjoerck's bound for modified Gram-Schmidt: round-off times the condition number of the orthogonalised vectors
        R = np.concatenate([np.eye(k, 1), H[:, :k - 1]], axis=1)
        R = R / np.maximum(np.linalg.norm(R, axis=0), 1e-300)
        tolorth = min(tolorth, 10 * base * min(np.linalg.cond(R), 1e18))
        if np.linalg.cond(R) > 1e6:
            ctx.label("ill-conditioned Krylov vectors, judged" if tolorth < 1e-4 else "ill-conditioned Krylov vectors")
    sym = np.array_equal(A, A.T)
    if tolorth < 1e-4:
        if full or (sym and iom >= 1):
            close(ctx, G, np.zeros((k, k)), tolorth, f"orthonormal basis (iom={iom})", "orth")
            ctx.label("full orth" if full else "lanczos")
        else:
            for j in range(k - 1):
                for i in range(max(j - iom, 0), j + 1):
                    if not abs(G[i, j + 1]) <= tolorth:
                        fail(f"q{j + 1} not orthogonal to q{i} within depth {iom}: {G[i, j + 1]:.3g}")
            ctx.label("incomplete")
        # the last column is the projection as well
        lo = 0 if (full or sym) else max(k - 1 - iom, 0)
        proj = Q[:, lo:].T @ r
        close(ctx, proj, np.zeros(k - lo), toldep * (nA + 1e-300) * 4 + 1e-300, "residual orthogonal to the basis", "res-orth")
    # scaling the operator is scaling the matrix
    Q2, H2 = arnoldi_lop(lop(s * A, "dense"), 1.0, jnp_(b), m, iom)
    Q2, H2 = np.asarray(Q2), np.asarray(H2)
    if Q2.shape == Q.shape and toldep < 1e-6:
        close(ctx, H2, H, toldep * (nA + 1e-300) * 10, "a_scale against the scaled matrix: H", "scaling")
        close(ctx, Q2, Q, toldep * 10, "a_scale against the scaled matrix: Q", "scaling")
    return k > 1 and nA > 0


# other operator types give the same process
def strat_ops(ctx):
    n = DIMS[ctx.part % len(DIMS)]
    return st.fixed_dictionaries({
        "op": st.sampled_from(["sparse", "diag", "eye"]),
        "m": gen.matrix(n, maxnorm=20.0), "d": gen.vec(n), "b": gen.nzvec(n),
        "dim": st.sampled_from([2, n]), "iom": st.sampled_from([1, 100])})


def check_ops(ctx, c):
    from ormatex_py.arnoldi_jax import arnoldi_lop
    A = np.array(c["m"]["a"])
    if c["op"] == "diag":
        A = np.diag(c["d"])
    elif c["op"] == "eye":
        A = np.eye(len(A))
    b = np.array(c["b"])
    Q1, H1 = map(np.asarray, arnoldi_lop(lop(A, c["op"]), 0.5, jnp_(b), c["dim"], c["iom"]))
    Q2, H2 = map(np.asarray, arnoldi_lop(lop(A, "dense"), 0.5, jnp_(b), c["dim"], c["iom"]))
    sub = np.concatenate([np.diag(H1, -1), np.diag(H2, -1), [1.0]])
    amp = 1.0
    for h in np.diag(H2, -1):
        amp *= max(1.0, 4 * ref.infnorm(A) / max(h, 1e-300))
    if Q1.shape != Q2.shape:
        require(sub.min() < 1e-8, f"{c['op']} operator: {Q1.shape[1]} vectors, dense {Q2.shape[1]}")
        return False
    tol = 1e-13 * amp
    if tol < 1e-6:
        close(ctx, Q1, Q2, tol, f"{c['op']} operator: Q", "ops")
        close(ctx, H1, H2, tol * max(1.0, ref.infnorm(A)), f"{c['op']} operator: H", "ops")
    return Q1.shape[1] > 1


# dimensions where most of the space is never reached
def strat_big(ctx):
    n = [30, 60][ctx.part % 2]

    @st.composite
    def s(draw):
        m = draw(gen.matrix(n, kinds=["tridiag", "decay", "diag"], maxnorm=40.0))
        b = draw(gen.nzvec(6))
        return {"m": m, "b": (b * (n // 6 + 1))[:n], "bk": "vec", "dim": draw(st.sampled_from([10, 20])),
                "iom": draw(st.sampled_from([1, 2, 4, 100])), "scale": draw(st.sampled_from([1.0, 0.1])), "col": False}
    return s()


# spectra over many decades: the Krylov vectors are nearly dependent, and the basis still has to be orthonormal
def strat_ill(ctx):
    n = [8, 10, 12, 6][ctx.part % 4]

    @st.composite
    def s(draw):
        r, top = draw(st.sampled_from([0.05, 0.1, 0.2, 0.3, 0.5])), draw(st.sampled_from([1.0, 10.0, 1e3]))
        d = np.array([top * r ** i for i in range(n)])
        sg = np.array(draw(st.lists(st.sampled_from([1.0, 1.0, -1.0]), min_size=n, max_size=n)))
        w = np.array(draw(gen.nzvec(n)))
        P = np.eye(n) - 2 * np.outer(w, w) / (w @ w)
        A = P @ np.diag(d * sg) @ P
        if draw(st.booleans()):
            w = np.array(draw(gen.nzvec(n)))
            A = A @ (np.eye(n) - 2 * np.outer(w, w) / (w @ w))
        elif draw(st.booleans()):
            A = np.array([[top / (i + j + 1.0) for i in range(n)] for j in range(n)])   # Hilbert
        return {"m": {"kind": "ill", "a": A.tolist()}, "b": draw(gen.nzvec(n)), "bk": "vec",
                "dim": draw(st.sampled_from([n - 2, n - 1, n])), "iom": draw(st.sampled_from([100, n])),
                "scale": draw(st.sampled_from([1.0, 100.0, 0.1])), "col": False}
    return s()


PROP = Prop("C03", [
    Sub("process", strat, check, 2400, parts=8, rule="more than one basis vector and a non-zero operator"),
    Sub("ill-conditioned", strat_ill, check, 240, parts=4, rule="more than one basis vector of a matrix with a spectrum over many decades"),
    Sub("operators", strat_ops, check_ops, 320, parts=4, rule="more than one basis vector", cost=2),
    Sub("larger", strat_big, check, 80, parts=2, cost=4, rule="more than one basis vector, n = 30 or 60"),
], rule="Structured matrices, start vectors inside invariant subspaces, all subspace sizes from 1 past n, iom from 1.",
    assumptions=["orthogonality is judged up to modified Gram-Schmidt round-off: amplified by the condition number of the orthogonalised vectors (full depth) or the subdiagonal entries"])
