"""C04: Krylov evaluation of exp(A dt)v and phi_k(A dt)v."""
import numpy as np
from hypothesis import strategies as st
from pbt import gen, ref
from pbt.core import Prop, Sub, fail, require
from pbt.props.c03 import jnp_, lop
from pbt.util import close

EPS = ref.EPS
DIMS = [3, 5, 2, 6, 1, 4, 7, 3]
DTS = [1.0, 0.5, 0.1, 2.0, -0.5, -1.0, 0.0, 1e-4]


def tame(M):
    return ref.infnorm(M) < 300 and np.max(np.linalg.eigvals(M).real) < 25


def strat(ctx):
    n = DIMS[ctx.part % len(DIMS)]

    @st.composite
    def s(draw):
        m = draw(gen.matrix(n, maxnorm=60.0))
        sym = m["kind"] in ("symmetric", "negdef", "diag", "zero", "identity")
        return {"m": m, "v": draw(gen.vec(n)), "vs": draw(st.sampled_from([1.0, 1.0, 1.0, 1e-9, 1e-25, 1e-100, 1e5, 1e60])),
                "k": draw(st.integers(0, 4)), "dt": draw(st.sampled_from(DTS)),
                "dim": draw(st.sampled_from([n, 100, n + 2])),
                "iom": draw(st.sampled_from([1, 2, 100])) if sym else draw(st.sampled_from([100, 100, n])),
                "op": draw(st.sampled_from(["dense", "dense", "dense", "sparse"]))}
    return s()


def check(ctx, c):
    from ormatex_py.matexp_krylov import matexp_linop, phi_linop
    A, v, k, dt = np.array(c["m"]["a"]), np.array(c["v"]) * c["vs"], c["k"], c["dt"]
    M = dt * A
    if not tame(M):
        return False
    n = len(A)
    op = lop(A, c["op"])
    got = np.asarray(phi_linop(op, dt, jnp_(v), k, c["dim"], c["iom"]))
    alt = np.asarray(matexp_linop(op, dt, jnp_(v), c["dim"], c["iom"])) if k == 0 else None
    if not v.any():
        require(got.shape == v.shape and not got.any(), f"phi_k of a zero vector is {got}")
        require(alt is None or alt.shape == v.shape and not alt.any(), f"matexp_linop of a zero vector is {alt}")
        ctx.label("zero vector")
        return False
    want = ref.phi(M, k) @ v.astype(ref.LD)
    Q, H, _ = ref.arnoldi(M, v, n)
    nv = np.linalg.norm(v)
    tol = nv * np.sqrt(n) * (ref.krylov_tol(H, k) + 300 * n * EPS * (1 + ref.infnorm(M)) * max(1.0, float(np.max(np.abs(ref.phi(M, 0))))) )
    if tol > 1e-2 * max(nv, np.max(np.abs(want))):
        ctx.label("tolerance too wide, not judged")
        return False
    close(ctx, got, want, tol, f"phi_{k}(dt A)v, n={n}, dim={c['dim']}, iom={c['iom']}", f"k{k}")
    if k == 0:
        close(ctx, alt, want, tol, f"exp(dt A)v by matexp_linop, n={n}, dim={c['dim']}, iom={c['iom']}", "matexp")
    ctx.label(c["m"]["kind"])
    # homogeneous in v
    alt = np.asarray(phi_linop(op, dt, jnp_(-3.0 * v), k, c["dim"], c["iom"]))
    close(ctx, alt, -3.0 * got, 6 * tol, "phi_k(dt A)(-3v) = -3 phi_k(dt A)v", "homog")
    return n > 1 and M.any()


# --- subspaces smaller than the space: the Galerkin approximation in the Krylov space -------
def strat_small(ctx):
    n = [6, 8, 12, 10][ctx.part % 4]
    kinds = ["full", "upper", "symmetric", "tridiag", "decay", "stiff", "negdef"] if n <= 8 else ["tridiag", "decay", "diag", "jordan"]
    return st.fixed_dictionaries({
        "m": gen.matrix(n, kinds=kinds, maxnorm=30.0), "v": gen.nzvec(n),
        "k": st.integers(0, 3), "dt": st.sampled_from([1.0, 0.3, -0.5, 0.05]),
        "dim": st.sampled_from([1, 2, 4, 5])})


def check_small(ctx, c):
    from ormatex_py.matexp_krylov import phi_linop
    A, v, k, dt = np.array(c["m"]["a"]), np.array(c["v"]), c["k"], c["dt"]
    M = dt * A
    if not tame(M):
        return False
    Q, H, exhausted = ref.arnoldi(M, v, c["dim"])
    sub = np.diag(H, -1)
    if len(sub) and sub.min() < 1e-5:
        return False
    nv = np.linalg.norm(v)
    want = nv * (Q @ ref.phi(H, k)[:, 0])
    tol = nv * np.sqrt(len(A)) * (ref.krylov_tol(H, k) + 1e-12 * (1 + ref.infnorm(M)) * max(1.0, ref.maxabs(ref.phi(H, 0)))
                                  * max(1.0, ref.infnorm(M) / (sub.min() if len(sub) else 1.0)))
    got = np.asarray(phi_linop(lop(A, "dense"), dt, jnp_(v), k, c["dim"], 100))
    close(ctx, got, want, tol, f"phi_{k}, subspace {c['dim']} of {len(A)}: projection", "galerkin")
    return len(H) > 1


# --- large operators, where a modest subspace has converged --------------------------------
def strat_conv(ctx):
    n = [40, 25][ctx.part % 2]
    return st.fixed_dictionaries({
        "m": gen.matrix(n, kinds=["tridiag", "decay", "diag", "jordan", "lowrank"], maxnorm=4.0),
        "v": gen.nzvec(5), "k": st.integers(0, 2), "dt": st.sampled_from([1.0, -0.5, 0.25]),
        "iom": st.sampled_from([100, 24])})


def check_conv(ctx, c):
    from ormatex_py.matexp_krylov import phi_linop
    A = np.array(c["m"]["a"])
    n = len(A)
    v = np.array((c["v"] * (n // 5 + 1))[:n])
    k, dt = c["k"], c["dt"]
    M = dt * A
    want = ref.phi(M, k) @ v.astype(ref.LD)
    got = np.asarray(phi_linop(lop(A, "dense"), dt, jnp_(v), k, 24, c["iom"]))
    g = max(1.0, ref.maxabs(ref.phi(M, 0)))
    tol = np.linalg.norm(v) * g * (1e-11 if k == 0 else 4e-6 * 6)
    close(ctx, got, want, tol, f"phi_{k}, n={n}, subspace of 24", "converged")
    return bool(M.any())


# --- subspaces of many vectors, all of them needed --------------------------------------------------
SPACES = [(60, 60), (90, 70), (130, 110), (50, 50)]


def strat_big(ctx):
    n, m = SPACES[ctx.part % 4]
    return st.fixed_dictionaries({
        "n": st.just(n), "m": st.just(m), "r": st.floats(5.0, m * m / 160 if m < n else 3.0 * m), "skew": st.booleans(),
        "v": st.lists(gen.q(-4, 4, 4), min_size=7, max_size=7), "dt": st.sampled_from([1.0, 0.01, 3.0])})


def check_big(ctx, c):
    from ormatex_py.matexp_krylov import matexp_linop, phi_linop
    n, m, dt = c["n"], c["m"], c["dt"]
    v = np.array((c["v"] * (n // 7 + 1))[:n])
    v[0] += 0.5
    if not v.any():
        return False
    r = float(f"{c['r']:.3g}")
    # a diffusion operator with spectrum in [-4r, 0]; its imaginary counterpart has it in [-2ri, 2ri]
    T = np.diag(np.ones(n - 1), 1) + np.diag(np.ones(n - 1), -1)
    if c["skew"]:
        r = min(r, m / 4)
        A = r / dt * (np.triu(T) - np.tril(T))
        bound = 12 * np.exp(-r * r / m) * (np.e * r / m) ** m if m < n else 0.0      # Hochbruck and Lubich (1997), theorem 4
    else:
        A = r / dt * (T - 2 * np.eye(n))
        bound = 0.0 if m >= n else 10 * np.exp(-m * m / (5 * r)) if 2 * np.sqrt(r) <= m and m <= 2 * r else 10 / r * np.exp(-r) * (np.e * r / m) ** m
    if bound > 1e-5:
        return False
    want = ref.phi(dt * A, 0) @ v.astype(ref.LD)
    tol = np.linalg.norm(v) * (bound + 1e-10)
    close(ctx, np.asarray(phi_linop(lop(A, "dense"), dt, jnp_(v), 0, m, 200)), want, tol, f"phi_0, n={n}, subspace of {m}", "large subspace")
    close(ctx, np.asarray(matexp_linop(lop(A, "dense"), dt, jnp_(v), m, 200)), want, tol, f"exp, n={n}, subspace of {m}", "large subspace")
    return True


PROP = Prop("C04", [
    Sub("exact", strat, check, 2400, parts=8, rule="non-zero vector and operator, dimension above 1, tolerance meaningful"),
    Sub("galerkin", strat_small, check_small, 600, parts=4, cost=2, rule="subspace dimension above 1"),
    Sub("converged", strat_conv, check_conv, 120, parts=2, cost=5, rule="non-zero operator of dimension 25 or 40"),
    Sub("large", strat_big, check_big, 80, parts=4, cost=8, rule="a projection error below 1e-5 is guaranteed"),
], rule="Structured matrices, any sign of dt, subspace at least as large as the space, or smaller with an exact projection oracle.",
    assumptions=["oracle: 80-bit exponential of the augmented matrix; 80-bit Arnoldi for projections",
                 "phi_k, k>0, is judged up to the degree-4 truncation the implementation documents (about 2e-6 per unit of norm)"])
