"""C01: dense phi-functions agree with the exact ones."""
import warnings
import numpy as np
from hypothesis import strategies as st
from pbt import gen, ref
from pbt.core import Prop, Sub, fail, require
from pbt.util import close

EPS = ref.EPS
DIMS = [2, 3, 1, 4, 2, 5, 3, 6]


def _np(x):
    return np.asarray(x)


def dim(ctx):
    return DIMS[ctx.part % len(DIMS)]


def matrices(ctx, maxnorm=60.0):
    n = dim(ctx)
    scales = [1.0, 0.01, 0.1, 0.03, 0.5, 2.0, 5.0, 20.0, 1e-4]
    return st.tuples(gen.matrix(n, maxnorm=maxnorm, scales=scales),
                     st.sampled_from([0.0, 0.0, 0.0, 0.0, 0.0, 3000.0])).map(_add_stiff)


def _add_stiff(t):
    m, s = t
    if s and m["kind"] in ("decay", "stiff", "diag", "negdef"):
        # a fast decaying direction: last diagonal entry strongly negative
        m = {"kind": m["kind"] + "+stiff", "a": [list(r) for r in m["a"]]}
        m["a"][-1][-1] = -s
    return m


def tame(A):
    """Keep growth bounded: exp(A) must stay representable and the reference cheap."""
    return np.max(np.linalg.eigvals(A).real) < 40 and ref.infnorm(A) < 2e4


# --- extension formula -------------------------------------------------------
def strat_k(kmax):
    def f(ctx):
        return st.fixed_dictionaries({"m": matrices(ctx), "k": st.integers(0, kmax)})
    return f


def check_ext(ctx, c):
    from ormatex_py.matexp_phi import f_phi_k_ext
    A = np.array(c["m"]["a"])
    if not tame(A):
        return False
    k = c["k"]
    ctx.label("kind:" + c["m"]["kind"])
    ps, ex = ref.phis(A, k)
    tol = ref.expm_tol(ref.aug_phi(A, k))
    close(ctx, f_phi_k_ext(A, k), ps[k], tol, f"f_phi_k_ext k={k}", "ext")
    allk = _np(f_phi_k_ext(A, k, return_all=True))
    require(allk.shape == (k + 1,) + A.shape, f"f_phi_k_ext return_all shape {allk.shape}")
    for j in range(k + 1):
        close(ctx, allk[j], ps[j], tol, f"f_phi_k_ext return_all k={k} j={j}", "ext")
    return not gen.is_zero_matrix(c["m"]["a"]) and k > 0


# --- scaling and squaring ----------------------------------------------------
def sq_tol(A, k, ex):
    th = ref.infnorm(A)
    N = ref.sq_stages(th)
    s = 2.0 ** -N
    d = [max(th * s, 1e-300) ** (5 - j) / 120.0 * s ** 0 for j in range(k + 1)]
    # phi_j of the scaled matrix is truncated after z^(4-j); each squaring multiplies a block by 2^-j
    worst = max(dj * s ** j for j, dj in enumerate(d))
    return 3 * ex.roundoff(delta=worst, stages=N)


def check_sq(ctx, c):
    from ormatex_py.matexp_phi import f_phi_k_sq, f_phi_k_sq_all
    A = np.array(c["m"]["a"])
    if not tame(A):
        return False
    k = c["k"]
    ctx.label("kind:" + c["m"]["kind"])
    N = ref.sq_stages(ref.infnorm(A))
    ps, ex = ref.phis(A, k, stages=N)
    tol = sq_tol(A, k, ex)
    close(ctx, f_phi_k_sq(A, k), ps[k], tol, f"f_phi_k_sq k={k}", "sq")
    allk = f_phi_k_sq(A, k, return_all=True)
    lst = f_phi_k_sq_all(A, k)
    require(len(lst) == k + 1 and len(allk) == k + 1, "f_phi_k_sq_all: wrong number of functions")
    for j in range(k + 1):
        close(ctx, allk[j], ps[j], tol, f"f_phi_k_sq return_all k={k} j={j}", "sq")
        close(ctx, lst[j], ps[j], tol, f"f_phi_k_sq_all k={k} j={j}", "sq")
    return not gen.is_zero_matrix(c["m"]["a"])


# --- inverse formula: accurate, or it warns -----------------------------------
def strat_inv(ctx):
    return st.fixed_dictionaries({"m": matrices(ctx), "k": st.integers(0, 4)})


def check_inv(ctx, c):
    from ormatex_py.matexp_phi import f_phi_k
    A = np.array(c["m"]["a"])
    if not tame(A):
        return False
    k = c["k"]
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        got = _np(f_phi_k(_jnp(A), k))
    warned = any("singular" in str(x.message) for x in w)
    sv = np.linalg.svd(A, compute_uv=False)
    smin = float(sv[-1])
    ctx.label("kind:" + c["m"]["kind"])
    if k == 0:
        require(not warned, "f_phi_k warns for k=0, where no inverse is used")
    else:
        structurally = any(not A[i].any() for i in range(len(A))) or any(not A[:, i].any() for i in range(len(A)))
        if structurally:
            require(warned, f"f_phi_k did not warn for a matrix with a zero row or column (k={k})")
        if smin > 0 and EPS / smin ** k < np.sqrt(EPS) / 50:
            require(not warned, f"f_phi_k warns for a well-conditioned argument (smallest singular value {smin:.3g}, k={k})")
    if warned:
        ctx.label("warned")
        return False
    require(np.all(np.isfinite(got)), "f_phi_k: not finite, and no warning")
    if smin <= 0:
        return False
    ps, ex = ref.phis(A, k)
    inv = 1.0 / smin
    tol = ref.expm_tol(A)
    for _ in range(k):
        tol = (tol + 50 * len(A) * EPS * max(1.0, ref.infnorm(ps[0]))) * max(inv, 1.0) * 3
    if tol > 1e-3:
        ctx.label("ill-conditioned, accuracy not judged")
        return False
    close(ctx, got, ps[k], tol, f"f_phi_k k={k}", "inv")
    return k > 0


def _jnp(a):
    import jax.numpy as jnp
    return jnp.asarray(a)


# --- action on a vector or a block ---------------------------------------------
def strat_appl(ctx):
    n = dim(ctx)

    @st.composite
    def s(draw):
        m = draw(matrices(ctx))
        cols = draw(st.sampled_from([0, 1, 2, 0, 3]))
        B = [draw(gen.vec(n)) for _ in range(max(1, cols))]
        return {"m": m, "k": draw(st.integers(0, 4)), "cols": cols, "b": B,
                "s": draw(st.sampled_from([1.0, 1.0, 1e-6, 1e3]))}
    return s()


def check_appl(ctx, c):
    from ormatex_py.matexp_phi import f_phi_k_appl
    A = np.array(c["m"]["a"])
    if not tame(A):
        return False
    k = c["k"]
    B = np.array(c["b"]).T * c["s"]
    arg = B[:, 0] if c["cols"] == 0 else B
    ps, ex = ref.phis(A, k)
    want = ps[k] @ arg.astype(ref.LD)
    if k == 0:
        tol = ref.expm_tol(A) * max(ref.maxabs(B), 1e-300) * len(A)
    else:
        tol = ref.appl_tol(A, B, k)
    got = _np(f_phi_k_appl(A, arg, k))
    close(ctx, got, want, tol, f"f_phi_k_appl k={k} cols={c['cols']}", "appl")
    ctx.label(f"cols:{c['cols']} k:{k}")
    # the same function of every column: a block is its columns
    if c["cols"] > 1:
        one = _np(f_phi_k_appl(A, B[:, -1], k))
        close(ctx, got[:, -1], one, 2 * tol, f"f_phi_k_appl k={k}: a column differs from the single-vector result", "appl-col")
    return bool(B.any()) and not gen.is_zero_matrix(c["m"]["a"])


# --- dimensions beyond the small ones -----------------------------------------
def strat_large(ctx):
    n = ctx.pick([12, 20])
    return st.fixed_dictionaries({
        "m": gen.matrix(n, kinds=["tridiag", "decay", "jordan", "identity", "diag", "lowrank"], maxnorm=60.0),
        "k": st.integers(0, 2)})


def check_large(ctx, c):
    ok = check_ext(ctx, c)
    return check_sq(ctx, c) and ok


# --- complex matrices -----------------------------------------------------------
def strat_complex(ctx):
    n = dim(ctx)

    @st.composite
    def s(draw):
        return {"m": draw(matrices(ctx)), "im": draw(gen.matrix(n, maxnorm=20.0, scales=[1.0, 0.1, 5.0])),
                "k": draw(st.integers(0, 3)), "b": [draw(gen.vec(n)) for _ in range(2)]}
    return s()


def check_complex(ctx, c):
    from ormatex_py.matexp_phi import f_phi_k, f_phi_k_ext, f_phi_k_sq, f_phi_k_appl
    A = np.array(c["m"]["a"]) + 1j * np.array(c["im"]["a"])
    if not tame(A):
        return False
    k = c["k"]
    N = ref.sq_stages(ref.infnorm(A))
    ps, ex = ref.phis(A, k, stages=N)
    tol = ref.expm_tol(ref.aug_phi(A, k))
    close(ctx, f_phi_k_ext(_jnp(A), k), ps[k], tol, f"complex f_phi_k_ext k={k}", "complex ext")
    close(ctx, f_phi_k_sq(_jnp(A), k), ps[k], sq_tol(A, k, ex), f"complex f_phi_k_sq k={k}", "complex sq")
    b = np.array(c["b"][0]) + 1j * np.array(c["b"][1])
    B = b[:, None]
    atol = ref.expm_tol(A) * max(ref.maxabs(B), 1e-300) * len(A) if k == 0 else ref.appl_tol(A, B, k)
    close(ctx, f_phi_k_appl(_jnp(A), _jnp(b), k), ps[k] @ b.astype(np.clongdouble), atol,
          f"complex f_phi_k_appl k={k}", "complex appl")
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        got = _np(f_phi_k(_jnp(A), k))
    smin = float(np.linalg.svd(A, compute_uv=False)[-1])
    if not any("singular" in str(x.message) for x in w) and smin > 0:
        t = ref.expm_tol(A)
        for _ in range(k):
            t = (t + 50 * len(A) * EPS * max(1.0, ref.infnorm(ps[0]))) * max(1 / smin, 1.0) * 3
        if t < 1e-3:
            close(ctx, got, ps[k], t, f"complex f_phi_k k={k}", "complex inv")
    return bool(np.any(A.imag)) and bool(np.any(A.real))


CORNERS = [
    {"m": {"kind": "zero", "a": [[0.0]]}, "k": 3},
    {"m": {"kind": "diag", "a": [[-1e-9, 0.0], [0.0, -700.0]]}, "k": 2},
    {"m": {"kind": "jordan", "a": [[0.0, 1.0, 0.0], [0.0, 0.0, 1.0], [0.0, 0.0, 0.0]]}, "k": 2},
    {"m": {"kind": "full", "a": [[-1.0, 100.0], [0.0, -1.0]]}, "k": 1},
]

PROP = Prop("C01", [
    Sub("ext", strat_k(4), check_ext, 1200, parts=8, cost=1, examples=CORNERS,
        rule="k>=1 and a non-zero matrix"),
    Sub("squaring", strat_k(3), check_sq, 1000, parts=8, cost=1, examples=CORNERS,
        rule="non-zero matrix"),
    Sub("inverse", strat_inv, check_inv, 1400, parts=8, cost=1,
        rule="k>=1, no warning given, and conditioning allows a tolerance below 1e-3"),
    Sub("action", strat_appl, check_appl, 1600, parts=8, cost=1.5,
        rule="non-zero matrix and right-hand side"),
    Sub("complex", strat_complex, check_complex, 480, parts=8, cost=2,
        rule="real and imaginary parts both non-zero"),
    Sub("large", strat_large, check_large, 30, parts=2, cost=20, rule="non-zero matrix, dimension 12 or 20"),
], rule="Matrices from 15 structured families (singular, nilpotent, defective, stiff, non-normal, skew, zero, 1x1).",
    assumptions=["oracle: 80-bit Taylor scaling and squaring of the block-augmented matrix",
                 "tolerance: truncation of the documented order plus round-off amplified by the squaring recursion",
                 "matrices with inf-norm below 2e4 and spectral abscissa below 40"])
