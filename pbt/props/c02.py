"""C02: partial-fraction (rational) phi-functions."""
import numpy as np
import mpmath as mp
from hypothesis import strategies as st
from pbt import gen, ref
from pbt.core import Prop, Sub, fail, require
from pbt.util import close

EPS = ref.EPS
CRAM = {f"cram_{n}": n for n in range(2, 17, 2)}
PADE = {}
for _k in range(1, 9):
    for _d in (0, 1, 2):
        m, n = 2 * _k - _d, 2 * _k
        PADE[f"pade_{m}_{n}"] = (m, n)
    PADE[f"pade_0_{2 * _k}"] = (0, 2 * _k)
ALL = sorted(CRAM) + sorted(PADE) + ["IE", "CN"]
# best uniform approximation on (-inf, 0]: the error of degree n decays like 9.28903^-n (Gonchar-Rakhmanov);
# for phi_k the tabulated poles lose a few digits
CRAM_SUP = {n: 0.66 * 9.28903 ** -n for n in range(2, 17, 2)}


def pade_coeffs(m, n):
    P = [mp.factorial(m + n - j) * mp.factorial(m) / (mp.factorial(m + n) * mp.factorial(j) * mp.factorial(m - j))
         for j in range(m + 1)]
    Q = [mp.factorial(m + n - j) * mp.factorial(n) / (mp.factorial(m + n) * mp.factorial(j) * mp.factorial(n - j))
         * (-1) ** j for j in range(n + 1)]
    return P, Q


def rational(method):
    if method == "IE":
        return [mp.mpf(1)], [mp.mpf(1), mp.mpf(-1)]
    if method == "CN":
        return [mp.mpf(1), mp.mpf(1) / 2], [mp.mpf(1), -mp.mpf(1) / 2]
    return pade_coeffs(*PADE[method])


def rational_order(method):
    if method == "IE":
        return 1
    if method == "CN":
        return 2
    return sum(PADE[method])


def induced(P, Q, k):
    """Numerator N_k with R_k = N_k / Q and x^k R_k = R - sum_{j<k} r_j x^j, r_j the Taylor coefficients of R."""
    num = list(P) + [mp.mpf(0)] * (len(Q) + k - len(P))
    for _ in range(k):
        r0 = num[0] / Q[0]
        num = [(num[i] - r0 * Q[i]) if i < len(Q) else num[i] for i in range(len(num))][1:] + [mp.mpf(0)]
    while len(num) > 1 and num[-1] == 0:
        num.pop()
    return num


def phi_scalar(x, k):
    x = mp.mpf(x)
    if abs(x) < 5:
        s, t = mp.mpf(0), mp.mpf(1) / mp.factorial(k)
        for j in range(1, 120):
            s += t
            t = t * x / (j + k)
        return s
    f = mp.e ** x
    for j in range(k):
        f = (f - 1 / mp.factorial(j)) / x
    return f


def scales(method, x, k):
    """sum |2c/p^k| / |x-p|: the size of the terms that are added."""
    from ormatex_py.matexp_phi_pfd_dict import pfd_dict
    ps, cs, c0 = pfd_dict[method]
    s = abs(c0)
    for p, c in zip(ps, cs):
        s += abs(2 * c / p ** k) / abs(x - p)
    return float(s)


def rel_of_table(method):
    """Relative accuracy of the tabulated poles and residues."""
    if method in ("IE", "CN"):
        return 4 * EPS
    if method in CRAM:
        return 20 * EPS
    n = PADE[method][1]
    return 2e-14 if n >= 10 and PADE[method][0] > 0 else 1e-11


# --- scalar accuracy of every table ----------------------------------------------
def strat_table(ctx):
    methods = ctx.share(ALL)
    x = st.one_of(gen.logscale(-6, 4).map(lambda v: -v), st.just(0.0), gen.q(-20, 0, 4), gen.q(0, 0.75, 8))   # away from the real poles of IE and CN
    return st.fixed_dictionaries({"method": st.sampled_from(methods), "k": st.integers(0, 3),
                                  "x": st.lists(x, min_size=6, max_size=6),
                                  "b": gen.nzvec(6)})


def check_table(ctx, c):
    from ormatex_py.matexp_phi import f_phi_k_pfd
    x, b, k, method = np.array(c["x"]), np.array(c["b"]), c["k"], c["method"]
    if method in CRAM:
        x = np.minimum(x, 0.0)
    got = np.asarray(f_phi_k_pfd(np.diag(x), b, k, method))
    require(got.shape == b.shape, f"f_phi_k_pfd shape {got.shape}")
    want, tol = [], []
    with mp.workdps(60):
        if method in CRAM:
            n = CRAM[method]
            for xi, bi in zip(x, b):
                want.append(float(phi_scalar(xi, k) * bi))
                # sup error on the half line, grown by the k recursions phi_{j+1} = (phi_j - 1/j!)/x,
                # which the poles close to the origin amplify
                tol.append(abs(bi) * (2 * CRAM_SUP[n] * cram_growth(n, k)
                                      + 40 * EPS * scales(method, xi, k)))
        else:
            P, Q = rational(method)
            num = induced(P, Q, k)
            for xi, bi in zip(x, b):
                X = mp.mpf(xi)
                r = mp.polyval(num[::-1], X) / mp.polyval(Q[::-1], X)
                want.append(float(r * bi))
                tol.append(abs(bi) * (rel_of_table(method) * scales(method, xi, k) + 1e-15))
    close(ctx, got, want, np.array(tol) + 1e-300, f"f_phi_k_pfd {method} k={k}", "cram" if method in CRAM else "pade")
    ctx.label(method)
    return True


def cram_growth(n, k):
    # errors of phi_{j+1} = (phi_j - 1/j!)/x next to x = 0: the derivative of the equioscillating error
    g = 1.0
    for f in (8.5 * n, 1.7 * n, 1.0 * n)[:k]:
        g *= max(f, 3.0)
    return g


# --- order of contact: the Pade approximants of phi_k match exp to the stated order ------
# (the table check compares with the exact Pade approximant, this one with phi_k itself)
def strat_order(ctx):
    x = st.one_of(gen.q(-1, 1, 16), gen.real(-1, 1, 4))
    return st.fixed_dictionaries({"method": st.sampled_from(ctx.share([m for m in ALL if m not in CRAM])),
                                  "k": st.integers(0, 2), "x": st.lists(x, min_size=4, max_size=4)})


def check_order(ctx, c):
    from ormatex_py.matexp_phi import f_phi_k_pfd
    method, k, x = c["method"], c["k"], np.array(c["x"])
    p = rational_order(method)
    if k > p:
        return False
    if method == "IE":
        x = np.minimum(x, 0.5)        # there is a pole at 1
    got = np.asarray(f_phi_k_pfd(np.diag(x), np.ones(4), k, method))
    with mp.workdps(40):
        want = np.array([float(phi_scalar(v, k)) for v in x])
        if method in PADE:
            m, n = PADE[method]
            C = float(mp.factorial(m) * mp.factorial(n) / (mp.factorial(m + n) * mp.factorial(m + n + 1)))
        else:
            C = 0.5 if method == "IE" else 1 / 12.0
    # |exp - R| <= C |x|^(p+1) e^|x| / |Q|-ish on [-1, 1]
    tol = 12 * C * np.abs(x) ** (p + 1 - k) + np.array([rel_of_table(method) * scales(method, v, k) for v in x]) + 4e-15
    if method == "IE":
        tol = tol * 2
    close(ctx, got, want, tol, f"f_phi_k_pfd {method} k={k}: order of contact", "order")
    return bool(np.any(np.abs(x) > 0.1))


# --- matrices and blocks: the same rational function, of a matrix -------------------
DIMS = [2, 3, 1, 4, 5, 2, 6, 3]


def strat_mat(ctx):
    n = DIMS[ctx.part % len(DIMS)]
    methods = ctx.share(["cram_16", "cram_14", "cram_8", "pade_0_16", "pade_8_8", "pade_5_6", "pade_2_4", "IE",
                         "cram_10", "cram_12", "pade_0_8", "pade_3_4", "CN", "cram_16", "pade_10_10", "pade_1_2"])

    @st.composite
    def s(draw):
        cols = draw(st.sampled_from([0, 1, 3]))
        return {"m": draw(gen.matrix(n, kinds=["negdef", "decay", "stiff", "skew", "diag", "zero", "upper", "nilpotent", "full"],
                                     maxnorm=2000.0, scales=[1.0, 0.1, 10.0, 100.0])),
                "k": draw(st.integers(0, 2)), "method": draw(st.sampled_from(methods)),
                "cols": cols, "b": [draw(gen.vec(n)) for _ in range(max(1, cols))]}
    return s()


def check_mat(ctx, c):
    from ormatex_py.matexp_phi import f_phi_k_pfd
    from ormatex_py.matexp_phi_pfd_dict import pfd_dict
    A = np.array(c["m"]["a"])
    B = np.array(c["b"]).T
    arg = B[:, 0] if c["cols"] == 0 else B
    k, method = c["k"], c["method"]
    ps, cs, c0 = pfd_dict[method]
    n = len(A)
    I = np.eye(n)
    want = (c0 if k == 0 else 0.0) * B.astype(complex)
    tol = 1e-300 + 4 * EPS * np.abs(want).max()
    for p, cc in zip(ps, cs):
        M = A - p * I
        cond = np.linalg.cond(M)
        if not cond < 1e10:   # an eigenvalue at a pole
            return False
        X = np.linalg.solve(M, B.astype(complex))
        want = want + np.real((2 * cc / p ** k) * X)
        tol = tol + abs(2 * cc / p ** k) * (np.abs(X).max()) * (20 * n * EPS * cond + 10 * EPS)
    want = want.real
    want = want[:, 0] if c["cols"] == 0 else want
    got = f_phi_k_pfd(A, arg, k, method)
    close(ctx, got, want, tol, f"f_phi_k_pfd {method} k={k} on a {n}x{n} matrix, {c['cols']} columns", "matrix")
    if method == "cram_16" and c["m"]["kind"] in ("negdef", "diag") and np.max(np.linalg.eigvals(A).real) <= 1e-12:
        w = (ref.phi(A, k) @ B.astype(ref.LD))
        w = w[:, 0] if c["cols"] == 0 else w
        close(ctx, got, w, 1e-9 * max(1e-30, np.abs(B).max()), f"f_phi_k_pfd cram_16 k={k} against exact phi", "cram16-exact")
        ctx.label("cram16 vs exact")
    return bool(B.any()) and n > 1


PROP = Prop("C02", [
    Sub("table", strat_table, check_table, 1600, parts=8, rule="every case: 6 scalar arguments against exp or the exact Pade approximant"),
    Sub("order", strat_order, check_order, 600, parts=8, rule="some |x| > 0.1"),
    Sub("matrix", strat_mat, check_mat, 1600, parts=8, rule="dimension above 1 and a non-zero right-hand side"),
], rule="Methods cram_2..16, every Pade entry, IE and CN; arguments over ten decades.",
    assumptions=["the real-pole tables '2','3','6','7','9','12' are fits of phi_1 only and are not judged"])
