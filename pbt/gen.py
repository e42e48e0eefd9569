"""Hypothesis strategies that yield JSON-able values (floats, ints, lists)."""
import math
from hypothesis import strategies as st


def q(lo, hi, den=8):
    """Rationals with denominator den in [lo, hi]; shrinks to 0 (or to the end nearest 0)."""
    a, b = math.ceil(lo * den), math.floor(hi * den)
    return st.integers(a, b).map(lambda i: i / den)


def real(lo, hi, digits=6):
    """Floats in [lo, hi] on a decimal grid."""
    return st.floats(lo, hi, allow_nan=False, allow_infinity=False).map(lambda x: min(hi, max(lo, round(x, digits))) + 0.0)


def mixed(lo, hi):
    return st.one_of(q(lo, hi), real(lo, hi))


def entry():
    return st.one_of(st.just(0.0), q(-2, 2, 4), q(-2, 2, 4), real(-2, 2, 4))


def vec(n, lo=-2, hi=2):
    """Vectors with exact zeros, repeated and generic entries."""
    e = st.one_of(st.just(0.0), q(lo, hi, 4), real(lo, hi, 4))
    return st.lists(e, min_size=n, max_size=n)


def nzvec(n, lo=-2, hi=2):
    """A vector that is not zero."""
    def fix(t):
        v, i, x = t
        if all(abs(a) < 1e-3 for a in v):
            v = list(v)
            v[i] = x
        return v
    return st.tuples(vec(n, lo, hi), st.integers(0, n - 1), st.sampled_from([1.0, -1.0, 0.5, 2.0])).map(fix)


def logscale(lo10, hi10):
    """Positive numbers spread over decades, and simple ones."""
    return st.one_of(st.integers(math.ceil(lo10), math.floor(hi10)).map(lambda e: 10.0 ** e),
                     real(lo10, hi10, 3).map(lambda e: float(f"{10.0 ** e:.4g}")))


def _zeros(n):
    return [[0.0] * n for _ in range(n)]


KINDS = ["full", "diag", "upper", "nilpotent", "jordan", "symmetric", "skew", "zero", "identity",
         "lowrank", "tridiag", "decay", "negdef", "stiff", "perm"]


@st.composite
def matrix(draw, n, kinds=None, maxnorm=20.0, scales=None):
    """An n x n matrix from a structured family, scaled to an inf-norm up to maxnorm.

    Returns {"kind", "a"}."""
    kind = draw(st.sampled_from(kinds or KINDS))
    a = _zeros(n)
    if kind == "full":
        a = [draw(st.lists(entry(), min_size=n, max_size=n)) for _ in range(n)]
    elif kind == "diag":
        d = draw(vec(n))
        for i in range(n):
            a[i][i] = d[i]
    elif kind in ("upper", "nilpotent"):
        for i in range(n):
            for j in range(i + (kind == "nilpotent"), n):
                a[i][j] = draw(entry())
    elif kind == "jordan":
        lam = draw(q(-2, 2, 4))
        for i in range(n):
            a[i][i] = lam
            if i + 1 < n:
                a[i][i + 1] = 1.0
    elif kind in ("symmetric", "skew", "negdef"):
        s = -1.0 if kind == "skew" else 1.0
        for i in range(n):
            for j in range(i, n):
                x = draw(entry())
                a[i][j] = x
                a[j][i] = s * x
            if kind == "skew":
                a[i][i] = 0.0
        if kind == "negdef":   # -(B B^T) with B the drawn symmetric matrix
            b = a
            a = [[-sum(b[i][k] * b[j][k] for k in range(n)) for j in range(n)] for i in range(n)]
    elif kind == "identity":
        lam = draw(q(-2, 2, 4))
        for i in range(n):
            a[i][i] = lam
    elif kind == "lowrank":
        u, v = draw(nzvec(n)), draw(nzvec(n))
        a = [[u[i] * v[j] for j in range(n)] for i in range(n)]
    elif kind == "tridiag":
        l, d, u = draw(q(-2, 2, 4)), draw(q(-4, 0, 4)), draw(q(-2, 2, 4))
        for i in range(n):
            a[i][i] = d
            if i + 1 < n:
                a[i][i + 1] = u
                a[i + 1][i] = l
    elif kind == "decay":
        for i in range(n):
            lam = draw(st.one_of(st.just(0.0), logscale(-4, 1)))
            a[i][i] = -lam
            if i + 1 < n:
                a[i + 1][i] = lam
    elif kind == "stiff":
        for i in range(n):
            a[i][i] = -draw(logscale(-3, 2))
            for j in range(i + 1, n):
                a[i][j] = draw(entry())
    elif kind == "perm":
        p = draw(st.permutations(range(n)))
        for i in range(n):
            a[i][p[i]] = draw(st.sampled_from([1.0, -1.0]))
    nrm = max((sum(abs(x) for x in row) for row in a), default=0.0)
    if nrm > 0 and kind != "stiff" and kind != "decay":
        t = draw(st.sampled_from(scales or [1.0, 0.01, 0.1, 0.5, 2.0, 5.0, 10.0]))
        a = [[x * t for x in row] for row in a]
        nrm *= t
    if nrm > maxnorm:
        t = maxnorm / nrm
        a = [[x * t for x in row] for row in a]
    a = [[float(f"{x:.12g}") + 0.0 for x in row] for row in a]
    return {"kind": kind, "a": a}


def is_zero_matrix(a):
    return all(x == 0.0 for row in a for x in row)


@st.composite
def gensys(draw, n, maxnorm=2.0, kinds=None, forcing=3, nonlin=True, sin=True, full=False):
    """Parameters of systems.GenSys: matrix, polynomial forcing, quadratic and sine terms."""
    d = {"A": draw(matrix(n, kinds=kinds, maxnorm=maxnorm))["a"]}
    nq = draw(st.integers(2 if full else 0, forcing))
    if nq:
        slow = draw(st.sampled_from([1.0, 1.0, 1.0, 1e-2, 1e-4, 1e-6]))
        d["B"] = [[x * slow if j else x for x in draw(vec(n))] for j in range(nq)]
    if nonlin and (full or draw(st.booleans())):
        d["P"] = [draw(st.lists(st.one_of(st.just(0.0), q(-0.5, 0.5, 8)), min_size=n, max_size=n)) for _ in range(n)]
        d["R"] = [draw(st.lists(st.one_of(st.just(0.0), q(-0.5, 0.5, 8)), min_size=n, max_size=n)) for _ in range(n)]
    if sin and draw(st.booleans()):
        d["G"] = draw(vec(n, -1, 1))
        d["w"] = draw(st.sampled_from([0.0, 1.0, -2.0, 0.7]))
        if nonlin:
            d["C"] = [draw(st.lists(st.one_of(st.just(0.0), q(-0.5, 0.5, 8)), min_size=n, max_size=n)) for _ in range(n)]
        elif d["w"] == 0.0:
            d["w"] = 1.0
    return d
