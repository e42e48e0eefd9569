"""C12: Leja point sequences."""
import numpy as np
from hypothesis import strategies as st
from pbt import gen, ref
from pbt.core import Prop, Sub, fail, require
from pbt.util import close, exact, finite

EPS = ref.EPS


# --- fast Leja points on a real interval -----------------------------------------------------
def strat_fast(ctx):
    ab = st.one_of(st.sampled_from([[-2.0, 2.0], [-1.0, 1.0], [0.0, 4.0], [-4.0, 0.0], [-0.25, 0.25], [-30.0, 1.0]]),
                   st.tuples(gen.q(-20, 20), gen.logscale(-2, 2)).map(lambda t: [t[0], t[0] + t[1]]))
    return st.fixed_dictionaries({"ab": ab, "n": st.one_of(st.integers(3, 40), st.sampled_from([60, 100, 150])),
                                  "m": st.integers(3, 60)})


def check_fast(ctx, c):
    from ormatex_py.matexp_leja import gen_leja_fast
    (a, b), n = c["ab"], c["n"]
    if n * abs(np.log((b - a) / 4)) > 600:
        # the products of distances leave the range of a double
        ctx.label("out of the double range")
        return False
    z = np.asarray(gen_leja_fast(a, b, n))
    require(z.shape == (n,), f"{z.shape} points for n={n}")
    finite(z, "points")
    w = b - a
    require(np.all(z >= a - 1e-12 * w) and np.all(z <= b + 1e-12 * w), "a point outside the interval")
    require(np.min(np.diff(np.sort(z))) > 1e-9 * w, "repeated points")
    require(sorted(z[:2]) == [a, b], f"the first two points are {z[:2]}, not the ends of [{a}, {b}]")
    require(abs(z[0]) >= abs(z[1]), "the first point is the end of larger magnitude")
    close(ctx, z[2], (a + b) / 2, 4 * EPS * (abs(a) + abs(b)), "third point is the midpoint", "mid")
    # each further point is one of the midpoints between neighbours, with the largest product of distances
    x = (z.astype(np.longdouble) - a) / w
    for i in range(3, n):
        s = np.sort(x[:i])
        cand = (s[1:] + s[:-1]) / 2
        logp = np.sum(np.log(np.abs(cand[:, None] - x[None, :i])), axis=1)
        j = int(np.argmin(np.abs(cand - x[i])))
        require(abs(cand[j] - x[i]) < 1e-9, f"point {i} is not midway between two earlier neighbours")
        require(logp[j] >= np.max(logp) - 1e-6,
                f"point {i} of gen_leja_fast({a}, {b}, {n}) is not the candidate of largest distance product: "
                f"exp({float(logp[j] - np.max(logp)):.3g}) of the best")
    # a longer sequence starts with the shorter one, up to equal candidates
    m = c["m"]
    if a == -b:
        z2 = np.asarray(gen_leja_fast(a, b, m))
        k = min(m, n, 12)
        close(ctx, np.sort(np.abs(z2[:k - (k % 2 == 0)])), np.sort(np.abs(z[:k - (k % 2 == 0)])), 1e-9 * w, "prefix property", "prefix")
    return n > 4


# --- circle ------------------------------------------------------------------------------------
def strat_circle(ctx):
    return st.fixed_dictionaries({"n": st.one_of(st.integers(2, 70), st.sampled_from([128, 200, 257, 500])), "conj": st.booleans()})


def check_circle(ctx, c):
    from ormatex_py.matexp_leja import gen_leja_circle
    n = c["n"]
    z = np.asarray(gen_leja_circle(n, conjugate=c["conj"]))
    require(z.shape == (n,), f"{z.shape} points for n={n}")
    close(ctx, np.abs(z), np.ones(n), 1e-13, "points on the unit circle", "modulus")
    close(ctx, z[:2], [1, -1], 1e-14, "first two points", "first")
    k = 2
    while k <= n:
        ang = np.sort(np.round(np.angle(z[:k]) / (2 * np.pi / k)).astype(int) % k)
        require(np.array_equal(ang, np.arange(k)), f"the first {k} points are not the {k} roots of unity")
        close(ctx, z[:k] ** k, np.ones(k), 1e-12 * k, f"the first {k} points are roots of unity", "roots")
        k *= 2
    # fast Leja property at the level of the refinement: every point of the last incomplete level is a
    # 2^(j+1)-th root that is not a 2^j-th root
    k //= 2
    if n > k:
        close(ctx, z[k:] ** k, -np.ones(n - k), 1e-12 * k, "the next level bisects the arcs", "bisect")
        require(np.min(np.abs(z[k:, None] - z[None, k:]) + 10 * np.eye(n - k)) > 1e-3 if n - k > 1 else True, "repeated points")
    if c["conj"]:
        m = n - (n % 2)
        close(ctx, z[3:m:2], np.conj(z[2:m:2]), 1e-12, "conjugate pairs", "pairs")
    elif n <= 70:
        # the plain sequence is a true Leja sequence on the circle: |prod| is maximal = 2^(number of ones)
        for i in range(1, n):
            p = float(np.sum(np.log(np.abs(z[i] - z[:i]))))
            g = np.exp(1j * np.linspace(0, 2 * np.pi, 8 * 128, endpoint=False))
            with np.errstate(divide="ignore"):
                best = float(np.max(np.sum(np.log(np.abs(g[:, None] - z[None, :i])), axis=1)))
            require(p >= best - 1e-6, f"point {i} on the circle does not maximise the distance product")
    return n > 4


# --- ellipse / intervals ---------------------------------------------------------------------------
def strat_conj(ctx):
    a = st.one_of(st.just(0.0), gen.logscale(-3, 3).map(lambda v: -v))
    c = st.one_of(st.just(0.0), gen.logscale(-3, 3))
    return st.fixed_dictionaries({"a": a, "b": st.one_of(st.just(0.0), gen.q(0, 2)), "c": c, "n": st.one_of(st.integers(4, 80), st.integers(4, 80), st.sampled_from([100, 129, 150, 193, 257, 300]))})


def check_conj(ctx, c):
    from ormatex_py.matexp_leja import gen_leja_conjugate
    a, b, cc, n = c["a"], c["b"], c["c"], c["n"]
    if a == 0 and b == 0 and cc == 0:
        return False
    z, n_real, scale, shift = gen_leja_conjugate(n, a, b, cc)
    z = np.asarray(z)
    require(z.shape == (n,), f"{z.shape} points for n={n}")
    h1, h2 = (b - a) / 2, cc
    close(ctx, float(shift), (a + b) / 2, 1e-13 * (abs(a) + abs(b)), "shift", "shift")
    close(ctx, float(scale), (h1 + h2) / 2, 1e-13 * (h1 + h2), "scale", "shift")
    w = shift + scale * z
    flat = h2 <= 1e-4 * (h1 + h2) / 2 * (1 + 1e-9) or h1 <= 1e-4 * (h1 + h2) / 2 * (1 + 1e-9)
    r, i = (w.real - shift), np.imag(w)
    tol = 1e-9 * (h1 + h2)
    require(np.all(np.abs(r) <= h1 + tol) and np.all(np.abs(i) <= h2 + tol), "a point outside the ellipse's box")
    if flat:
        d = r if h1 > h2 else i
        lo, hi = (h1 if h1 > h2 else h2) * np.array([-1, 1])
        require(abs(d.max() - hi) < 1e-9 * hi + 1e-300 and abs(d.min() - lo) < 1e-9 * hi + 1e-300, "an end of the interval is missing")
        if h1 > h2:
            require(n_real == n, f"real points, but n_real={n_real} of {n}")
            require(np.all(np.imag(z) == 0), "real interval: complex points")
        else:
            require(n_real == 1, f"imaginary points with n_real={n_real}")
            require(abs(z[0]) < 1e-12, "imaginary points start at the centre")
        ctx.label("flat")
    else:
        close(ctx, (r / h1) ** 2 + (i / h2) ** 2, np.ones(n), 1e-9, "points on the ellipse", "ellipse")
        require(n_real == 2, f"ellipse with n_real={n_real}")
        ctx.label("ellipse")
    require(np.max(np.abs(np.imag(z[:n_real]))) <= 1e-13, "leading real points are not real")
    rest = z[n_real:]
    m = len(rest) - len(rest) % 2
    close(ctx, rest[1:m:2], np.conj(rest[0:m:2]), 1e-12, "conjugate pairs after the real points", "pairs")
    D = np.abs(z[:, None] - z[None, :]) + 10 * np.eye(n)
    # one pair only can meet at a flat end
    require(np.min(D) > 1e-7 / n, f"repeated points: distance {np.min(D):.3g}")
    if flat:
        # projections of the roots of unity: Chebyshev extreme points, level by level
        k = 2
        while k + 1 <= n:
            j = np.sort(d[:k + 1]) / hi
            close(ctx, j, -np.cos(np.pi * np.arange(k + 1) / k), 1e-9, f"the first {k + 1} points are Chebyshev extreme points", "cheb")
            k *= 2
    if not flat:
        k = 2
        while 2 * k <= n:
            k *= 2
        t = np.sort(np.mod(np.angle(r / h1 + 1j * i / h2)[:k], 2 * np.pi - 1e-9))
        close(ctx, np.diff(t), np.full(k - 1, 2 * np.pi / k), 1e-6, f"the first {k} points are equispaced in the angle", "spread")
    return n > 4


def strat_empty(ctx):
    return st.fixed_dictionaries({"a": gen.q(-3, 3), "w": gen.q(0.125, 5), "c": gen.q(0, 3), "n": st.integers(4, 30)})


def check_empty(ctx, c):
    """A box with a > b whose half axes do not cancel is empty: ValueError, or the mirrored sequence."""
    from ormatex_py.matexp_leja import gen_leja_conjugate
    a, b, cc = c["a"] + c["w"], c["a"], -c["c"] - 0.5
    # negative c with a valid real interval, of smaller size: one normalised half axis is negative
    hi = c["w"] / 2
    if not cc < 0 or abs(hi + cc) < 1e-6:
        return False
    try:
        gen_leja_conjugate(c["n"], b, a, cc)
    except ValueError:
        return True
    fail(f"gen_leja_conjugate accepted the empty box [{b}, {a}] x [{-cc}, {cc}]")


# --- padding and reordering --------------------------------------------------------------------------
def strat_pad(ctx):
    return st.fixed_dictionaries({
        "x": st.lists(st.tuples(gen.q(-2, 2, 32), gen.q(-2, 2, 32)), min_size=3, max_size=20, unique=True),
        "m": st.sampled_from([0, 0, 30, 45, 61, 90]), "mk": st.sampled_from(["even", "cheb", "random", "circle", "imag"]), "seed": st.integers(0, 99),
        "cplx": st.booleans(), "p": st.integers(1, 5), "beta": gen.logscale(-1, 2), "n": st.sampled_from([10, 21, 40, 60])})


def check_pad(ctx, c):
    import jax.numpy as jnp
    from ormatex_py.matexp_leja import gen_complex_conj_leja_fast
    from ormatex_py.matexp_poly import leja_seq_pad_zeros, leja_seq_reordering
    x = np.array([complex(*t) if c["cplx"] else t[0] for t in c["x"]])
    if not c["cplx"]:
        x = np.unique(x)
        np.random.RandomState(len(x)).shuffle(x)
        if len(x) < 3:
            return False
    if c["m"]:
        # a larger set
        m, rs = c["m"], np.random.RandomState(c["seed"])
        x = {"even": np.linspace(-2, 2, m), "cheb": 2 * np.cos(np.pi * (np.arange(m) + 0.5) / m), "random": rs.uniform(-2, 2, m),
             "circle": np.exp(2j * np.pi * (np.arange(m) + 0.25) / m), "imag": 1j * np.linspace(-2, 2, m)}[c["mk"]]
        rs.shuffle(x)
    p = c["p"]
    y = np.asarray(leja_seq_pad_zeros(jnp.asarray(x), p))
    require(y.shape == (len(x) + p,), f"padding {len(x)} points with {p} zeros gives {len(y)}")
    exact(y[p:], x, "padded sequence keeps the points")
    require(np.all(np.abs(y[:p]) <= 1e-10), "leading points are not near zero")
    require(len(set(y[:p].tolist())) == p, "padded zeros coincide")
    z = np.asarray(leja_seq_reordering(x))
    require(sorted(z.tolist(), key=lambda v: (complex(v).real, complex(v).imag)) ==
            sorted(x.tolist(), key=lambda v: (complex(v).real, complex(v).imag)), "reordering changes the set of points")
    for i in range(1, len(z)):
        prods = np.prod(np.abs(z[i:, None] - z[None, :i]), axis=1)
        require(prods[0] >= np.max(prods) * (1 - 1e-9), f"reordered point {i} does not maximise the distance product")
    w = np.asarray(gen_complex_conj_leja_fast(c["beta"], c["n"]))
    b = c["beta"]
    require(c["n"] - 1 <= len(w) <= c["n"], f"{len(w)} points for n={c['n']}")
    require(np.all(w.real == 0) and np.all(np.abs(w.imag) <= b * (1 + 1e-6)), "imaginary points outside the interval")
    require(w[0] == 0, f"the sequence starts at {w[0]}, not at 0")
    m = (len(w) - 1) // 2 * 2
    close(ctx, w[2:m + 1:2], np.conj(w[1:m + 1:2]), 1e-6 * b, "conjugate pairs", "imag pairs")
    D = np.abs(w[:, None] - w[None, :]) + 10 * b * np.eye(len(w))
    require(np.min(D) > 1e-4 * b / len(w), "repeated points")
    gap = np.max(np.diff(np.sort(np.append(w.imag, [-b, b]))))
    require(gap < 8 * b / len(w) * 1.6 + 1e-6 * b, f"imaginary Leja points leave a gap of {gap / b:.3g} beta among {len(w)} points")
    return True


PROP = Prop("C12", [
    Sub("fast", strat_fast, check_fast, 320, parts=4, cost=3, rule="more than four points"),
    Sub("circle", strat_circle, check_circle, 160, parts=2, cost=3, rule="more than four points"),
    Sub("ellipse", strat_conj, check_conj, 2400, parts=4, cost=0.5, rule="more than four points"),
    Sub("empty", strat_empty, check_empty, 100, parts=1, rule="a box with one negative half axis"),
    Sub("reorder", strat_pad, check_pad, 240, parts=4, cost=3, rule="every case"),
], rule="Intervals of any position and size, ellipses of any aspect down to the real and imaginary intervals, all lengths.",
    assumptions=["oracle: brute-force greedy maximisation of the distance product"])
