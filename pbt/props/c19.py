"""C19: the analytic Bateman solution is the exact decay-chain solution."""
import numpy as np
from hypothesis import strategies as st
from pbt import gen, ref
from pbt.core import Prop, Sub, fail, require
from pbt.util import close, exact, finite

EPS = ref.EPS


@st.composite
def case(draw):
    n = draw(st.integers(1, 6))
    # half lives over many decades; now and then all of them long or all of them short
    span = draw(st.sampled_from([(-6, 3), (-6, 3), (-14, -7), (-12, 2), (3, 8)]))
    lam = []
    while len(lam) < n:
        v = draw(st.one_of(gen.logscale(*span), gen.q(0.25, 4, 4) if span[1] > 0 else gen.logscale(*span), st.just(0.0) if len(lam) == n - 1 else gen.logscale(span[1] - 3, span[1])))
        while any(abs(v - w) < 0.05 * max(v, w) for w in lam if v or w):
            v = float(f"{v * 1.1 + 1e-16:.6g}")
        lam.append(v)
    ts = draw(st.lists(st.one_of(st.just(0.0), gen.logscale(-4 - span[1] + 3, 4 - span[0] - 6), gen.q(0, 10, 4), gen.logscale(-span[1], -span[0])), min_size=1, max_size=6))
    return {"lam": lam, "t": ts, "n0": draw(st.one_of(st.sampled_from([1.0, 2.5, -1.0]), gen.logscale(-12, 12))),
            "eps": draw(st.sampled_from([1e-3, 0.1, 1.0, -1.0])), "at": draw(st.integers(0, 4)), "k": draw(st.sampled_from([2.0, 0.5, 10.0]))}


def exact_solution(lam, t, n0):
    """In 60 digits, and the size of the terms that are summed."""
    import mpmath as mp
    with mp.workdps(60):
        n = len(lam)
        L = [mp.mpf(x) for x in lam]
        out, mag = [], []
        for m in range(n):
            pre = mp.mpf(n0)
            for i in range(m):
                pre *= L[i]
            s = a = mp.mpf(0)
            for k in range(m + 1):
                den = mp.mpf(1)
                for j in range(m + 1):
                    if j != k:
                        den *= L[j] - L[k]
                term = mp.exp(-L[k] * mp.mpf(t)) / den
                s += term
                # the differences of the constants carry relative errors too
                err = mp.mpf(1) + abs(L[k] * mp.mpf(t))
                for j in range(m + 1):
                    if j != k:
                        err += (L[j] + L[k]) / abs(L[j] - L[k])
                a += abs(term) * err
            out.append(float(pre * s))
            mag.append(float(abs(pre) * a))
        return out, mag


def check(ctx, c):
    from ormatex_py.progression.bateman_sys import analytic_bateman_single_parent
    lam, n0 = c["lam"], c["n0"]
    n = len(lam)
    M = -np.diag(lam)
    for i in range(n - 1):
        M[i + 1, i] = lam[i]
    M0, ts = M.copy(), np.array(c["t"])
    got = analytic_bateman_single_parent(ts, M, n0)
    require(isinstance(got, np.ndarray) and got.shape == (len(ts), n), f"result of shape {np.shape(got)} for {len(ts)} times and {n} species")
    exact(M, M0, "matrix after the call")
    exact(ts, np.array(c["t"]), "times after the call")
    finite(got, "analytic solution")
    tols = []
    for t, row in zip(c["t"], got):
        want, mag = exact_solution(lam, t, n0)
        tols.append(np.array(mag) * 8 * n * EPS + 1e-290)
        close(ctx, row, np.array(want), tols[-1], f"inventories at t={t}", "inventories")
        if t == 0.0:
            close(ctx, row, np.array([n0] + [0.0] * (n - 1)), tols[-1], "initial inventories", "initial")
        require(np.all(row * np.sign(n0) >= -tols[-1]), f"negative inventory at t={t}: {row}")
        total = row.sum()
        require(abs(total) <= abs(n0) * (1 + 1e-12) + tols[-1].sum(), f"total inventory {total} at t={t} grew above {n0}")
        if lam[-1] == 0.0:
            close(ctx, total, n0, tols[-1].sum() + 1e-13 * abs(n0), f"total inventory at t={t} when the last member is stable", "total")
    # linear in the initial amount
    two = analytic_bateman_single_parent(ts, M, c["k"] * n0)
    close(ctx, two, c["k"] * got, 4 * c["k"] * np.array(tols), "scaled initial amount", "linear")
    # accepted in the array type the decay matrix comes in
    import jax.numpy as jnp
    close(ctx, analytic_bateman_single_parent(jnp.asarray(ts), jnp.asarray(M), n0), got, 2 * np.array(tols), "as jax arrays", "jax")
    # refused when the chain does not pass its decays on
    if n > 1:
        B = M.copy()
        i = c["at"] % (n - 1)
        B[i + 1, i] += c["eps"] * max(lam[i], 1.0)
        for bad, what in ((B, "a subdiagonal that is not the decay of the member before"), (M[:, :-1], "a matrix that is not square")):
            try:
                r = analytic_bateman_single_parent(ts, bad, n0)
            except (AssertionError, ValueError):
                continue
            fail(f"{what} is accepted: {np.asarray(r).tolist()}")
    ctx.label(f"{n} members")
    return n > 1 and any(t > 0 for t in c["t"])


PROP = Prop("C19", [
    Sub("chain", lambda ctx: case(), check, 2000, parts=8, rule="more than one member and a positive time"),
], rule="Serial chains with constants at least 5 % apart, over nine decades; times over eight decades, and zero.",
    assumptions=["tolerance follows the cancellation in the formula itself (its conditioning), computed in 60 digits"])
