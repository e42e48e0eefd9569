"""C18: decay and transmutation matrices encode exactly the library's reactions."""
import numpy as np
from hypothesis import strategies as st
from pbt import gen, ref
from pbt.core import Prop, Sub, fail, require
from pbt.util import close, exact

EPS = ref.EPS
NAMES = ["c_0", "te_135", "u", "xe_135_a", "xe_135_v", "I", "cs 135", "7", "a_b", "none_1"]
RATE = st.one_of(st.just(0.0), gen.q(0, 4, 4), gen.logscale(-16, 3), gen.logscale(-16, 3).map(lambda v: -v))


@st.composite
def library(draw, n, rates=RATE, selfloop=True):
    names = draw(st.permutations(NAMES))[:n]
    lib = {}
    for i, k in enumerate(names):
        def child():
            c = draw(st.sampled_from(["none"] + names))
            return "none" if c == k and not selfloop else c
        if draw(st.booleans()):
            lib[k] = ["single", [[child(), draw(rates)]]]
        else:
            lib[k] = ["branches", [[child(), draw(rates)] for _ in range(draw(st.integers(1, 4)))]]
    order = draw(st.permutations(range(n)))
    return {"names": list(names), "lib": lib, "order": list(order)}


def pylib(c, extra=()):
    out = {}
    for k, (kind, rs) in c["lib"].items():
        out[k] = tuple(rs[0]) if kind == "single" else tuple(tuple(r) for r in rs)
    out.update(extra)
    return out


def model(names, lib):
    """Every reaction takes its rate from the parent and gives it to its child, if it has one."""
    n = len(names)
    M = np.zeros((n, n), dtype=ref.LD)
    mag = np.zeros((n, n))
    for j, k in enumerate(names):
        for child, rate in lib[k][1]:
            M[j, j] -= ref.LD(rate)
            mag[j, j] += abs(rate)
            if child != "none":
                i = names.index(child)
                M[i, j] += ref.LD(rate)
                mag[i, j] += abs(rate)
    return M, mag


def strat(ctx):
    @st.composite
    def s(draw):
        c = draw(library(draw(st.integers(1, 8))))
        c["phi"] = draw(st.one_of(st.sampled_from([1.0, 0.0, -1.0, 2.0]), gen.logscale(-3, 14)))
        c["bad"] = draw(st.integers(0, 4)) == 0
        return c
    return s()


def check(ctx, c):
    from ormatex_py.progression.bateman_sys import gen_bateman_matrix, gen_transmute_matrix
    names, lib = c["names"], pylib(c)
    n = len(names)
    want, mag = model(names, c["lib"])
    extra = {"unlisted": ("none", 7.0), "unlisted2": (names[0], 5.0)}      # species that are not asked for
    before = repr((names, lib))
    for what, lb in (("", lib), (" with reactions of unlisted species", pylib(c, extra))):
        M = np.asarray(gen_bateman_matrix(names, lb))
        require(M.shape == (n, n), f"matrix of shape {M.shape} for {n} species")
        close(ctx, M, want, 8 * EPS * mag, f"decay matrix{what}", "decay")
    require(repr((names, lib)) == before, "the species list or the library was changed")
    T = np.asarray(gen_transmute_matrix(names, lib, c["phi"]))
    close(ctx, T, -ref.LD(c["phi"]) * want, 16 * EPS * abs(c["phi"]) * mag, "transmutation matrix", "transmute")
    exact(np.asarray(gen_transmute_matrix(names, lib)), np.asarray(gen_transmute_matrix(names, lib, phi=1.0)), "default flux is one")
    # another order of the species only permutes
    o = c["order"]
    P = np.asarray(gen_bateman_matrix([names[i] for i in o], lib))
    close(ctx, P, want[np.ix_(o, o)], 8 * EPS * mag[np.ix_(o, o)], "decay matrix in another order of species", "permuted")
    tot = np.array([float(sum(r for ch, r in c["lib"][k][1] if ch == "none")) for k in names])
    close(ctx, M.sum(axis=0), -tot, 32 * n * EPS * (mag.sum(axis=0) + 1e-300), "each column loses what leaves the system", "columns")
    if c["bad"]:
        # a child that is not in the species list cannot be booked anywhere
        for entry in ((("elsewhere", 1.0),), ("elsewhere", 1.0)):
            try:
                B = gen_bateman_matrix(names, dict(lib, **{names[0]: entry}))
            except KeyError:
                continue
            fail(f"a reaction to an unlisted species gives {np.asarray(B).tolist()}")
        try:
            B = gen_bateman_matrix(names + ["missing"], lib)
        except KeyError:
            pass
        else:
            fail("a species without a library entry is accepted")
    kinds = {k for k, _ in c["lib"].values()}
    ctx.label("+".join(sorted(kinds)))
    return n > 1 and any(ch != "none" and r for k in names for ch, r in c["lib"][k][1])


PROP = Prop("C18", [
    Sub("matrices", strat, check, 2400, parts=8, rule="several species and a reaction between species"),
], rule="Random reaction libraries: single and branching entries, self loops, repeated branches, zero, tiny and negative rates.")
