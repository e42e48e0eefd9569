"""C16: a step changes nothing until it is accepted, and a reset forgets the past."""
import numpy as np
from hypothesis import strategies as st
from pbt import gen, ref, schemes
from pbt.core import Prop, Sub, fail, require
from pbt.props.c03 import jnp_
from pbt.util import close, exact, finite

DIMS = [2, 3, 2, 1, 3, 2, 4, 2]
METHODS = ["epi3", "exp3_dense", "epi3_leja_im", "exprb3", "pexprb4", "exp2_dense", "epi2", "exp1_dense", "rk4",
           "exprb2", "exp3", "epi2_leja_re", "exprb2_dense", "exp2", "exp1", "epi2_leja_im", "exprb2_pfd"]
DTS = [0.25, 0.5, 0.1, 1.0, 0.125]
# a step close to the one before: a clipped last step, a step size that drifted by rounding
NEAR = [1e-3, -4e-4, 1e-5, -1e-6, 1e-8]
DENSE = ("exp1_dense", "exp2_dense", "exp3_dense")


def op(n):
    return st.one_of(
        st.sampled_from(DTS).map(lambda d: ["step", d]),
        st.sampled_from(DTS).map(lambda d: ["step", d]),
        st.sampled_from(DTS).map(lambda d: ["try", d]),
        st.sampled_from(NEAR).map(lambda e: ["step", "near", e]),
        st.sampled_from(NEAR).map(lambda e: ["try", "near", e]),
        st.integers(0, 3).map(lambda i: ["accept", i]),
        st.just(["accept", 0]),
        st.just(["drop"]),
        st.just(["read"]),
        st.just(["reset", "here", None]),
        st.tuples(st.sampled_from([0.0, 0.5, -1.0, 3.0, "now", "now", "start"]), gen.nzvec(n, -1, 1)).map(lambda p: ["reset", p[0], p[1]]),
    )


@st.composite
def ops(draw, n):
    """Single operations in any order, with sequences in between in which one is likely to disturb the next."""
    out = []
    d = st.sampled_from(DTS)
    new = gen.nzvec(n, -1, 1)
    for _ in range(draw(st.integers(2, 6))):
        k = draw(st.integers(0, 10))
        if k > 5:
            out.append(draw(op(n)))
        elif k == 0:
            out += [["try", draw(d)], ["reset", draw(st.sampled_from(["now", "start"])), draw(new)], ["step", draw(d)]]
        elif k == 1:
            out += [["step", draw(d)], ["step", "near", draw(st.sampled_from(NEAR))]]
        elif k == 2:
            out += [["try", draw(d)], ["try", draw(d)], ["accept", 1], ["step", draw(d)]]
        elif k == 5:
            h = draw(d)
            out += [["step", h], ["step", h], ["reset", "here", None], ["step", h]]
        elif k == 3:
            h = draw(d)
            out += [["step", h], ["reset", "start", draw(new)], ["step", h]]
        else:
            h = draw(d)
            out += [["try", h], ["drop"], ["step", h / 2], ["step", h / 2]]
    return out[:12]


def strat(ctx):
    n = DIMS[ctx.part % len(DIMS)]
    methods = sorted(set(ctx.share(METHODS) + ["epi3", METHODS[(ctx.part + ctx.seed + 4) % len(METHODS)]]))

    @st.composite
    def s(draw):
        method = draw(st.sampled_from(methods))
        leja = method in schemes.LEJA
        d = draw(gen.gensys(n, maxnorm=1.5, forcing=2, kinds=["negdef"] if leja else None))
        if leja:
            A = np.array(d["A"])
            d["A"] = (A - 0.5 * np.eye(n)).tolist()
        c = {"method": method, "sys": d, "u0": draw(gen.nzvec(n, -1, 1)), "t0": draw(st.sampled_from([0.0, 0.5, -1.0])),
             "ops": draw(ops(n))}
        if method in schemes.SPLIT:
            c["lt"] = draw(st.sampled_from([0.0, 0.5]))
        return c
    return s()


def build(systems, c, t0, u0):
    d = systems.from_case(len(c["u0"]), c["sys"])
    if c["method"] in schemes.SPLIT:
        sysm = systems.GenSplit(d, None, c["lt"])
    else:
        sysm = systems.GenSys(d)
    kw = {"n_leja": 60, "leja_tol": 1e-12, "leja_a": -12.0, "leja_c": 3.0} if c["method"] in schemes.LEJA else {}
    if c["method"] == "epi2_leja_re":
        kw.pop("leja_c")
    return schemes.integrator(c["method"], sysm, t0, jnp_(u0), **kw)


def check(ctx, c):
    from pbt import systems
    m, leja = c["method"], c["method"] in schemes.LEJA
    it = build(systems, c, c["t0"], c["u0"])
    # the dense split methods keep L from the first step they take with a step size, tried or accepted
    keeps = m in DENSE and c["lt"] != 0.0
    t, u = c["t0"], np.array(c["u0"])
    start, log = (t, u), []            # since the last reset: ("step", dt) and ("accept", position of the step)
    pending = []                       # results not accepted, newest first, all from the present state
    depth = steps = resets = dropped = 0

    def tolerance(y):
        return (1e-7 if leja else 1e-11) * (1 + ref.maxabs(y) + ref.maxabs(u))

    def observe(what):
        close(None, float(it.t), t, 1e-13 * (1 + abs(t)), f"{m}: t after {what}")
        close(None, float(it.time), t, 1e-13 * (1 + abs(t)), f"{m}: time after {what}")
        exact(np.asarray(it.state), u, f"{m}: state after {what}")

    def predict(dt):
        """A new integrator at the present state; where the previous step matters, one that takes the accepted steps since the reset."""
        if not keeps and m not in ("epi3", "epi3_leja_im"):
            return build(systems, c, t, u).step(dt)
        new = build(systems, c, *start)
        taken = {e for w, e in log if w == "accept"}
        results = {}
        for i, (w, e) in enumerate(log):
            if w == "accept":
                new.accept_step(results[e])
            elif keeps or i in taken:
                results[i] = new.step(e)
        return new.step(dt)

    observe("construction")
    last = 0.25
    for o in c["ops"]:
        if o[1:2] == ["near"]:
            o = [o[0], last * (1 + o[2])]
        if o[0] in ("step", "try"):
            last = o[1]
        what = " ".join(str(x) for x in o)
        if o[0] in ("try", "step"):
            want = predict(o[1])
            r = it.step(o[1])
            y = finite(np.asarray(r.y), f"{m}: {what}")
            if ref.maxabs(y) > 1e3:
                return False
            close(None, float(r.t), t + o[1], 1e-13 * (1 + abs(t) + o[1]), f"{m}: result time of {what}")
            require(float(r.dt) == o[1], f"{m}: {what} returned step size {r.dt}")
            require(y.shape == u.shape, f"{m}: {what} returned a state of shape {y.shape}")
            close(ctx, y, np.asarray(want.y), tolerance(y), f"{m}: {what} after {log} since the last reset, against a new integrator", m)
            log.append(("step", o[1]))
            pending.insert(0, (r, len(log) - 1))
            observe(what + " (not accepted)")
            steps += 1
        if o[0] in ("accept", "step") and pending:
            i = min(o[1], len(pending) - 1) if o[0] == "accept" else 0
            r, j = pending[i]
            it.accept_step(r)
            t, u = float(r.t), np.asarray(r.y)
            log.append(("accept", j))
            dropped += len(pending) - 1
            pending = []
            depth += 1
            observe(what)
        elif o[0] == "drop":
            dropped += len(pending)
            pending = []
            observe(what)
        elif o[0] == "read":
            observe(what)
        elif o[0] == "reset":
            if o[1] == "here":              # the integrator's own time and state, as it hands them out
                it.reset_ic(it.time, it.state)
            else:
                t, u = {"now": t, "start": start[0]}.get(o[1], o[1]), np.array(o[2])
                it.reset_ic(t, jnp_(u))
            start, log, pending = (t, u), [], []
            resets += 1
            observe(what)
    if resets and depth:
        ctx.label("reset after accepted steps")
    if dropped:
        ctx.label("dropped steps")
    return steps >= 2 and depth >= 1


PROP = Prop("C16", [
    Sub("histories", strat, check, 480, parts=8, cost=4, rule="at least two steps tried and one accepted",
        examples=[]),
], rule="Random histories of tried, accepted, dropped and repeated steps and of resets, over every integrator.",
    assumptions=["the dense split methods keep L per step size (stated in the code), so for a state-dependent L tried steps are part of the replayed history"])
