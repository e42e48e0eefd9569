"""C25: callbacks see the right state and their arguments reach every stage."""
import numpy as np
from hypothesis import strategies as st
from pbt import gen, ref, schemes
from pbt.core import Prop, Sub, fail, require
from pbt.props.c03 import jnp_
from pbt.props.c09 import step_tol
from pbt.util import close, exact, finite

DIMS = [2, 3, 1, 2, 4, 3, 2, 3]
METHODS = schemes.RB + schemes.SPLIT + schemes.LEJA + ["rk4", "exprb2_pfd", "exp_pfd"]
DENSE = ("exp1_dense", "exp2_dense", "exp3_dense")


def opts(m):
    if m not in schemes.LEJA:
        return {}
    kw = {"n_leja": 60, "leja_tol": 1e-12, "leja_a": -16.0}
    if m != "epi2_leja_re":
        kw["leja_c"] = 4.0
    return kw


@st.composite
def problem(draw, n, m):
    leja = m in schemes.LEJA
    d = draw(gen.gensys(n, maxnorm=2.0, forcing=2, kinds=["negdef"] if leja else None, nonlin=m != "exp_pfd"))
    if leja:
        d["A"] = (np.array(d["A"]) - 0.5 * np.eye(n)).tolist()
    if m == "exp_pfd":
        d = {"A": draw(gen.matrix(n, kinds=["negdef", "decay"], maxnorm=2.0))["a"]}
    return {"method": m, "sys": d, "u0": draw(gen.nzvec(n, -1, 1)), "t0": draw(st.sampled_from([0.0, 0.5, -1.0, 2.0])),
            "dt": draw(st.sampled_from([0.1, 0.25, 0.05, 0.5])), "N": draw(st.integers(1, 4))}


THETA = st.sampled_from([0.0, 0.5, -0.5, 0.25, 1.0, -1.0])
SRC = st.sampled_from([0.0, 1.0, -0.5, 0.25])


def strat(ctx):
    n = DIMS[ctx.part % len(DIMS)]
    methods = sorted(set(ctx.share(METHODS) + [METHODS[(ctx.part * 2 + ctx.seed + 4) % len(METHODS)]]))

    @st.composite
    def s(draw):
        m = draw(st.sampled_from(methods))
        c = draw(problem(n, m))
        src = st.just(0.0) if m == "exp_pfd" else SRC
        c["kws"] = [[draw(THETA), draw(src)] for _ in range(c["N"])]
        c["feedback"] = m != "exp_pfd" and draw(st.integers(0, 2)) == 0    # src follows the state the callback sees
        c["keys"] = [draw(st.sampled_from(["both", "both", "both", "theta", "src", "empty", "none"])) for _ in range(c["N"])]
        c["callbacks"] = draw(st.sampled_from(["both", "both", "before", "after", "none"]))
        c["reject"] = draw(st.booleans())
        if m not in schemes.SPLIT + schemes.LEJA + ["rk4", "exp_pfd"]:
            c["jac"] = draw(st.sampled_from(["ad", "custom", "custom_nodt"] + ([] if m in ("exprb2_dense", "exprb2_pfd") else ["fd"])))
        return c
    return s()


def check(ctx, c):
    from ormatex_py.integrate_wrapper import integrate
    from pbt import systems
    n, m, N, dt, t0 = len(c["u0"]), c["method"], c["N"], c["dt"], c["t0"]
    d = systems.from_case(n, c["sys"])
    split = m in schemes.SPLIT
    tw = systems.Twin(d)
    jac = c.get("jac", "ad")
    sysm = systems.GenSplit(d) if split else systems.JAC_KINDS[jac](d)
    calls, given, answers = [], [], []
    before, after = c["callbacks"] in ("both", "before"), c["callbacks"] in ("both", "after")

    def cb_before(s, t, y):
        i = len(given) % N
        th, src = c["kws"][i]
        if c["feedback"]:
            src = src + 0.25 * float(np.asarray(y)[0]) + 0.125 * float(t)
        calls.append(("before", s, float(t), np.asarray(y).copy()))
        keys = c.get("keys", ["both"] * N)[i]
        if keys == "none":
            given.append((0.0, 0.0))
            answers.append(None)
            return None
        ans = {"theta": th, "src": src}
        ans = {k: v for k, v in ans.items() if keys in ("both", k)}     # what is left out has its default
        given.append((ans.get("theta", 0.0), ans.get("src", 0.0)))
        answers.append(ans)
        return answers[-1]

    def cb_after(s, t, y):
        calls.append(("after", s, float(t), np.asarray(y).copy()))
        return ("seen", float(t))

    def cb_reject(*a):
        fail(f"{m}: the rejection callback was called")
    kw = opts(m)
    if before:
        kw["callback_before_step"] = cb_before
    if after:
        kw["callback_after_step_accept"] = cb_after
    if c["reject"]:
        kw["callback_after_step_reject"] = cb_reject
    r = integrate(sysm, jnp_(c["u0"]), t0, dt, N, m, **kw)
    ts = [float(t) for t in r.t]
    ys = [np.asarray(y) for y in r.y]
    finite(np.array(ys), f"{m}: states")
    # the history of calls
    want = []
    for i in range(N):
        want += [("before", ts[i], ys[i])] * before + [("after", ts[i + 1], ys[i + 1])] * after
    require(len(calls) == len(want), f"{m}: {len(calls)} callback calls, expected {len(want)} in {N} steps")
    for k, (got, w) in enumerate(zip(calls, want)):
        require(got[0] == w[0], f"{m}: call {k} is {got[0]}, expected {w[0]}")
        require(got[1] is sysm, f"{m}: call {k} is given another system")
        require(got[2] == w[1], f"{m}: {got[0]}-step call {k} at time {got[2]}, expected {w[1]}")
        exact(got[3], w[2], f"{m}: state given to {got[0]}-step call {k}")
    cb = r.callback_res
    require(len(cb["callback_before_step"]) == len(answers) and
            all(a is b or a == b for a, b in zip(cb["callback_before_step"], answers)), f"{m}: recorded before-step results {cb}")
    require([tuple(x) for x in cb["callback_after_step_accept"]] == [("seen", t) for t in (ts[1:] if after else [])],
            f"{m}: recorded after-step results {cb['callback_after_step_accept']}")
    ctx.label(c["callbacks"])
    # the arguments reach every stage
    prev, th0 = None, None
    for i in range(N):
        th, src = given[i] if before else (0.0, 0.0)
        th0 = th if th0 is None else th0
        if ref.maxabs(ys[i]) > 30 or ref.maxabs(ys[i + 1]) > 100:
            break
        if m in DENSE:      # keeps L of the first step with this step size, as the code says
            twl = systems.Twin(dict(d), (1 + th0) * np.asarray(d["A"]) / (1 + th) if th != -1.0 else None)
            if th == -1.0 and th0 != -1.0:
                break
        else:
            twl = tw
        try:
            w = schemes.step("exprb2" if m == "exprb2_pfd" else m, twl, ts[i], ys[i], dt, prev, th, src)
        except KeyError:
            break
        base = "exprb2" if m == "exprb2_pfd" or m in schemes.LEJA else m
        if m == "exp_pfd":
            tol, ok = 1e-8 * (1 + ref.maxabs(w)), True
        else:
            tol, ok = step_tol(base if m != "epi3_leja_im" else "epi3", twl, ts[i], ys[i], dt, prev, th, src, jac, n, w)
        if not ok:
            break
        if m in schemes.LEJA:
            tol = 20 * tol + 1e-8 * (1 + ref.maxabs(ys[i]) + ref.maxabs(w))
        if m == "exprb2_pfd":
            if np.max(np.linalg.eigvals((dt * tw.jac(ts[i], ys[i], th)).astype(float)).real) > 1e-9 or \
                    np.max(np.abs(np.linalg.eigvals((dt * tw.jac(ts[i], ys[i], th)).astype(float)).imag)) > 0.5:
                break
            if ref.maxabs(tw.fdt(ts[i], ys[i], src)) > 0:
                tol += 1e-6 * (1 + ref.maxabs(w))
            tol += 1e-7 * (1 + ref.maxabs(w))
        close(ctx, ys[i + 1], w, tol, f"{m}: step {i + 1} with arguments {(th, src)}", m)
        prev = (ts[i], ys[i])
    return before and N > 1 and len({tuple(g) for g in given}) > 1


# --- constants from a callback and constants built in ---------------------------------------------
def strat_const(ctx):
    n = DIMS[ctx.part % len(DIMS)]
    methods = sorted(set(ctx.share(METHODS)))

    @st.composite
    def s(draw):
        m = draw(st.sampled_from(methods))
        c = draw(problem(n, m))
        c["kw"] = [draw(THETA), 0.0 if m == "exp_pfd" else draw(SRC)]
        c["none"] = draw(st.integers(0, 3)) == 0
        return c
    return s()


def check_const(ctx, c):
    from ormatex_py.integrate_wrapper import integrate
    from pbt import systems
    n, m, N = len(c["u0"]), c["method"], c["N"]
    d = systems.from_case(n, c["sys"])
    cls = systems.GenSplit if m in schemes.SPLIT else systems.GenSys
    th, src = (0.0, 0.0) if c["none"] else c["kw"]
    d2 = dict(d, A=(1 + th) * np.asarray(d["A"]), B=d["B"].copy())
    d2["B"][0] = d2["B"][0] + src
    d2["B"][1] = d2["B"][1] + src / 4
    args = (jnp_(c["u0"]), c["t0"], c["dt"], N, m)
    ret = None if c["none"] else {"theta": th, "src": src}
    a = integrate(cls(d), *args, callback_before_step=lambda s, t, y: ret, **opts(m))
    b = integrate(cls(d2), *args, **opts(m))
    ya, yb = np.array([np.asarray(y) for y in a.y]), np.array([np.asarray(y) for y in b.y])
    finite(yb, f"{m}: states")
    big = ref.maxabs(yb)
    if big > 50:
        return False
    tw = systems.Twin(d2)
    lip = max(ref.infnorm(tw.jac(c["t0"] + i * c["dt"], yb[i])) for i in range(N + 1))
    if lip * c["dt"] * N > 6:
        return False
    base = 1e-7 if m in schemes.LEJA else 1e-10
    close(ctx, ya, yb, base * (1 + big) * float(np.exp(lip * c["dt"] * N)) * (1 + lip), f"{m}: constants {ret} from a callback against built in", m)
    ctx.label("returns None" if c["none"] else "constants")
    return ref.maxabs(yb[-1] - yb[0]) > 1e-6 and (c["none"] or (th, src) != (0.0, 0.0))


PROP = Prop("C25", [
    Sub("history", strat, check, 400, parts=8, cost=4, rule="before-step callback with arguments that change between steps"),
    Sub("constants", strat_const, check_const, 240, parts=8, cost=4, rule="the state moves and the constants are not the defaults"),
], rule="All callback-capable methods; arguments that change per step, follow the state, or are constant.",
    assumptions=["the dense split methods keep L of the first step with a step size (stated in the code)", "the diffrax methods take no callbacks"])
