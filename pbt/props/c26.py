"""C26: results depend only on the inputs: no mutation, no leak between calls."""
import json
import math
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import numpy as np
from hypothesis import strategies as st
from pbt import gen, ops, ref, schemes
from pbt.core import Prop, Sub, fail, require
from pbt.props.c03 import jnp_
from pbt.props.c09 import step_tol
from pbt.props.c25 import opts
from pbt.util import close, exact

RTOL = 1e-9
EPS = ref.EPS


# --- histories of calls in fresh processes -------------------------------------------------------------------
def strat_history(ctx):
    kinds = sorted(ops.OPS)
    order = sorted(range(len(kinds)), key=lambda i: (i * 7 + ctx.seed * 5) % len(kinds))
    mine = ctx.share([kinds[i] for i in order])

    @st.composite
    def s(draw):
        chosen = draw(st.lists(st.sampled_from(mine), min_size=2, max_size=4, unique=True)) if len(mine) > 2 else list(mine)
        chosen.append(draw(st.sampled_from(kinds)))
        calls = []
        for k in chosen:
            base = None
            for _ in range(draw(st.integers(2, 4))):
                a = draw(ops.strategy(k))
                if base is not None and draw(st.booleans()):
                    # a call that differs from an earlier one in a few arguments only
                    keep = draw(st.sets(st.sampled_from(sorted(base)), min_size=len(base) - 1, max_size=len(base)))
                    a = {q: base[q] if q in keep else a[q] for q in a}
                base = a
                calls.append([k, a])
        return {"calls": list(draw(st.permutations(calls)))}
    return s()


def spawn(calls, tag, tmp):
    cwd = os.path.join(tmp, "cwd" + tag)
    os.mkdir(cwd)
    spec = {"calls": calls, "cwd": cwd, "log": os.path.join(tmp, tag + ".log"), "out": os.path.join(tmp, tag + ".json")}
    p = os.path.join(tmp, tag + ".spec")
    with open(p, "w") as f:
        json.dump(spec, f)
    err = open(os.path.join(tmp, tag + ".err"), "w")
    return subprocess.Popen([sys.executable, "-m", "pbt.history", p], cwd=cwd, stdin=subprocess.DEVNULL, stdout=err, stderr=err), spec


def collect(proc, spec, timeout):
    try:
        proc.wait(timeout=timeout)
    except subprocess.TimeoutExpired:
        proc.kill()
        proc.wait()
        raise RuntimeError("history process did not finish")
    if not os.path.exists(spec["out"]):
        tail = open(spec["log"], errors="replace").read()[-1500:] if os.path.exists(spec["log"]) else ""
        raise RuntimeError(f"history process exited {proc.returncode} without a result: {tail}")
    return json.load(open(spec["out"]))


def same(a, b):
    """None when the two results agree, else what differs."""
    if ("raised" in a) != ("raised" in b):
        return f"{a.get('raised', 'returned')} ({a.get('text', '')}) against {b.get('raised', 'returned')} ({b.get('text', '')})"
    if "raised" in a:
        return None if a["raised"] == b["raised"] else f"{a['raised']} against {b['raised']}"
    if [x[:2] for x in a["value"]] != [x[:2] for x in b["value"]]:
        return f"shapes and types {[x[:2] for x in a['value']]} against {[x[:2] for x in b['value']]}"
    for i, (x, y) in enumerate(zip(a["value"], b["value"])):
        if x[2] == y[2]:
            continue
        if x[2] and isinstance(x[2][0], str):
            return f"output {i}: {x[2]} against {y[2]}"
        u, v = np.array(x[2], dtype=float), np.array(y[2], dtype=float)
        if not np.array_equal(np.isfinite(u), np.isfinite(v)):
            return f"output {i}: {u.tolist()} against {v.tolist()}"
        ok = np.isfinite(u)
        if not ok.all() and not np.array_equal(u[~ok], v[~ok], equal_nan=True):
            return f"output {i}: {u.tolist()} against {v.tolist()}"
        eps = 1e-4 if "32" in x[1] or "64" in x[1] and "complex" in x[1] else RTOL
        if ok.any():
            size = float(np.abs(np.concatenate([u[ok], v[ok]])).max())
            d = float(np.abs(u[ok] - v[ok]).max())
            if d > eps * size + 1e-300:
                return f"output {i} differs by {d:.3g} of {size:.3g}: {u.tolist()[:12]} against {v.tolist()[:12]}"
    return None


def check_history(ctx, c):
    calls = c["calls"]
    tmp = tempfile.mkdtemp(prefix="verif-hist-")
    procs = []
    try:
        procs = [spawn(calls, "f", tmp), spawn(calls[::-1], "r", tmp)]
        fwd = collect(*procs[0], 400)
        rev = collect(*procs[1], 400)[::-1]
    finally:
        for p, _ in procs:
            if p.poll() is None:
                p.kill()
                p.wait()
        shutil.rmtree(tmp, ignore_errors=True)
    for i, ((name, args), a, b) in enumerate(zip(calls, fwd, rev)):
        for r in (a, b):
            judge(i, name, args, r)
        d = same(a["first"], b["first"])
        require(d is None, lambda: f"call {i}, {name} {args}: the result depends on the calls before it (same history in reverse order, "
                                   f"each in a fresh process): {d}")
        ctx.label(name + (" raised" if "raised" in a["first"] else ""))
    return len({json.dumps(k) for k in calls}) > 2


def judge(i, name, args, r):
    if r["first"].get("ours"):
        fail(f"op {name} {args} cannot use what the code under test offers or returned: {r['first']}")
    if "again" not in r:
        return
    what = f"call {i}, {name} {args}"
    require(r["changed"] is None, f"{what}: the argument {r['changed']} was changed by the call")
    d = same(r["first"], r["again"])
    require(d is None, lambda: f"{what}: the second call with the same inputs gives another result: {d}")
    d = same(r["first"], r["late"])
    require(d is None, lambda: f"{what}: repeated after the other calls it gives another result: {d}")


# --- a few related calls in this process: many more inputs for the price of one compilation ----------------------
def strat_calls(ctx):
    kinds = sorted(k for k in ops.OPS if k not in ("diffrax", "transport"))
    mine = ctx.share([kinds[(i + ctx.seed) % len(kinds)] for i in range(len(kinds))])

    @st.composite
    def s(draw):
        k = draw(st.sampled_from(mine))
        a = draw(ops.strategy(k))
        calls = [[k, a]]
        for _ in range(draw(st.integers(0, 2))):
            b = draw(ops.strategy(k))
            keep = draw(st.sets(st.sampled_from(sorted(a)), min_size=len(a) - 1, max_size=len(a)))
            calls.append([k, {q: a[q] if q in keep and q in a else b[q] for q in b}])
        return {"calls": calls, "retrace": draw(st.integers(0, 1 if k.startswith("phi") else 4)) == 0}
    return s()


def check_calls(ctx, c):
    from pbt import history
    out = history.perform(c["calls"], c.get("retrace", False))
    for i, ((name, args), r) in enumerate(zip(c["calls"], out)):
        judge(i, name, args, r)
        ctx.label(name + (" raised" if "raised" in r["first"] else ""))
    # the same arguments in two calls: the same result, whatever was called in between
    for i, (k, a) in enumerate(c["calls"]):
        for j in range(i):
            if c["calls"][j] == [k, a]:
                d = same(out[j]["first"], out[i]["first"])
                require(d is None, lambda: f"calls {j} and {i}, {k} {a}, with the same arguments give different results: {d}")
    return all("again" in r for r in out)


# --- integrators advanced in turn --------------------------------------------------------------------------------
METHODS = schemes.RB + schemes.SPLIT + schemes.LEJA + ["rk4"]


def strat_turns(ctx):
    n = [2, 3, 2, 3, 2, 3, 2, 3][ctx.part % 8]
    pool = sorted(set(ctx.share(METHODS) + ["epi3", ["exp2_dense", "exprb3", "exp3_dense", "exprb2_dense"][(ctx.part + ctx.seed) % 4]]))

    @st.composite
    def s(draw):
        k = draw(st.integers(2, 3))
        same_method = draw(st.booleans())
        m = draw(st.sampled_from(pool))
        runs = []
        for i in range(k):
            mi = m if same_method else draw(st.sampled_from(pool))
            leja = mi in schemes.LEJA
            d = draw(gen.gensys(n, maxnorm=2.0, forcing=2, kinds=["negdef"] if leja else None))
            if leja:
                d["A"] = (np.array(d["A"]) - 0.5 * np.eye(n)).tolist()
            if i and not leja and runs[0]["method"] == mi and draw(st.booleans()):
                d = runs[0]["sys"]      # the same system from another state or with another step
            runs.append({"method": mi, "sys": d, "u0": draw(gen.nzvec(n, -1, 1)), "t0": draw(st.sampled_from([0.0, 0.5, -1.0])),
                         "dt": draw(st.sampled_from([0.1, 0.25, 0.05]))})
        turns = draw(st.lists(st.integers(0, k - 1), min_size=3, max_size=8))
        return {"runs": runs, "turns": turns, "probe": draw(st.booleans()), "changes": draw(st.booleans())}
    return s()


def check_turns(ctx, c):
    from pbt import systems
    live = []
    for r in c["runs"]:
        n = len(r["u0"])
        d = systems.from_case(n, r["sys"])
        s = (systems.GenSplit if r["method"] in schemes.SPLIT else systems.GenSys)(d)
        y0 = np.array(r["u0"])
        yj = jnp_(y0)
        live.append({"int": schemes.integrator(r["method"], s, r["t0"], yj, **opts(r["method"])), "sys": s, "y0": yj, "tw": systems.Twin(d),
                     "ys": [y0], "ts": [r["t0"]], "hs": []})
    for j, i in enumerate(c["turns"]):
        r, l = c["runs"][i], live[i]
        h = r["dt"]
        if c["changes"] and not r["method"].startswith("epi3") and j % 2:
            h = 0.5 * h
        if c["probe"]:                      # a step that is not accepted leaves no trace
            l["int"].step(0.75 * h)
        before = np.asarray(l["int"].state).copy()
        res = l["int"].step(h)
        exact(np.asarray(l["int"].state), before, f"{r['method']}: the state before the step is accepted")
        l["int"].accept_step(res)
        l["ys"].append(np.asarray(res.y))
        l["ts"].append(float(res.t))
        l["hs"].append(h)
        for k, o in enumerate(live):        # the others have not moved
            exact(np.asarray(o["int"].state), o["ys"][-1], f"state of integrator {k} ({c['runs'][k]['method']}) after a step of integrator {i}")
            require(float(o["int"].time) == o["ts"][-1], f"time of integrator {k} after a step of integrator {i}")
    moved = 0
    for r, l in zip(c["runs"], live):
        m, n = r["method"], len(r["u0"])
        exact(np.asarray(l["y0"]), np.array(r["u0"]), f"{m}: the initial state given")
        alone = schemes.integrator(m, l["sys"], r["t0"], l["y0"], **opts(m))
        prev = None
        for i, h in enumerate(l["hs"]):
            res = alone.step(h)
            alone.accept_step(res)
            require(float(res.t) == l["ts"][i + 1], f"{m}: time {l['ts'][i + 1]} after step {i + 1} in turns, {float(res.t)} alone")
            y = np.asarray(res.y)
            if not np.array_equal(y, l["ys"][i + 1], equal_nan=True):
                d = float(np.nanmax(np.abs(y - l["ys"][i + 1])))
                require(np.isfinite(y).all() and np.isfinite(l["ys"][i + 1]).all() and d <= (1e-8 if m in schemes.LEJA else RTOL) * (1 + ref.maxabs(y)),
                        f"{m}: step {i + 1} in turns {l['ys'][i + 1].tolist()}, alone {y.tolist()}")
            moved += 1
        # the first step of each against the 80-bit scheme
        if l["hs"]:
            try:
                w = schemes.step(m, l["tw"], l["ts"][0], l["ys"][0], l["hs"][0], None)
            except KeyError:
                continue
            base = "exprb2" if m in schemes.LEJA else m
            tol, ok = step_tol(base, l["tw"], l["ts"][0], l["ys"][0], l["hs"][0], None, 0.0, 0.0, "ad", n, w)
            if ok:
                if m in schemes.LEJA:
                    tol = 20 * tol + 1e-8 * (1 + ref.maxabs(l["ys"][0]) + ref.maxabs(w))
                close(ctx, l["ys"][1], w, tol, f"{m}: first step", "first step")
    ctx.label("same method" if len({r["method"] for r in c["runs"]}) == 1 else "mixed")
    return moved > 2 and len(set(c["turns"])) > 1


PROP = Prop("C26", [
    Sub("history", strat_history, check_history, quick=8, thorough=240, parts=8, cost=12.0,
        rule="more than two different calls in the history"),
    Sub("calls", strat_calls, check_calls, quick=480, parts=8, cost=1.5, rule="no call raised while its arguments were built"),
    Sub("turns", strat_turns, check_turns, quick=96, thorough=1600, parts=8, cost=0.6,
        rule="at least two integrators advanced, three steps or more"),
], rule="A case is a history of calls or of steps of several live integrators.",
    assumptions=["NumPy, JAX, SciPy and scikit-fem are deterministic up to roundoff for the same call",
                 "results are compared to 1e-9 of their size (1e-4 in single precision)"],
    quick_budget=110, thorough_budget=2500)
