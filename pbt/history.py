"""Histories of calls for C26, made in this process (perform) or in a fresh one (main).

Each call is made twice, its inputs are compared with copies, and its thunk is kept and called a third
time after the whole history, on the same live objects."""
import copy
import json
import os
import sys


def perform(calls, retrace=False):
    import numpy as np
    from pbt import ops

    def call(thunk, built):
        try:
            raw = thunk()
            r = {"value": [[list(a.shape), str(a.dtype), enc(a)] for a in ops.leaves(raw)]}
            scribble(raw, arrays(built["x"][0]))
            return r
        except Exception as e:
            from pbt.core import from_code_under_test
            return {"raised": type(e).__name__, "text": str(e)[:300], "ours": not from_code_under_test(e)}

    def scribble(x, inputs):
        """The caller owns the arrays it gets back: writing in them must not reach later calls."""
        if isinstance(x, np.ndarray):
            if x.flags.writeable and x.dtype.kind in "fc" and not any(np.shares_memory(x, y) for y in inputs):
                x += 1000.0
        elif isinstance(x, (list, tuple)):
            for y in x:
                scribble(y, inputs)

    def arrays(x):
        if isinstance(x, np.ndarray):
            return [x]
        vals = x.values() if isinstance(x, dict) else x if isinstance(x, (list, tuple)) else []
        return [a for v in vals for a in arrays(v)]

    def enc(a):
        if a.dtype.kind == "c":
            return np.stack([a.real, a.imag], -1).astype(float).reshape(-1).tolist()
        if a.dtype.kind in "biuf":
            return a.astype(float).reshape(-1).tolist()
        return [str(x) for x in a.reshape(-1)]

    def snap(inputs):
        return [(k, [np.array(l, copy=True) for l in ops.leaves(v)], repr(v) if isinstance(v, (dict, list)) else "") for k, v in sorted(inputs.items())]

    def changed(before, inputs):
        for (k, ls, r), (k2, ls2, r2) in zip(before, snap(inputs)):
            if r != r2 or len(ls) != len(ls2) or any(x.shape != y.shape or x.dtype != y.dtype or not np.array_equal(x, y, equal_nan=x.dtype.kind in "fc")
                                                     for x, y in zip(ls, ls2)):
                return k
        return None

    out, kept = [], []
    for name, args in calls:
        args = copy.deepcopy(args)
        built = {}

        def first():
            built["x"] = ops.build(name, args)
            built["snap"] = snap(built["x"][0])
            return built["x"][1]()
        r = {"first": call(first, built)}
        if "x" in built:
            r["again"] = call(built["x"][1], built)
            r["changed"] = changed(built["snap"], built["x"][0])
            kept.append((len(out), built))
        out.append(r)
    if retrace:      # compiled code is a cache too: what is traced anew must give the same
        import jax
        jax.clear_caches()
    for i, built in kept:
        out[i]["late"] = call(built["x"][1], built)
        out[i]["changed"] = out[i]["changed"] or changed(built["snap"], built["x"][0])
    return out


def main():
    spec = json.load(open(sys.argv[1]))
    log = os.open(spec["log"], os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
    os.dup2(log, 1)
    os.dup2(log, 2)
    os.chdir(spec["cwd"])
    from pbt import env
    env.setup()
    out = perform(spec["calls"])
    with open(spec["out"] + ".tmp", "w") as f:
        json.dump(out, f)
    os.rename(spec["out"] + ".tmp", spec["out"])
    os._exit(0)


if __name__ == "__main__":
    main()
