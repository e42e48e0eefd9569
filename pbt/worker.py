"""Worker process: runs a list of (sub, part) units of one property."""
import json
import os
import sys
import time
import traceback
import zlib


def main():
    spec = json.load(open(sys.argv[1]))
    out = sys.argv[2]
    # the code under test prints; keep the real stdout for nobody
    log = os.open(spec["log"], os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
    os.dup2(log, 1)
    os.dup2(log, 2)
    os.chdir(spec["cwd"])
    from pbt import env
    env.setup()
    result = {"units": [], "error": None}
    try:
        from pbt.registry import load
        prop = load(spec["pid"])
        for u in spec["units"]:
            result["units"].append(run_unit(prop, u, spec))
            if result["units"][-1].get("error"):
                break
            if result["units"][-1].get("violation"):
                break
    except BaseException:
        result["error"] = traceback.format_exc()
    tmp = out + ".tmp"
    with open(tmp, "w") as f:
        json.dump(result, f)
    os.rename(tmp, out)
    sys.stdout.flush()
    os._exit(0)


def run_unit(prop, u, spec):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis.internal.conjecture import engine as _engine
    from pbt.core import Ctx, Violation, case_hash, run_case, short
    mutate = _engine.ConjectureRunner.generate_mutations_from
    count = [0]

    def sometimes(self, data):
        """Left alone, five in six cases are mutants of the one before; a case costs too much for that."""
        count[0] += 1
        if count[0] % 8 == 0:
            mutate(self, data)
    _engine.ConjectureRunner.generate_mutations_from = sometimes
    _engine.MAX_SHRINKING_SECONDS = 40 if spec["tier"] == "quick" else 120

    sub = prop.sub(u["sub"])
    ctx = Ctx(prop.pid, sub, u["part"], sub.parts, spec["seed"], spec["tier"])
    t0 = time.time()
    deadline = t0 + u["budget"]
    res = {"sub": sub.name, "part": u["part"], "evaluations": 0, "nontrivial": [],
           "samples": [], "labels": ctx.labels, "maxima": ctx.maxima, "truncated": 0}
    nontrivial = set()
    seen = []
    state = {"failed": False, "first": None, "last": None, "harness": None}

    def judge(case):
        counted = not state["failed"]
        if counted:
            res["evaluations"] += 1
            seen.append(case)
        try:
            nt = run_case(sub, ctx, case)
        except Violation as v:
            state["failed"] = True
            state["last"] = (case, str(v), traceback.format_exc())
            if state["first"] is None:
                state["first"] = state["last"]
            raise
        if counted and nt:
            h = case_hash(case)
            if h not in nontrivial:
                nontrivial.add(h)
                if len(res["samples"]) < 2:
                    res["samples"].append({"sub": sub.name, "case": json.loads(json.dumps(case))})

    try:
        if u["part"] == 0:
            for case in sub.examples:
                judge(case)
        n = sub.quick if spec["tier"] == "quick" else sub.thorough
        n = max(1, -(-n // sub.parts))
        hseed = zlib.crc32(f"{spec['seed']}/{prop.pid}/{sub.name}/{u['part']}".encode())

        @hypothesis.seed(hseed)
        @settings(max_examples=n, database=None, deadline=None, print_blob=False,
                  report_multiple_bugs=False, phases=(Phase.generate, Phase.shrink),
                  suppress_health_check=list(HealthCheck))
        @given(sub.strategy(ctx))
        def test(case):
            if time.time() > deadline and not state["failed"]:
                res["truncated"] += 1
                return
            judge(case)

        test()
    except Violation:
        pass
    except BaseException as e:
        if state["first"] is None or isinstance(e, (KeyboardInterrupt, SystemExit, MemoryError)):
            res["error"] = traceback.format_exc()
        # else: e.g. Flaky after a recorded violation; the violation is reported below
    if state["first"] is not None and not res.get("error"):
        case, msg, tb = state["last"]
        # confirm outside Hypothesis; if the shrunk one does not fail by itself use the first
        confirmed = True
        try:
            run_case(sub, ctx, case)
            confirmed = False
        except Violation as v:
            msg = str(v)
        except BaseException:
            pass
        if not confirmed:
            case, msg, tb = state["first"]
            msg += " [depends on earlier calls in the same process]"
        res["violation"] = {"case": json.loads(json.dumps(case)), "message": msg, "traceback": tb,
                            "reproduced_alone": confirmed, "part": u["part"],
                            "first": json.loads(json.dumps(state["first"][0])), "before": json.loads(json.dumps(seen[:-1]))}
    res["nontrivial"] = sorted(nontrivial)
    res["wall_s"] = round(time.time() - t0, 2)
    return res


if __name__ == "__main__":
    main()
