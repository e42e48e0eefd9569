#!/opt/venv/bin/python
"""check.py PROPERTY [quick|thorough] [--replay FILE] [--list]

Runs the property-based check of one property against /repo (or $VERIF_REPO).
exit 0: held on everything explored; exit 1 + VIOLATION line: broken;
any other exit: the check itself failed.
"""
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
if not os.path.exists(PY):
    PY = sys.executable


def main(argv):
    args = [a for a in argv if not a.startswith("--")]
    if not args:
        print(__doc__)
        return 2
    pid = args[0].upper()
    tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        print("unknown tier", tier)
        return 2
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    tmp = tempfile.mkdtemp(prefix=f"verif-{pid}-")
    try:
        sys.path.insert(0, HERE)
        sys.dont_write_bytecode = True
        from pbt import env
        os.environ.update(env.environ(tmp))
        sys.pycache_prefix = os.path.join(tmp, "pyc")
        if "--replay" in argv:
            return replay(pid, argv[argv.index("--replay") + 1], tmp)
        return run(pid, tier, seed, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def plan(prop, tier, nproc):
    """Split every sub in units and spread them over the processes by estimated cost."""
    units = []
    for s in prop.subs:
        n = s.quick if tier == "quick" else s.thorough
        for p in range(s.parts):
            units.append((s.cost * max(1, n / s.parts) + 1.0, s.name, p))
    units.sort(key=lambda u: (-u[0], u[1], u[2]))
    bins = [[0.0, []] for _ in range(nproc)]
    for c, name, p in units:
        b = min(bins, key=lambda b: b[0])
        b[0] += c
        b[1].append({"sub": name, "part": p, "cost": c})
    budget = prop.quick_budget if tier == "quick" else prop.thorough_budget
    out = []
    for total, us in bins:
        if us:
            for u in us:
                u["budget"] = max(20.0, budget * u["cost"] / total)
            out.append(us)
    return out, budget


def run(pid, tier, seed, tmp):
    t0 = time.time()
    real_out = os.dup(1)
    sink = os.open(os.path.join(tmp, "plan.log"), os.O_WRONLY | os.O_CREAT)
    sys.stdout.flush()
    os.dup2(sink, 1)
    from pbt import env, findings
    env.setup()
    from pbt.registry import load
    cwd = os.path.join(tmp, "cwd")
    os.mkdir(cwd)
    os.chdir(cwd)
    prop = load(pid)
    os.chdir(HERE)
    sys.stdout.flush()
    os.dup2(real_out, 1)

    nproc = int(os.environ.get("VERIF_JOBS", str(min(8, os.cpu_count() or 8))))
    groups, budget = plan(prop, tier, nproc)
    procs = []
    for i, us in enumerate(groups):
        spec = {"pid": pid, "tier": tier, "seed": seed, "units": us, "cwd": cwd,
                "log": os.path.join(tmp, f"w{i}.log")}
        sp, op = os.path.join(tmp, f"w{i}.json"), os.path.join(tmp, f"w{i}.out")
        with open(sp, "w") as f:
            json.dump(spec, f)
        p = subprocess.Popen([PY, "-m", "pbt.worker", sp, op], cwd=cwd, stdin=subprocess.DEVNULL,
                             stdout=subprocess.DEVNULL, stderr=open(os.path.join(tmp, f"w{i}.err"), "w"),
                             start_new_session=True)
        procs.append((p, op, i, us))
    hard = t0 + budget * 2 + 200
    errors, units = [], []
    try:
        for p, op, i, us in procs:
            try:
                p.wait(timeout=max(1, hard - time.time()))
            except subprocess.TimeoutExpired:
                errors.append(f"worker {i} did not finish in time: {[(u['sub'], u['part']) for u in us]}")
                continue
            if not os.path.exists(op):
                tail = ""
                for n in (f"w{i}.log", f"w{i}.err"):
                    fn = os.path.join(tmp, n)
                    if os.path.exists(fn):
                        tail += open(fn, errors="replace").read()[-2500:]
                errors.append(f"worker {i} exited {p.returncode} without a result\n{tail}")
                continue
            r = json.load(open(op))
            if r["error"]:
                errors.append(r["error"])
            for u in r["units"]:
                if u.get("error"):
                    errors.append(f"{u['sub']}[{u['part']}]: {u['error']}")
                units.append(u)
    finally:
        for p, *_ in procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.wait()

    known = findings.run_known(pid, prop, seed, tier)
    violations = []
    for u in units:
        v = u.get("violation")
        if v and not findings.is_known(pid, u["sub"], v):
            violations.append((u["sub"], v))

    from pbt.core import short
    per_sub = {}
    for u in units:
        d = per_sub.setdefault(u["sub"], {"evaluations": 0, "distinct_nontrivial": set(), "labels": {},
                                          "maxima": {}, "wall_s": 0.0, "stopped_by_time_budget": 0})
        d["evaluations"] += u["evaluations"]
        d["distinct_nontrivial"].update(u["nontrivial"])
        d["wall_s"] = round(d["wall_s"] + u.get("wall_s", 0), 2)
        d["stopped_by_time_budget"] += u["truncated"]
        for k, n in u["labels"].items():
            d["labels"][k] = d["labels"].get(k, 0) + n
        for k, n in u["maxima"].items():
            d["maxima"][k] = max(d["maxima"].get(k, n), n)
    samples = []
    seen = {}
    for u in sorted(units, key=lambda u: (u["part"], u["sub"])):
        for s in u["samples"]:
            if seen.get(s["sub"], 0) < 1 and len(samples) < 12:
                seen[s["sub"]] = 1
                samples.append(s)
    total_nt = 0
    for d in per_sub.values():
        d["distinct_nontrivial"] = len(d["distinct_nontrivial"])
        total_nt += d["distinct_nontrivial"]
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(d["evaluations"] for d in per_sub.values()),
            "distinct_nontrivial": total_nt,
            "rule": prop.rule + " Per sub-check: " + "; ".join(f"{s.name}: {s.rule}" for s in prop.subs),
            "samples": samples,
            "per_sub": per_sub,
            "known_findings_replayed": len(known),
        },
        "assumptions": prop.assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ev = os.path.join(HERE, "evidence", f"{pid}.json")
    with open(ev + ".tmp", "w") as f:
        json.dump(evidence, f, indent=1, sort_keys=True)
    os.rename(ev + ".tmp", ev)

    for line in known:
        print(line)
    for name, d in sorted(per_sub.items()):
        print(f"  {name}: {d['evaluations']} cases, {d['distinct_nontrivial']} distinct non-trivial, "
              f"{d['wall_s']} s" + (f", maxima {fmt(d['maxima'])}" if d["maxima"] else "")
              + (f", {d['stopped_by_time_budget']} skipped by time budget" if d["stopped_by_time_budget"] else ""))
    if violations:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        from pbt.core import case_hash
        for sub, v in violations:
            path = os.path.join(HERE, "replays", f"{pid}-{sub}-{case_hash(v['case'])}.json")
            confirm(path, {"property": pid, "sub": sub, "seed": seed, "tier": tier, "part": v["part"],
                           "case": v["case"], "message": v["message"]}, v)
            print(f"sub-check {sub}: {short(v['message'])}")
            print(f"  case: {short(v['case'])}")
            print(f"VIOLATION property={pid} replay={path}")
        sys.stdout.flush()
        return 1
    if errors:
        for e in errors:
            print("HARNESS ERROR:", e)
        return 2
    print(f"OK property={pid} tier={tier} seed={seed} evaluations={evidence['coverage']['evaluations']} "
          f"nontrivial={total_nt} wall={evidence['wall_s']}s")
    return 0


def confirm(path, entry, v):
    """Write the replay file. If the shrunk case does not fail in a fresh process, try the case found first,
    and that one after the calls that went before it in its process."""
    for extra in ({}, {"case": v["first"]}, {"case": v["first"], "prelude": v["before"]}):
        if extra and "prelude" not in extra and v["first"] == v["case"]:
            continue
        e = dict(entry, **extra)
        with open(path, "w") as f:
            json.dump(e, f, indent=1)
        try:
            r = subprocess.run([PY, os.path.join(HERE, "check.py"), entry["property"], entry["tier"], "--replay", path],
                               stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=100)
        except subprocess.TimeoutExpired:
            return
        if r.returncode == 1:
            return


def fmt(m):
    return {k: float(f"{v:.3g}") for k, v in m.items()}


def replay(pid, path, tmp):
    cwd = os.path.join(tmp, "cwd")
    path = os.path.abspath(path)
    os.mkdir(cwd)
    os.chdir(cwd)
    from pbt import env
    real_out = os.dup(1)
    sink = os.open(os.path.join(tmp, "replay.log"), os.O_WRONLY | os.O_CREAT)
    os.dup2(sink, 1)
    env.setup()
    from pbt.core import Ctx, Violation, run_case
    from pbt.registry import load
    prop = load(pid)
    r = json.load(open(path))
    sub = prop.sub(r["sub"])
    ctx = Ctx(pid, sub, r.get("part", 0), sub.parts, r.get("seed", 1), r.get("tier", "quick"))
    msg = None
    for case in r.get("prelude", []):
        try:
            run_case(sub, ctx, case)
        except Violation:
            pass
    try:
        run_case(sub, ctx, r["case"])
    except Violation as v:
        msg = str(v)
    sys.stdout.flush()
    os.dup2(real_out, 1)
    if msg is not None:
        print(msg)
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    print(f"OK replay of {path}: the property holds on this case", ctx.maxima or "")
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
