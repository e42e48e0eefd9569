"""Known findings: /verif/known_findings.jsonl.

Each line is {"status": "known"|"fixed", "property", "sub", "case", "what", "commit"?}.
A "known" entry names one specific failing case. It is replayed on every run: while it
fails, a KNOWN-FINDING line is printed; a violation on any other case is still reported.
"fixed" entries are a record only and suppress nothing.
"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILE = os.path.join(HERE, "known_findings.jsonl")


def entries(pid=None):
    if not os.path.exists(FILE):
        return []
    out = []
    for line in open(FILE):
        line = line.strip()
        if line:
            d = json.loads(line)
            if pid is None or d["property"] == pid:
                out.append(d)
    return out


def is_known(pid, sub, v):
    from pbt.core import case_hash
    return any(e["status"] == "known" and e.get("sub") == sub and e.get("case") is not None
               and case_hash(e["case"]) == case_hash(v["case"]) for e in entries(pid))


def run_known(pid, prop, seed, tier):
    return [f"KNOWN-FINDING: property={pid} {e['what']}" for e in entries(pid) if e["status"] == "known"]
