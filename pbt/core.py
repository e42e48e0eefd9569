"""Core of the property-based testing framework.

A property module (pbt/props/cNN.py) exposes PROP, a Prop made of Subs. A Sub
is one executable property: a Hypothesis strategy that yields a JSON-able case
and a check(ctx, case) that judges the code under test on that case.

check() raises Violation when the property is broken, and returns a truthy
value when the case was non-trivial by the sub's rule. An exception that comes
out of the code under test on a case the property covers is a violation too, and
so is one that a library or the check raises because it cannot use what the code
offers or returned; any other exception is a harness error (exit status 2).
"""
import hashlib
import json
import math
import os
import sys
import time
import traceback


class Violation(Exception):
    pass


class Sub:
    def __init__(self, name, strategy, check, quick, thorough=None, parts=1,
                 rule="", examples=None, cost=1.0):
        self.name = name
        self.strategy = strategy        # strategy(ctx) -> hypothesis strategy
        self.check = check              # check(ctx, case) -> truthy if non-trivial
        self.quick = quick              # examples over all parts
        self.thorough = thorough or quick * 10
        self.parts = parts              # how many parallel units
        self.rule = rule
        self.examples = examples or []  # fixed corner cases, always run
        self.cost = cost                # relative cost for load balancing


class Prop:
    def __init__(self, pid, subs, rule, assumptions=None, quick_budget=240, thorough_budget=3000):
        self.pid = pid
        self.subs = subs
        self.rule = rule
        self.assumptions = assumptions or []
        self.quick_budget = quick_budget
        self.thorough_budget = thorough_budget

    def sub(self, name):
        for s in self.subs:
            if s.name == name:
                return s
        raise KeyError(name)


class Ctx:
    """What a check sees: its place in the run, and a place to note labels."""

    def __init__(self, pid, sub, part, parts, seed, tier):
        self.pid, self.sub, self.part, self.parts = pid, sub, part, parts
        self.seed, self.tier = seed, tier
        self.labels = {}
        self.maxima = {}

    @property
    def thorough(self):
        return self.tier == "thorough"

    def label(self, name):
        self.labels[name] = self.labels.get(name, 0) + 1

    def maximum(self, name, value):
        value = float(value)
        if not value <= self.maxima.get(name, -math.inf):
            self.maxima[name] = value

    def pick(self, seq):
        """Rotate seq over the parts (and the seed), for values that cost a compile."""
        seq = list(seq)
        return seq[(self.part + self.seed - 1) % len(seq)]

    def share(self, seq):
        """The slice of seq this part is in charge of; over all parts it covers seq."""
        seq = list(seq)
        out = seq[self.part % len(seq)::self.parts] if self.parts <= len(seq) else [seq[self.part % len(seq)]]
        return out


def fail(msg):
    raise Violation(msg)


def require(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


def case_hash(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


def repo_dir():
    return os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))


def from_code_under_test(exc):
    base = os.path.join(repo_dir(), "ormatex_py") + os.sep
    tb = exc.__traceback__
    seen = []
    e = exc
    while e is not None and id(e) not in seen:
        seen.append(id(e))
        for fr in traceback.extract_tb(e.__traceback__):
            if os.path.realpath(fr.filename).startswith(base):
                return True
        e = e.__cause__ or e.__context__
    return False


def short(x, n=1500):
    s = x if isinstance(x, str) else json.dumps(x, sort_keys=True)
    return s if len(s) <= n else s[:n] + "..."


UNUSABLE = (TypeError, AttributeError, ValueError, LookupError, ArithmeticError, AssertionError, ImportError)


def run_case(sub, ctx, case):
    """Judge one case. Returns (nontrivial). Raises Violation or a harness error."""
    try:
        return bool(sub.check(ctx, case))
    except Violation:
        raise
    except (KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except Exception as e:
        if from_code_under_test(e):
            last = traceback.extract_tb(e.__traceback__)
            where = [f"{os.path.basename(f.filename)}:{f.lineno}" for f in last
                     if os.path.realpath(f.filename).startswith(repo_dir() + os.sep)]
            raise Violation(f"unexpected {type(e).__name__} from the code under test at "
                            f"{' > '.join(where[-3:])}: {str(e)[:300]}") from e
        if isinstance(e, UNUSABLE):
            # raised by a library or by the check itself on what the code handed over: a field that was never set,
            # an argument no longer taken, a result of another shape or type
            where = [f"{os.path.basename(f.filename)}:{f.lineno}" for f in traceback.extract_tb(e.__traceback__)]
            raise Violation(f"what the code under test offers or returned cannot be used: {type(e).__name__} at "
                            f"{' > '.join(where[-3:])}: {str(e)[:300]}") from e
        raise
