"""What a property check is made of: sub-checks over generated cases, verdicts and coverage records."""
import hashlib
import json
import math
import os

import numpy as np


class Violation(Exception):
    """The property does not hold for this case."""


class HarnessError(Exception):
    """The check cannot judge: a defect of the check, never a verdict on the code."""


class Sub:
    """One executable statement of (a clause of) a property.

    strategy: zero-argument callable giving a Hypothesis strategy of JSON-able cases
    check:    callable(case, rec); raises Violation, returns nothing
    """

    def __init__(self, name, strategy, check, quick, thorough=None, shards=None, clause=""):
        self.name, self.strategy, self.check = name, strategy, check
        self.quick = quick
        self.thorough = thorough or quick * 20
        self.shards = shards
        self.clause = clause


class Prop:
    def __init__(self, pid, rule, subs, assumptions=()):
        self.pid, self.rule, self.subs = pid, rule, subs
        self.assumptions = list(assumptions)

    def sub(self, name):
        for s in self.subs:
            if s.name == name:
                return s
        raise HarnessError("no sub-check %r in %s" % (name, self.pid))


class Rec:
    """Record of one case: is it non-trivial, and which situations did it reach."""

    def __init__(self):
        self.labels = []
        self.nontrivial = False

    def hit(self, label=None):
        """The case exercised what the property is about."""
        self.nontrivial = True
        if label:
            self.labels.append(label)

    def note(self, label):
        self.labels.append(label)


def case_key(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()


def derive_seed(*parts):
    h = hashlib.sha256("|".join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:6], "big")


# ---------------------------------------------------------------- assertions

def require(cond, msg, *args):
    if not bool(cond):
        raise Violation(msg % args if args else msg)


def close(a, b, atol=1e-6, rtol=1e-6):
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    return bool(np.all((np.abs(a - b) <= atol + rtol * np.abs(b)) | (np.isnan(a) & np.isnan(b)) | (a == b)))


def require_close(a, b, msg, atol=1e-6, rtol=1e-6):
    if not close(a, b, atol, rtol):
        raise Violation("%s: got %s, expected %s" % (msg, fmt(a), fmt(b)))


def fmt(x):
    try:
        return np.array2string(np.asarray(x, dtype=float), precision=9, threshold=60)
    except Exception:
        return repr(x)[:400]


def wrap(x):
    """Angle to [-pi, pi), own implementation."""
    return math.atan2(math.sin(x), math.cos(x))
