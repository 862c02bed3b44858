"""Things shared by the runner, the workers and the checks."""
import hashlib
import json


class Violation(Exception):
    """The code under test breaks the property on this input."""


class HarnessError(Exception):
    """The machinery itself is broken; never reported as a violation."""


def dumps(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def digest(case):
    return hashlib.sha256(dumps(case).encode()).hexdigest()[:16]


def need(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def close(a, b, rel=1e-9, abs_=1e-12):
    return abs(a - b) <= max(abs_, rel * max(abs(a), abs(b)))
