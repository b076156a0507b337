"""
An interval domain for numbers: terms given a range (closed, without NaN)
and what follows for sums, quotients and so on of them.
"""

import math

from .absint import Const, Term, strip_float

INF = float("inf")
TINY = 5e-324
HUGE = 1.7976931348623157e308


def interval(ranges, t):
    """(lo, hi) of a number that is known not to be NaN, or None."""
    r = ranges.get(t)
    if r is not None:
        return r
    if isinstance(t, Const):
        v = t.v
        if isinstance(v, bool) or not isinstance(v, (int, float)) or v != v:
            return None
        return v, v
    if not isinstance(t, Term):
        return None
    op = t.op
    if op not in OPS:
        return None
    args = [interval(ranges, x) for x in t.args]
    if not args or any(x is None for x in args):
        return None
    if op in ("/", "-") and len(args) == 2 and strip_float(t.args[0]) == strip_float(t.args[1]):
        x = args[0]
        if -INF < x[0] and x[1] < INF:
            if op == "-":
                return 0, 0
            if x[0] > 0 or x[1] < 0:
                return 1, 1
    try:
        r = OPS[op](*args)
    except (TypeError, OverflowError, ValueError):
        return None
    if r is None or r[0] != r[0] or r[1] != r[1]:
        return None
    return r


def _corners(f, x, y):
    c = [f(a, b) for a in x for b in y]
    if any(v != v for v in c):
        return None
    return min(c), max(c)


def _div(x, y):
    if y[0] <= 0 <= y[1]:
        return None
    if INF in x + y or -INF in x + y:
        if (INF in x or -INF in x) and (INF in y or -INF in y):
            return None
    return _corners(lambda a, b: a / b, x, y)


def _abs(x):
    if x[0] <= 0 <= x[1]:
        return 0, max(-x[0], x[1])
    return min(abs(x[0]), abs(x[1])), max(abs(x[0]), abs(x[1]))


def _mono(f):
    return lambda x, *rest: None if rest or INF in x or -INF in x else (f(x[0]), f(x[1]))


OPS = {
    "float": lambda x: x,
    "+": lambda x, y: (x[0] + y[0], x[1] + y[1]),
    "-": lambda x, y: (x[0] - y[1], x[1] - y[0]),
    "*": lambda x, y: _corners(lambda a, b: a * b, x, y),
    "/": _div,
    "abs": _abs, "np.abs": _abs, "np.absolute": _abs, "np.fabs": _abs,
    "neg": lambda x: (-x[1], -x[0]),
    "np.round": _mono(lambda v: float(round(v))), "round": _mono(lambda v: float(round(v))),
    "np.rint": _mono(lambda v: float(round(v))), "np.around": _mono(lambda v: float(round(v))),
    "np.floor": _mono(math.floor), "np.ceil": _mono(math.ceil),
    "int": _mono(int),
    "min": lambda *a: (min(x[0] for x in a), min(x[1] for x in a)),
    "max": lambda *a: (max(x[0] for x in a), max(x[1] for x in a)),
}


def decide(ranges, atom):
    """Whether the ranges settle an atomic fact."""
    op, a = atom.op, atom.args
    if op in ("lt", "le", "eq"):
        x, y = interval(ranges, a[0]), interval(ranges, a[1])
        if op == "eq" and (x is None) != (y is None):
            other = a[1] if y is None else a[0]
            if isinstance(other, Const) and not isinstance(other.v, (int, float)):
                return False
        if x is None or y is None:
            return None
        if op == "lt":
            return True if x[1] < y[0] else (False if x[0] >= y[1] else None)
        if op == "le":
            return True if x[1] <= y[0] else (False if x[0] > y[1] else None)
        if x[1] < y[0] or y[1] < x[0]:
            return False
        if x[0] == x[1] == y[0] == y[1]:
            return True
        return None
    if op == "is" and isinstance(a[1], Const) and (
            a[1].v is None or isinstance(a[1].v, bool)):
        return False if interval(ranges, a[0]) is not None else None
    if op == "truthy":
        t = a[0]
        x = interval(ranges, t)
        if x is not None:
            if x[0] > 0 or x[1] < 0:
                return True
            return False if x == (0, 0) else None
        if isinstance(t, Term) and t.op in (
                "np.isnan", "np.isinf", "np.isfinite", "np.isposinf", "np.isneginf",
                "math.isnan", "math.isinf", "math.isfinite") and len(t.args) == 1:
            x = interval(ranges, t.args[0])
            if x is None:
                return None
            if t.op.endswith("isnan"):
                return False
            finite = -INF < x[0] and x[1] < INF
            inf = x[0] == INF or x[1] == -INF
            if not finite and not inf:
                return None
            if t.op.endswith("isfinite"):
                return finite
            if finite:
                return False
            return {"np.isposinf": x[0] == INF, "np.isneginf": x[1] == -INF}.get(t.op, True)
    return None
