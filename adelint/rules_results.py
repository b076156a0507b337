"""
Kinds of evaluation results: how individuals compare (C15) and how the
improvement of one over another is classified (C32).
"""

import ast

from .absint import Cls, Const, Fun, NONE, Term
from .core import check
from .intervals import HUGE, INF, TINY, interval
from .model import ONE_POP, Roles, config
from .rules_run import where

NAN = float("nan")


class Result:
    """A kind of raw result: what an evaluation function may have returned."""

    def __init__(self, name, value=None, rng=None, usable=False, fatal=False):
        self.name, self.value, self.rng = name, value, rng
        self.usable, self.fatal = usable, fatal

    def raw(self, it, who):
        if self.rng is None:
            return self.value
        t = Term("sym", ("result", who))
        it.ranges[t] = self.rng
        return t

    def sse(self):
        """The range of SSEs it counts as."""
        if not self.usable:
            return INF, INF
        return (self.value.v, self.value.v) if self.rng is None else self.rng


UNUSABLE = [
    Result("missing", NONE),
    Result("fatal", rng=(-HUGE, -TINY), fatal=True),
    Result("minus infinity", Const(-INF), fatal=True),
    Result("infinite", Const(INF)),
    Result("not a number", Const(NAN)),
]
ZERO = [Result("zero", Const(0), usable=True), Result("zero", Const(0.0), usable=True)]
LOW = Result("low", rng=(1, 2), usable=True)
HIGH = Result("high", rng=(3, 4), usable=True)
ANY = Result("finite", rng=(TINY, HUGE), usable=True)


def individual(it, roles, res, who):
    """An individual with a given kind of result."""
    i = it.sym_inst("Individual", who)
    it.setattr(i, "SSE", res.raw(it, who), None)
    return i


OPS = {"<": ast.Lt(), ">": ast.Gt()}


def better(a, b):
    """Whether results of kind a are better than those of kind b."""
    x, y = a.sse(), b.sse()
    return True if x[1] < y[0] else (False if x[0] >= y[1] else None)


@check("C15", {
    "comparison": "of two results exactly the one with the lower SSE is better, unusable ones "
                  "being infinite",
    "number": "an individual's number is its SSE, or infinite if its result is unusable",
    "sse": "the SSE of an individual without a result or with a fatal one is infinite",
    "truth": "an individual is true unless its evaluation was fatal",
})
def c15(ctx):
    roles = Roles(ctx.repo)
    kinds = UNUSABLE + ZERO + [LOW, HIGH, ANY]
    here = where(ctx.repo.method("Individual", "__float__"))

    def explore(name, run):
        def driver(it):
            it.pop = it.sym_inst("Population", "p")
            return run(it)
        return ctx.explore(name, config(alias=ONE_POP), driver)

    def settled(p):
        return p.it.final if p.outcome == "return" else "an error"

    for a in kinds:
        def single(it):
            i = individual(it, roles, a, "a")
            it.final = it.truth(i)
            it.number = it.bi_float([i], {}, None)
            it.sse = it.getattr(i, "SSE")
            return NONE
        for p in explore("an individual (%s)" % a.name, single).paths:
            ok = p.outcome == "return"
            ctx.ob("truth", a.name, ok and p.it.final is (not a.fatal), here,
                   "an individual with a result that is %s is %s" % (a.name, settled(p)), p)
            r = interval(p.it.ranges, p.it.number) if ok else None
            ctx.ob("number", a.name, r == a.sse(), here,
                   "the number of an individual with a result that is %s is %s" % (
                       a.name, p.it.number if ok else "an error"), p)
            if a.name != "not a number":
                r = interval(p.it.ranges, p.it.T(p.it.sse)) if ok else None
                ctx.ob("sse", a.name, r == a.sse(), here,
                       "the SSE of an individual with a result that is %s is %s" % (
                           a.name, p.it.sse if ok else "an error"), p)
    # Of two individuals, and of an individual and a plain number
    for a in kinds:
        for b in kinds:
            ways = ["individuals"]
            if b.value is not NONE and not b.fatal and b.name != "not a number":
                ways.append("number")
            for way in ways:
                for op in OPS:
                    pair(ctx, roles, explore, here, a, b, way, op)
    # Two finite results of which nothing else is known
    for known in ("less", "equal", "more"):
        two_finite(ctx, roles, explore, here, known)


def pair(ctx, roles, explore, here, a, b, way, op):
    want = better(a, b) if op == "<" else better(b, a)
    if want is None:
        return

    def run(it):
        x = individual(it, roles, a, "a")
        y = individual(it, roles, b, "b") if way == "individuals" else b.raw(it, "b")
        it.final = it.truth(it.compare(OPS[op], x, y))
        it.other = it.final
        if way == "number":
            mirror = {"<": ">", ">": "<"}[op]
            it.other = it.truth(it.compare(OPS[mirror], y, x))
        return NONE
    name = "%s %s %s%s" % (a.name, op, b.name, "" if way == "individuals" else " (number)")
    for p in explore(name, run).paths:
        ok = p.outcome == "return" and p.it.final is want and p.it.other is want
        ctx.ob("comparison", name, ok, here, "%s is %s" % (
            name, p.it.final if p.outcome == "return" else "an error"), p)


def two_finite(ctx, roles, explore, here, known):
    def run(it):
        x = individual(it, roles, ANY, "a")
        y = individual(it, roles, ANY, "b")
        u, v = Term("sym", ("result", "a")), Term("sym", ("result", "b"))
        it.assume(Term("lt", (u, v)), known == "less")
        it.assume(Term("lt", (v, u)), known == "more")
        it.assume(it._eq(u, v), known == "equal")
        it.assume(Term("le", (u, v)), known != "more")
        it.assume(Term("le", (v, u)), known != "less")
        it.final = it.truth(it.compare(ast.Lt(), x, y)), it.truth(it.compare(ast.Gt(), x, y))
        return NONE
    for p in explore("two finite results (%s)" % known, run).paths:
        ok = p.outcome == "return" and p.it.final == (known == "less", known == "more")
        ctx.ob("comparison", "finite " + known, ok, here,
               "of two finite results the lower is not the better one", p)


# -- C32 ------------------------------------------------------------------------

#: Pairs of finite results: (target, challenger, kind, range of the ratio)
FINITE = [
    ("much better", (10, 12), (1, 1.1), "ratio"),
    ("better", (2.4, 2.45), (1, 1), "ratio"),
    ("somewhat better", (1.1, 1.2), (1, 1), "ratio"),
    ("barely better", (1.001, 1.002), (1, 1), "zero"),
    ("worse", (1, 1), (1.5, 3), "none"),
    ("a little worse", (1, 1), (1.03, 1.05), "none"),
    ("barely worse", (1, 1), (1.001, 1.002), "none"),
    ("equal", None, None, "zero"),
]


@check("C32", {
    "ratio": "the ratio is classified by the kinds of the two results",
    "never-fails": "no pair of results makes the comparison fail",
})
def c32(ctx):
    roles = Roles(ctx.repo)
    fi = ctx.repo.method("Reporter", "msgRatio")
    call = ctx.repo.method("Reporter", "__call__")
    kinds = UNUSABLE + ZERO
    cases = []
    fin = [ANY]
    for t in kinds + fin:
        for c in kinds + fin:
            cases.append((t, c, expected(t, c)))
    for name, tr, cr, kind in FINITE:
        if tr is None:
            cases.append((ANY, None, kind))
            continue
        cases.append((Result(name + ": target", rng=tr, usable=True),
                      Result(name, rng=cr, usable=True), kind))
    n = 0
    for t, c, want in cases:
        if want is None:
            continue
        for how in ("direct", "report"):
            n += 1
            ratio(ctx, roles, fi, call, t, c, want, how)
    ctx.need(n > 50, "too few pairs of results")


def expected(t, c):
    if t.fatal or c.fatal:
        return "none"
    if not t.usable:
        return "high" if c.usable else "zero"
    if not c.usable:
        return "zero"
    tz, cz = t.sse() == (0, 0), c.sse() == (0, 0)
    if tz and cz:
        return "zero or high"       # equivalent and zero at once
    if cz:
        return "high"
    if tz:
        return "none"               # the challenger is worse
    return None


def ratio(ctx, roles, fi, call, t, c, want, how):
    def driver(it):
        it.pop = it.sym_inst("Population", "p")
        it.rep = it.call(Cls(ctx.repo.cls("Reporter")), [it.pop], {}, None)
        it.t = individual(it, roles, t, "t")
        it.rt = it.T(it.getattr(it.t, roles.raw))
        if c is None:
            # An equal one
            it.c = it.sym_inst("Individual", "c")
            it.setattr(it.c, "SSE", it.rt, None)
        else:
            it.c = individual(it, roles, c, "c")
        it.rc = it.T(it.getattr(it.c, roles.raw))
        if how == "direct":
            return it.call_fun(Fun(fi, None, it.rep), [it.t, it.c], {})
        it.inst(it.rep).fields["iBest"] = NONE
        return it.call_fun(Fun(call, None, it.rep), [it.c, it.t], {})
    cn = "equal" if c is None else c.name
    name = "%s to %s" % (t.name, cn)
    f = fi if how == "direct" else call
    a = ctx.explore("%s (%s)" % (f.qual, name), config(alias=ONE_POP, opaque={
        "Reporter.newBest": "none", "Population.replacement": "none"}), driver)
    for p in a.paths:
        ok = p.outcome == "return"
        ctx.ob("never-fails", name, ok, where(f), "comparing %s fails: %s" % (name, p.value), p)
        if not ok:
            continue
        v = p.it.T(p.value)
        ctx.ob("ratio", name, matches(p, v, want), where(f),
               "the ratio from %s is %r" % (name, v), p)


def matches(p, v, want):
    r = interval(p.it.ranges, v)
    if "none" in want and v == NONE:
        return True
    if "zero" in want and r == (0, 0):
        return True
    if "high" in want and r is not None and r[0] >= 100:
        return True
    if want == "ratio":
        q = Term("/", (strip(p.it.rt), strip(p.it.rc)))
        if not isinstance(v, Term) or r is None:
            return r is not None and r == interval(p.it.ranges, Term("np.round", (q,)))
        x = v
        while isinstance(x, Term) and x.op in ("float", "int"):
            x = x.args[0]
        if not (isinstance(x, Term) and x.op in ("np.round", "round", "np.rint", "np.around")):
            return False
        return strip(x.args[0]) == q and len(x.args) == 1
    return False


def strip(t):
    if isinstance(t, Term):
        if t.op == "float":
            return strip(t.args[0])
        return Term(t.op, tuple(strip(x) for x in t.args))
    return t
