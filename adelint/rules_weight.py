"""
The mutation weight: C12.
"""

from .absint import Cls, Const, FALSE, Fun, ListO, NONE, Term, TRUE, Tup
from .arrays import ARRAYS, Range, is_unit
from .core import check
from .model import config
from .order import Order, feasible
from .rules_run import Stopping, adapted, run_failed, verdicts, where
from .run_model import DE, P, Run

L, H, S = [Term("sym", (n,)) for n in ("low", "high", "single")]
CR, NPOP = Term("sym", ("CR",)), Term("sym", ("Np",))
LO, HI = Term("sym", ("from",)), Term("sym", ("to",))
DEPTH = 3


class Weight:
    """
    The states of a weight made from F, along all sequences of
    adaptations up to a length.
    """

    def __init__(self, ctx, name, F, adaptive, depth, facts=()):
        self.F = F
        self.facts = facts
        self.adaptive = adaptive
        self.cls = ctx.repo.cls("FManager")
        self.fi = {n: ctx.repo.method("FManager", n) for n in ("up", "down", "get")}
        self.depth = depth
        self.name = name
        a = ctx.explore("FManager (%s)" % name, config(max_while=3), self.driver)
        self.paths = [p for p in a.paths if feasible(p, self.positive)]
        ctx.need(self.paths, "no way of adapting the weight (%s)" % name)

    @staticmethod
    def positive(t):
        return t in (L, H, S, NPOP)

    def driver(self, it):
        for t in (L, H, S, NPOP):
            it.assume(Term("lt", (Const(0), t)), True)
            it.assume(it._eq(t, Const(0)), False)
            it.assume(Term("truthy", (t,)), True)
        it.assume(Term("hasattr", (S, Const("__iter__"))), False)
        it.assume(Term("hasattr", (S, Const("__len__"))), False)
        it.assume(Term("hasattr", (S, Const("__getitem__"))), False)
        it.assume(Term("lt", (L, H)), True)
        for f in self.facts:
            it.assume(f, True)
        it.user = F = self.F(it)
        it.fm = it.call(Cls(self.cls), [F, CR, NPOP], {"adaptive": self.adaptive}, None)
        it.states = [self.state(it)]
        it.ops = []
        for n in range(self.depth):
            c = it.choose(2, self.fi["up"].node, lambda c: "adapts " + ("up", "down")[c])
            op = ("up", "down")[c]
            it.call(it.getattr(it.fm, op), [], {}, None)
            it.ops.append(op)
            it.states.append(self.state(it))
        it.critical = it.T(it.getattr(it.fm, "criticalF"))
        n = len(it.events)
        v = it.call(it.getattr(it.fm, "get"), [], {}, None)
        return v

    @staticmethod
    def state(it):
        return (it.T(it.getattr(it.fm, "lowest")), it.T(it.getattr(it.fm, "highest")),
                it.getattr(it.fm, "limited"), len(it.fact_list))


@check("C12", {
    "not-above": "neither end of the range rises above its configured value",
    "not-critical": "the lower end is lowered only to a value above the critical one",
    "stays-a-range": "the upper end of a range stays above the lower",
    "down-lowers": "adapting down never raises, and lowers unless the limit is reached",
    "up-raises": "adapting up never lowers, and raises what had been lowered",
    "limit-known": "the limit counts as reached from a failed reduction to the next increase",
    "fixed": "without adaptation nothing changes",
    "zero-is-critical": "a lower end of zero stands for the critical value",
    "critical-value": "the critical value is the root of (1 - CR/2)/Np",
    "within": "each value drawn lies within the current range",
    "own-copy": "the user's range is not changed",
    "by-verdict": "the weight goes down after insufficient improvement, else up",
    "as-configured": "a run starts with the configured weight",
})
def c12(ctx):
    def seq(it):
        return it.alloc(ListO([L, H], Term("sym", ("F",))))

    def tup(it):
        return Tup([L, H])

    def one(it):
        return S

    def zero(it):
        return it.alloc(ListO([Const(0), H], Term("sym", ("F",))))

    def zero_t(it):
        return Tup([Const(0.0), H])
    for name, F, depth in (("a list", seq, DEPTH), ("a range", tup, 2),
                           ("a single value", one, DEPTH)):
        judge(ctx, Weight(ctx, name, F, TRUE, depth), True)
    for name, F in (("a list", seq), ("a single value", one)):
        judge(ctx, Weight(ctx, name + ", not adaptive", F, FALSE, 2), False)
    for name, F in (("from zero", zero), ("from 0.0", zero_t)):
        judge(ctx, Weight(ctx, name, F, TRUE, 2), False, zero=True)
    critical(ctx)
    use(ctx)


def judge(ctx, w, adaptive, zero=False):
    q = "FManager, %s" % w.name
    for p in w.paths:
        if p.outcome != "return":
            ctx.ob("fixed" if not adaptive else "down-lowers", q, False, where(w.fi["down"]),
                   "adapting fails", p)
            continue
        it = p.it
        first = it.states[0]
        C = it.critical
        single = it.user == S
        if zero:
            ctx.ob("zero-is-critical", q, first[0] == C, where(w.fi["get"]),
                   "the lower end is %r" % (first[0],), p)
        else:
            want = (S, S) if single else (L, H)
            ctx.ob("within", q + " at first", first[:2] == want, where(w.fi["get"]),
                   "the range is %r for a configured %r" % (first[:2], want), p)
        ctx.ob("limit-known", q + " at first", first[2] == FALSE, where(w.fi["down"]),
               "the limit counts as reached before any adaptation", p)
        lowered = False
        for op, old, new in zip(it.ops, it.states, it.states[1:]):
            f = w.fi[op]
            o = Order(p, positive_of(w, C), upto=new[3])
            changed = old[:2] != new[:2]
            if not adaptive:
                ctx.ob("fixed", q, not changed and new[2] == old[2], where(f),
                       "adapting %s makes it %r" % (op, new[:3]), p)
                continue
            for k, (x, y, top, end) in enumerate(zip(old, new, first, ("lower", "upper"))):
                if k and single:
                    break
                ctx.ob("not-above", "%s, %s end, %s" % (q, end, op), o.le(y, top), where(f),
                       "the %s end becomes %r, configured is %r" % (end, y, top), p)
                if y != x and k == 0:
                    ctx.ob("not-critical", "%s, %s end, %s" % (q, end, op),
                           o.lt(C, y) or o.le(x, y), where(f),
                           "the %s end becomes %r, critical is %r" % (end, y, C), p)
                if op == "down":
                    ctx.ob("down-lowers", "%s, %s end" % (q, end), o.le(y, x), where(f),
                           "the %s end goes from %r to %r" % (end, x, y), p)
                else:
                    ctx.ob("up-raises", "%s, %s end" % (q, end), o.le(x, y), where(f),
                           "the %s end goes from %r to %r" % (end, x, y), p)
            if not single:
                ctx.ob("stays-a-range", "%s, %s" % (q, op), o.lt(new[0], new[1]), where(f),
                       "the range becomes %r" % (new[:2],), p)
            if op == "up":
                below = [k for k in range(2) if o.lt(old[k], first[k])]
                if below:
                    ok = any(o.lt(old[k], new[k]) for k in below)
                    ctx.ob("up-raises", q, ok, where(f), "the range stays at %r, configured "
                           "is %r" % (new[:2], first[:2]), p)
                ctx.ob("limit-known", q + ", up", new[2] == FALSE, where(f),
                       "the limit still counts as reached after an increase", p)
            else:
                lower = any(o.lt(new[k], old[k]) for k in range(2))
                if not lower:
                    ctx.ob("limit-known", q + ", down", new[2] == TRUE, where(f),
                           "there is no reduction and the limit does not count as reached", p)
                elif old[2] == FALSE:
                    ctx.ob("limit-known", q + ", down", new[2] == FALSE, where(f),
                           "there is a reduction and the limit counts as reached", p)
        drawn(ctx, w, p, q)
        bad = [e for e in p.events if e.kind == "mutate" and e.d.get("obj") == it.user]
        ul = it.known_items(it.user)
        if ul is not None:
            want = [x for x in ([L, H] if not zero else [Const(0), H])]
            got = [it.T(x) for x in ul]
            ok = [g == x or isinstance(x, Const) and isinstance(g, Const) and g.v == x.v
                  for g, x in zip(got, want)]
            ctx.ob("own-copy", q, all(ok) and len(got) == 2 and not bad, where(w.fi["down"]),
                   "the user's range becomes %r" % (got,), p)


def positive_of(w, C):
    return lambda t: w.positive(t) or t == C


def drawn(ctx, w, p, q):
    it = p.it
    lo, hi = it.states[-1][:2]
    v = it.T(p.value)
    if it.user == S:
        ctx.ob("within", q, v == lo, where(w.fi["get"]), "%r is drawn for %r" % (v, lo), p)
        return
    ok = False
    if isinstance(v, Term) and v.op in ("ext:random.uniform", "np.random.uniform") \
       and len(v.args) >= 2:
        ok = tuple(v.args[:2]) == (lo, hi)
    else:
        v2 = replaced(v, {lo: LO, hi: HI})
        ok = Range(ARRAYS, p, LO, HI, unit=is_unit).within(v2)
        ok = ok and any(e.kind == "ext" and "random" in str(e.d["f"]) for e in p.events)
    ctx.ob("within", q, ok, where(w.fi["get"]), "%r is drawn from a range of %r to %r" % (
        v, lo, hi), p)


def replaced(t, by):
    if t in by:
        return by[t]
    if isinstance(t, Term):
        return Term(t.op, [replaced(x, by) for x in t.args])
    return t


def critical(ctx):
    fi = ctx.repo.method("FManager", "__init__")
    for cr, n in ((0.8, 20), (0.0, 100), (1.0, 50)):
        def driver(it):
            fm = it.call(Cls(ctx.repo.cls("FManager")), [Tup([L, H]), Const(cr), Const(n)], {},
                         None)
            it.assume(Term("lt", (Const(0), L)), True)
            return it.getattr(fm, "criticalF")
        a = ctx.explore("FManager (critical value)", config(), driver)
        want = ((1.0 - 0.5 * cr) / n) ** 0.5
        for p in a.paths:
            if p.fact(p.it._eq(L, Const(0))) is True:
                continue
            v = p.it.T(p.value)
            ok = isinstance(v, Const) and isinstance(v.v, float) and abs(v.v - want) < 1e-9
            ctx.ob("critical-value", fi.qual, ok, where(fi),
                   "for CR=%r and Np=%r it is %r" % (cr, n, v), p)


def use(ctx):
    run = Stopping(ctx, True, 1, 3, goal=NONE, name="adaptation")
    n = 0
    for p in run.paths:
        if run_failed(p):
            continue
        gens = run.generations(p)
        for k, (ok, limited) in enumerate(verdicts(run, p, gens)):
            n += 1
            adapted(ctx, run, p, gens, k, ok, "by-verdict")
    ctx.need(n, "no run adapts its weight")
    other = Run(ctx, np=1, maxiter=1, steady=True, quiet=True, goal=NONE, dwell=Const(5),
                random_base=FALSE, bitter=FALSE, name="configuration")
    params = [a.arg for a in ctx.repo.method("FManager", "__init__").node.args.args][1:]
    for p in other.paths:
        for e in p.find("call"):
            if e.d["f"] != "FManager.__init__":
                continue
            given = dict(zip(params, e.d["args"]))
            given.update(e.d["kwargs"])
            for name in ("F", "CR", "adaptive"):
                v = given.get(name)
                ctx.ob("as-configured", "%s, %s" % (run.fi.qual, name), v is not None
                       and p.it.T(v) == Term("fld", (DE, name, "")), e,
                       "a run uses %r" % (v,), p)
            v = given.get("Np")
            ctx.ob("as-configured", run.fi.qual + ", Np", v == Const(1), e,
                   "a run uses %r for the population size" % (v,), p)
