"""A population as its constructor and setup leave it, with a few members."""

from .absint import Cls, Const, Infeasible, ListO, Term, TRUE, Tup
from . import narr
from .intervals import INF, interval
from .model import arrlen, config
from .source import AnalysisBroken

FUNC = Term("sym", ("func",))


def level(it, k, who):
    """An SSE of the k-th level: below all those of higher levels."""
    t = Term("sym", ("SSE", who))
    it.ranges[t] = (10.0 * k + 1, 10.0 * k + 2)
    return t


def level_of(it, sse):
    r = interval(it.ranges, it.T(sse))
    if r is None:
        return None
    if r == (INF, INF):
        return INF
    return int(r[0] // 10) if r[1] < 1e6 else None


def value(it, *key):
    """A parameter value."""
    t = Term("value", key)
    it.ranges[t] = (0.0, 1.0)
    return t


def opaque_vectors(it, fun, args, kwargs, node, e):
    n = it.getattr(it.pop, "Nd").v if getattr(it, "pop", None) is not None else 2
    return narr.make(it, (6, n), [value(it, "v%d" % e.i, r, c) for r in range(6) for c in range(n)])


def opaque_values(it, fun, args, kwargs, node, e):
    return args[0]


class Pop:
    """Explorations that start with a population of some SSE levels."""

    OPAQUE = {
        "History.__init__": "none", "History.clear": "deferred", "History.add": "deferred",
        "History.notInPop": "deferred", "History.purgePop": "deferred",
        "ParameterManager.__init__": "none",
        "ParameterManager.passesConstraints": lambda *a: TRUE,
        "ParameterManager.limit": opaque_values, "ParameterManager.fromUnity": opaque_vectors,
        "Reporter.__init__": "none", "Reporter.__call__": "none",
        "callOnAbort": "none", "KeyboardHolder.callOnAbort": "none",
    }

    def __init__(self, ctx, opaque=None, nd=2, **kw):
        self.ctx = ctx
        op = dict(self.OPAQUE)
        op.update(opaque or {})
        op = {k: v for k, v in op.items() if v is not None}
        self.nd = nd
        kw.setdefault("max_while", 12)
        kw.setdefault("max_loop", 12)
        self.cfg = config(opaque=op, arrlen=arrlen, user_sync=True, defer_fail=False, user_result=self.result,
                          known_arrays=True, **kw)

    def result(self, it, e):
        if not it.plan:
            raise Infeasible()
        n = len(it.made)
        v = level(it, it.plan.pop(0), "m%d" % n)
        it.made.append(v)
        return v

    def make(self, it, levels):
        """The population, set up with members of the given levels (if any)."""
        it.plan, it.made = list(levels), []
        nd = self.nd
        names = it.alloc(ListO([Const("p%d" % k) for k in range(nd)]))
        bounds = it.alloc(ListO([Tup([Const(0.0), Const(1.0)]) for k in range(nd)]))
        it.assume(Term("callable", (FUNC,)), True)
        it.pop = it.call(Cls(it.repo.cls("Population")), [FUNC, names, bounds], {}, None)
        if levels:
            it.setattr(it.pop, "Np", Const(len(levels)), None)
            self.setup(it, levels)
        return it.pop

    def setup(self, it, levels):
        it.plan = list(levels)
        it.call(it.getattr(it.pop, "setup"), [], {"uniform": TRUE}, None)
        if it.plan:
            raise Infeasible()

    def explore(self, name, driver):
        a = self.ctx.explore(name, self.cfg, driver)
        self.ctx.need(a.paths, "no population is made for: " + name)
        return a


def members(it):
    n = it.bi_len([it.pop], {}, None)
    if not isinstance(n, Const):
        raise AnalysisBroken("a population of unknown size")
    return [it.getitem(it.pop, Const(k)) for k in range(n.v)]


def vector(it, who):
    n = it.getattr(it.pop, "Nd").v
    return narr.make(it, (n,), [value(it, who, k) for k in range(n)])


def individual(it, k, who):
    """A new individual with an SSE of the k-th level."""
    i = it.call(Cls(it.repo.cls("Individual")), [it.pop, vector(it, who)],
                {}, None)
    it.setattr(i, "SSE", level(it, k, who), None)
    return i
