"""A small history as its constructor makes it, and individuals to record."""

from .absint import Cls, Const, DefO, Infeasible, ListO, NONE, Term, Tup
from . import narr
from .model import config
from .pop_model import level, level_of
from .source import AnalysisBroken

NAMES = ("b", "a")


def opaque_hash(it, fun, args, kwargs, node, e):
    """The identity: the same for the same SSE and values (see C20)."""
    i = fun.selfv
    t = Term("identity", (it.T(it.getattr(i, "SSE")), it.T(it.getattr(i, "values"))))
    table = it.__dict__.setdefault("identities", [])
    if t not in table:
        table.append(t)
    return Const(100000 + 1000 * table.index(t))


def drawn(it, args, kwargs, node):
    """Random picks: each any of the population drawn from."""
    items = it.known_items(args[0])
    size = args[1] if len(args) > 1 else kwargs.get("size", NONE)
    shape = narr.shape_of(it, size)
    if items is None:
        raise AnalysisBroken("random choice from an unknown population")
    if size == NONE:
        return items[it.choose(len(items), node)]
    if shape is None:
        raise AnalysisBroken("random choice of unknown size")
    it.draws = getattr(it, "draws", 0) + 1
    if it.draws > 2:
        raise Infeasible()
    out = []
    for _ in range(narr.size(shape)):
        out.append(items[it.choose(len(items), node)])
    return narr.make(it, shape, out)


OPAQUE = {"Individual.__hash__": opaque_hash}


class Hist:
    """Explorations with a history of a given capacity."""

    def __init__(self, ctx, opaque=None, ext=None, **kw):
        self.ctx = ctx
        op = dict(OPAQUE)
        op.update(opaque or {})
        ex = {"numpy.random.choice": drawn}
        ex.update(ext or {})
        kw.setdefault("max_seconds", 15)
        kw.setdefault("max_while", 40)
        kw.setdefault("max_loop", 40)
        self.cfg = config(opaque=op, ext=ex, known_arrays=True, defer_fail=False, **kw)

    def explore(self, name, driver):
        a = self.ctx.explore(name, self.cfg, driver)
        self.ctx.need(a.paths, "no path for: " + name)
        return a


class Roster:
    """A history under test, with what its user knows about it."""

    def __init__(self, it, capacity, names=NAMES):
        self.it = it
        self.capacity = capacity
        self.names = names
        it.pop = it.sym_inst("Population", "p")
        it.inst(it.pop).fields["Nd"] = Const(len(names))
        self.h = it.call(Cls(it.repo.cls("History")),
                         [it.alloc(ListO([Const(x) for x in names]))],
                         {"N_max": Const(capacity)}, None)
        self.ever = {}           # row -> individual
        self.members = []        # recorded and not withdrawn
        self.never = []          # recorded as never in the population
        self.former = []         # recorded, then withdrawn
        self.fails = []
        self.n = 0

    def individual(self, lev, who=None, same=None):
        it = self.it
        self.n += 1
        who = who or "i%d" % self.n
        vals = narr.make(it, (len(self.names),), [Term("value", (who, k)) for k in range(len(
            self.names))])
        for k in range(len(self.names)):
            it.ranges[Term("value", (who, k))] = (0.0, 1.0)
        i = it.call(Cls(it.repo.cls("Individual")), [it.pop, vals], {}, None)
        sse = level(it, lev, who) if same is None else it.getattr(same, "SSE")
        it.setattr(i, "SSE", sse, None)
        return i

    def row(self, i):
        it = self.it
        return (it.T(it.getattr(i, "SSE")),) + tuple(
            it.T(x) for x in it.known_items(it.getattr(i, "values")))

    def call(self, name, *args, **kw):
        """The result of an operation, once it is through."""
        it = self.it
        v = it.call(it.getattr(self.h, name), list(args), kw, None)
        o = it.obj(v)
        while isinstance(o, DefO):
            if not o.ok:
                raise o.value
            v, o = o.value, it.obj(o.value)
        return v

    def add(self, i, never=False):
        """Adds, and keeps the books as the user would."""
        r = self.call("add", i, **({"neverInPop": Const(True)} if never else {}))
        self.ever[self.row(i)] = i
        (self.never if never else self.members).append(i)
        return r

    def withdraw(self, i):
        self.call("notInPop", i)
        if i in self.members:
            self.members.remove(i)
            self.former.append(i)

    def purge(self):
        self.call("purgePop")
        self.members = []

    def clear(self):
        self.call("clear")
        self.members, self.never, self.former = [], [], []

    def rows(self):
        """The recorded rows in the order of the roster, or None."""
        it = self.it
        n = it.bi_len([self.h], {}, None)
        if not isinstance(n, Const):
            return None
        out = []
        for k in range(n.v):
            r = it.known_items(it.getitem(self.h, Const(k)))
            if r is None:
                return None
            out.append(tuple(it.T(x) for x in r))
        return out
