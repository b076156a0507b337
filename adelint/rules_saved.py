"""
A population that was saved and loaded again (C19).
"""

import itertools

from . import narr, saved_model
from .absint import Cls, Const, Ext, Infeasible, ListO, LockO, NONE, PyRaise, Ref, TRUE, Term, Tup
from .core import check
from .files_model import HOME
from .hist_model import Hist, OPAQUE, drawn
from .intervals import INF
from .pop_model import Pop, level, members, value
from .rules_history import KINDS, ORDERS, Books, failure, fill, row
from .rules_run import where

C19 = {
    "saves": "a population can be saved in every state and loaded again",
    "members": "every member comes back in its place, with its values, SSE and evaluation time, as "
               "one of the loaded population",
    "parameters": "names, bounds and constraints come back",
    "configuration": "the configuration comes back",
    "history": "the records come back, in order, each still that of a member, of a former member "
               "or of one that never was a member",
    "locks": "there is one free lock for each member, shared with nobody",
    "recreated": "the evaluation function, the reporting and the reaction to an abort are those of "
                 "the loaded population",
    "operations": "operations of the loaded population do what they do on the saved one",
}

FUNC, NEWFUNC = "user.func", "user.func2"
LOCAL = "user.local"
CONSTRAINTS = ("user.constraint0", "user.constraint1")
NAMES = ("b", "a")
BOUNDS = ((-2.0, 3.0), (10.0, 20.0))
#: the largest of the integers of a type
SHORT = {"u1": 255, "i1": 127, "uint8": 255, "int8": 127, "B": 255, "b": 127, "ubyte": 255,
         "byte": 127, "i2": 32767, "int16": 32767, "h": 32767, "short": 32767}


def rounding(it, v, items, less):
    """What storing numbers as a smaller type does to them."""
    name = v.path.rsplit(".", 1)[-1] if isinstance(v, Ext) else v.v if isinstance(
        v, Const) and isinstance(v.v, str) else None
    name = name.lstrip("<>=|") if name else name
    if less:
        out = []
        for x in items:
            x = it.T(x)
            if isinstance(x, Const):
                out.append(x)
                continue
            t = x if x.op == "rounded" else Term("rounded", (x,))
            if x in it.ranges:
                it.ranges[t] = it.ranges[x]
            out.append(t)
        return out
    if name in SHORT:
        it.shortened = name
    return items


# -- the history -------------------------------------------------------------------

class Kept(Books):
    """A roster that is saved and loaded every now and then."""

    def ob(self, rule, ok, what):
        self.it.judged.append(("history", self.name, bool(ok), what))

    def state(self, op):
        """Also judges what the history tells about each kind of records."""
        rows = Books.state(self, op)
        it = self.it
        for kind, group in (("inPop", self.members), ("neverInPop", self.never),
                            ("notInPop", self.former)):
            names = it.alloc(ListO([Const(x) for x in self.names]))
            v = self.call("value_vs_SSE", names, **{kind: TRUE})
            cols = [it.known_items(x) for x in it.known_items(v)]
            got = sorted(zip(*[[it.T(x) for x in c] for c in cols]), key=repr)
            want = sorted((self.row(i) for i in group), key=repr)
            self.ob("history", got == want, "after %s the history has %s for the records %s (%s)" % (
                op, got, want, kind))
        return rows

    def reload(self):
        it = self.it
        before, total = self.rows(), it.getattr(self.h, "N_total")
        h = saved_model.loads(it, saved_model.dumps(it, self.h, None), None)
        old, self.h = self.h, h
        self.ob("history", self.rows() == before, "%s are loaded for the records %s" % (
            self.rows(), before))
        for name in ("N_max", "N_total"):
            self.ob("history", it.T(it.getattr(h, name)) == it.T(it.getattr(old, name)),
                    "%s is another after loading" % name)
        names = it.known_items(it.getattr(h, "names"))
        self.ob("history", names == [Const(x) for x in self.names],
                "the names are %s after loading" % (names,))
        self.state("loading")


def histories(ctx):
    out = []
    for n in (1, 2, 3):
        for kinds in itertools.product(KINDS, repeat=n):
            label = "%d rows: %s" % (n, ", ".join(kinds))
            levels = ORDERS[n][0]

            def full(b, kinds=kinds, levels=levels, n=n):
                made = fill(b, kinds, levels)
                b.reload()
                for lev in (1, 8)[:1 if n > 2 else 2]:
                    b.put(b.individual(lev), never=lev == 8)
                for kind, i in zip(kinds, made):
                    if kind == "member":
                        b.leave(i)
                        break
                b.put(b.individual(4))
            out.append((label + "; loaded, then more", n, full))

            def purged(b, kinds=kinds, levels=levels):
                fill(b, kinds, levels)
                b.reload()
                b.drop_members()
                b.reload()
                b.put(b.individual(2))
                b.put(b.individual(9), never=True)
            if "member" in kinds:
                out.append((label + "; loaded, then purged", n + 1, purged))

    def empty(b):
        b.reload()
        i = b.put(b.individual(3))
        b.reload()
        b.leave(i)
        b.reload()
        b.put(b.individual(4), never=True)
        b.put(b.individual(2))
    out.append(("an empty history; loaded, then used", 2, empty))

    def gaps(b):
        ms = fill(b, ("member", "never", "member", "former"), ORDERS[4][0])
        b.drop_members()
        b.reload()
        b.put(b.individual(1))
        b.put(b.individual(9))
        b.put(b.individual(2))
        b.leave(ms[0])
    out.append(("rows that are free again; loaded, then used", 4, gaps))

    def cleared(b):
        fill(b, ("member", "never"), (3, 7))
        b.reload()
        b.empty()
        b.put(b.individual(1))
        b.reload()
        b.put(b.individual(2), never=True)
        b.put(b.individual(4), never=True)
    out.append(("loaded, then cleared", 2, cleared))
    return out


def history(ctx):
    here = where(ctx.repo.method("History", "__setstate__"))
    ext = saved_model.ext()
    hm = Hist(ctx, ext=ext)
    for name, n, f in histories(ctx):
        def driver(it):
            it.judged = []
            it.rounding = rounding
            saved_model.Vault(it)
            f(Kept(ctx, it, n, name, here, {"history"}))
            return NONE
        for p in hm.explore("History: " + name, driver).paths:
            for rule, key, ok, what in p.it.judged:
                ctx.ob(rule, key, ok, here, what, p)
            ctx.ob("history", name, p.outcome == "return", here,
                   "an operation of the loaded history fails: %s" % (failure(p),), p)
            short = getattr(p.it, "shortened", None)
            if short is not None:
                most = p.it.getattr(Cls(ctx.repo.cls("History")), "N_max")
                ctx.ob("history", "numbers", isinstance(most, Const) and most.v - 1 <= SHORT[short],
                       here, "the numbers of the rows are saved as %s" % short, p)


# -- the population ----------------------------------------------------------------

def random_values(it, args, kw, node):
    shape = narr.shape_of(it, kw["size"] if "size" in kw else args[2])
    it.drawn = getattr(it, "drawn", 0) + 1
    out = []
    for k in range(narr.size(shape)):
        t = value(it, "u%d" % it.drawn, k)
        it.ranges[t] = (0.1, 0.9)
        out.append(t)
    return narr.make(it, shape, out)


def evaluation(which):
    def f(it, args, kw, node):
        it.evaluated.append((which, [it.T(x) for x in it.known_items(args[0]) or ()]))
        if not it.plan:
            return level(it, 5, "e%d" % len(it.evaluated))
        return level(it, it.plan.pop(0), "e%d" % len(it.evaluated))
    return f


def constraint(which):
    def f(it, args, kw, node):
        d = it.obj(args[0])
        it.tested.append((which, sorted((k.v, repr(it.T(x))) for k, x in d.items.items())))
        return Const(it.passing)
    return f


def callback(it, args, kw, node):
    it.reported.append([it.T(x) for x in args if not isinstance(x, Ref)]
                       + [[it.T(y) for y in it.known_items(x)] for x in args
                          if isinstance(x, Ref) and it.known_items(x) is not None])
    return NONE


def on_abort(it, fun, args, kwargs, node, e):
    it.on_abort.append((args + list(kwargs.values()))[0])
    return NONE


def clock(it, args, kw, node):
    it.clock = getattr(it, "clock", 0) + 1
    return Const(100.0 + it.clock * it.clock)


def new_lock(it, args, kw, node):
    return it.alloc(LockO(it.fresh("newlock"), free=True))


class Saved(Pop):
    def __init__(self, ctx):
        own = {k: None for k in Pop.OPAQUE if k.split(".")[0] in (
            "History", "ParameterManager", "Reporter")}
        own.update(OPAQUE)
        own.update({"Reporter.progressChar": "none", "callOnAbort": on_abort,
                    "KeyboardHolder.callOnAbort": on_abort})
        ext = saved_model.ext()
        ext.update({
            "numpy.random.choice": drawn, "numpy.random.uniform": random_values,
            FUNC: evaluation("saved"), NEWFUNC: evaluation("loaded"), LOCAL: callback,
            "time.time": clock, "twisted.internet.defer.DeferredLock": new_lock,
            "user.callback": callback, "user.complaint": lambda *a: NONE,
            "ade.util.msg.lineWritten": lambda *a: Const(False)})
        for k, path in enumerate(CONSTRAINTS):
            ext[path] = constraint(k)
        Pop.__init__(self, ctx, opaque=own, ext=ext, max_seconds=20, unroll=5000)

    def result(self, it, e):
        """Of what is no function."""
        raise PyRaise("TypeError", None, e.node, implicit=True)

    def start(self, it, levels, **kw):
        it.plan, it.evaluated, it.tested, it.reported, it.on_abort = [], [], [], [], []
        it.passing = True
        it.rounding = rounding
        it.exact_waits = True
        saved_model.Vault(it, {FUNC, NEWFUNC, LOCAL})
        it.setattr(Cls(self.ctx.repo.cls("History")), "N_max", Const(10))
        names = it.alloc(ListO([Const(x) for x in NAMES]))
        bounds = it.alloc(ListO([Tup([Const(a), Const(b)]) for a, b in BOUNDS]))
        it.pop = it.call(Cls(it.repo.cls("Population")), [Ext(FUNC), names, bounds], kw, None)
        if levels:
            it.setattr(it.pop, "Np", Const(len(levels)), None)
            self.populate(it, levels)
        return it.pop

    def populate(self, it, levels, loaded=False):
        it.plan = list(levels)
        it.call(it.getattr(it.pop, "setup"), [], {"uniform": TRUE}, None)
        if it.plan and not loaded:
            raise Infeasible()


def do(it, p, name, *args, **kw):
    v = it.call(it.getattr(p, name), list(args), kw, None)
    it.settle(v)
    return v


def point(it, *xs):
    return narr.make(it, (len(xs),), [x if isinstance(x, Term) else Const(x) for x in xs])


def newcomer(it, p, lev, who):
    """An individual of a population; the same for each of them."""
    vs = []
    for k, (a, b) in enumerate(BOUNDS):
        t = Term("value", (who, k))
        it.ranges[t] = (a, b)
        vs.append(t)
    i = do(it, p, "spawn", narr.make(it, (2,), vs))
    it.setattr(i, "SSE", level(it, lev, who), None)
    return i


def replaced(k, lev):
    def f(it, p):
        it.setitem(p, Const(k), newcomer(it, p, lev, "n%d%d" % (k, lev)), None)
    return f


def demoted(k):
    def f(it, p):
        do(it, it.getitem(p, Const(k)), "blacklist")
    return f


def others(it, p):
    h = it.getattr(p, "history")
    it.call(it.getattr(h, "add"), [newcomer(it, p, 7, "o")], {"neverInPop": TRUE}, None)


def called_back(it, p):
    do(it, p, "addCallback", Ext(LOCAL))


LEVELS = (4, 2, 6)
STATES = {
    "not set up": ((), {}, []),
    "set up": (LEVELS, {}, []),
    "ranked": (LEVELS, {}, [lambda it, p: do(it, p, "best")]),
    "with a replacement": (LEVELS, {}, [replaced(0, 1)]),
    "with a worse replacement": (LEVELS, {}, [replaced(1, 9), replaced(2, 3)]),
    "with a demoted member": (LEVELS, {}, [demoted(1)]),
    "with other records": (LEVELS, {}, [others, replaced(1, 1)]),
    "with locks held": (LEVELS, {}, [lambda it, p: do(it, p, "lock", Const(0), Const(2))]),
    "aborted": (LEVELS, {}, [lambda it, p: do(it, p, "abort")]),
    "aborted with locks held": (LEVELS, {}, [
        lambda it, p: do(it, p, "lock", Const(1)), lambda it, p: do(it, p, "abort")]),
    "aborted before setup": ((), {}, [lambda it, p: do(it, p, "abort")]),
    "with a callback": (LEVELS, {}, [called_back]),
    "having reported": (LEVELS, {}, [called_back, lambda it, p: do(it, p, "report")]),
    "with a constraint": (LEVELS, {"constraints": (0,)}, []),
    "with constraints": (LEVELS, {"constraints": (0, 1)}, []),
    "with constraints set later": (LEVELS, {}, [
        lambda it, p: do(it, p, "setConstraints", Ext(CONSTRAINTS[1]))]),
    "configured": (LEVELS, {"debug": TRUE, "popsize": Const(13), "targetFraction": Const(0.25)},
                   []),
    "configured, not set up": ((), {"popsize": Const(30), "targetFraction": Const(0.5)}, []),
    "with a status quo score": (LEVELS, {}, [
        lambda it, p: it.call(it.getattr(p, "replacement"), [], {"sqs": Const(0.75)}, None)]),
    "with improvements": (LEVELS, {}, [
        lambda it, p: do(it, p, "replacement"), lambda it, p: do(it, p, "replacement", Const(2))]),
    "one member": ((3,), {}, []),
    "four members": ((3, 9, 1, 5), {}, [replaced(3, 0)]),
}
SETTINGS = ("Nd", "Np", "popsize", "targetFraction", "statusQuoScore", "debug")


def rows_of(it, p):
    h = it.getattr(p, "history")
    return [tuple(it.T(x) for x in it.known_items(it.getitem(h, Const(k))))
            for k in range(it.bi_len([h], {}, None).v)]


def of(it, p):
    return [it.getitem(p, Const(k)) for k in range(it.bi_len([p], {}, None).v)]


def seen(it, v):
    """What can be told of a result."""
    if isinstance(v, Ref) and it.inst(v) is not None and it.inst(v).ci.name == "Individual":
        return row(it, v)
    if isinstance(v, (Ref, Tup)):
        xs = it.known_items(v)
        return it.T(v) if xs is None else [seen(it, x) for x in xs]
    return it.T(v)


def readings(it, p):
    """Results of operations that change nothing."""
    pm = it.getattr(p, "pm")
    n = len(of(it, p))
    u = point(it, 0.25, 0.5)
    out = {}

    def note(group, name, f):
        try:
            out[group, name] = f()
        except PyRaise as e:
            out[group, name] = "raises " + e.etype
    note("parameters", "the names", lambda: seen(it, it.getattr(pm, "names")))
    note("parameters", "fromUnity", lambda: seen(it, do(it, pm, "fromUnity", u)))
    note("parameters", "toUnity", lambda: seen(it, do(it, pm, "toUnity", point(it, 1.0, 14.0))))
    note("parameters", "limit", lambda: seen(it, do(it, pm, "limit", point(it, -3.0, 50.0))))
    note("parameters", "limit", lambda: seen(it, do(it, pm, "limit", point(it, 4.0, 11.0))))
    note("parameters", "sortedNamerator", lambda: [seen(it, x) for x in it.collect(
        do(it, pm, "sortedNamerator"), None)])
    for passing in (True, False):
        it.passing = passing
        it.tested = []
        note("parameters", "the constraints %s" % ("met" if passing else "not met"), lambda: (
            seen(it, do(it, pm, "passesConstraints", point(it, 1.0, 12.0))), list(it.tested)))
    it.passing = True
    for name in SETTINGS:
        note("configuration", name, lambda: seen(it, it.getattr(p, name)))
    note("members", "the members", lambda: [row(it, i) for i in of(it, p)])
    note("members", "evaluation times", lambda: seen(it, do(it, p, "evalTimes")))
    note("members", "iteration", lambda: [row(it, i) for i in it.collect(p, None)])
    note("members", "whether there are any", lambda: it.truth(p))
    note("history", "the records", lambda: rows_of(it, p))
    note("operations", "best", lambda: seen(it, do(it, p, "best")))
    note("operations", "iSorted", lambda: seen(it, it.getattr(p, "iSorted")))
    note("operations", "KS", lambda: seen(it, it.getattr(p, "KS")))
    for k in range(n):
        note("operations", "individuals", lambda: seen(it, do(it, p, "individuals", Const(k))))
    note("operations", "spawn", lambda: seen(it, it.call(
        it.getattr(p, "spawn"), [u], {"fromUnity": TRUE}, None)))
    return out


def writings(it, p):
    """What members and records are after operations that change them."""
    out = {}
    n = len(of(it, p))
    h = it.getattr(p, "history")

    def step(name, f):
        try:
            f()
            out["operations", name] = ([row(it, i) for i in of(it, p)], rows_of(it, p), seen(
                it, do(it, p, "best")))
        except PyRaise as e:
            out["operations", name] = "raises " + e.etype
    if n:
        step("a replacement", lambda: it.setitem(p, Const(n - 1), newcomer(it, p, 3, "w0"), None))
        step("a push", lambda: do(it, p, "push", newcomer(it, p, 0, "w1")))
        step("a demotion", lambda: do(it, it.getitem(p, Const(0)), "blacklist"))
    step("another record", lambda: it.call(
        it.getattr(h, "add"), [newcomer(it, p, 8, "w2")], {"neverInPop": TRUE}, None))
    if n:
        step("another replacement", lambda: it.setitem(p, Const(0), newcomer(it, p, 7, "w3"), None))
    return out


def locks(it, q, note):
    """One free lock for each member."""
    n = len(of(it, q))
    held = {k for k in it.held if it.held[k]}
    taken = []
    for k in range(n):
        a = len(it.events)
        do(it, q, "lock", Const(k))
        got = [e.d["ref"] for e in it.events[a:] if e.kind == "acquire"]
        note("locks", len(got) == 1, "locking a member of the loaded population takes %d locks" % (
            len(got)))
        taken += got
    a = len(it.events)
    do(it, q, "lock", Const(n))
    note("locks", not any(e.kind == "acquire" for e in it.events[a:]),
         "the loaded population has a lock for a member that it does not have")
    origins = [it.obj(x).origin if isinstance(x, Ref) else x for x in taken]
    note("locks", len(set(origins)) == len(origins), "members of the loaded population share a lock")
    note("locks", not any(o in held for o in origins), "a lock of the loaded population is held")
    it.call(it.getattr(q, "release"), [Const(k) for k in range(n)], {}, None)
    note("locks", not any(it.held.get(o) for o in origins),
         "a lock of the loaded population is not released")
    it.call(it.getattr(q, "lock"), [Const(k) for k in range(n)], {}, None)
    it.call(it.getattr(q, "release"), [], {}, None)
    note("locks", not any(it.held.get(o) for o in origins),
         "a lock of the loaded population is not released with the others")
    return origins


def recreated(it, q, note, report=True):
    n = len(it.evaluated)
    i = newcomer(it, q, 3, "ev")
    vals = [it.T(x) for x in it.known_items(it.getattr(i, "values"))]
    do(it, i, "evaluate")
    note("recreated", it.evaluated[n:] == [("loaded", vals)],
         "evaluating one of the loaded population calls %s" % (it.evaluated[n:],))
    for m in of(it, q):
        note("members", it.getattr(m, "p") == q, "a member of the loaded population belongs to "
             "another")
    if not of(it, q):
        return
    best = do(it, q, "best")
    if best == NONE or it.T(it.getattr(best, "SSE")) == Const(INF):
        return
    if report:
        it.reported = []
        do(it, q, "addCallback", Ext("user.callback"))
        do(it, q, "report")
    for d in list(it.unfired):
        it.settle(d)
    want = [it.T(x) for x in it.known_items(it.getattr(best, "values"))]
    note("recreated", any(want in x for x in it.reported),
         "a report of the loaded population calls its callback %d times" % len(it.reported))


def population(ctx):
    here = where(ctx.repo.method("Population", "load"))
    sm = Saved(ctx)
    for state, (levels, kw, steps) in STATES.items():
        for after in ("changes", "reports", "setup", "again"):
            if after == "setup" and levels:
                continue

            def driver(it):
                it.judged = []
                k = dict(kw)
                if "constraints" in k:
                    k["constraints"] = it.alloc(ListO([Ext(CONSTRAINTS[x]) for x in
                                                       k["constraints"]]))
                p = sm.start(it, levels, **k)
                for f in steps:
                    f(it, p)

                def note(rule, ok, what):
                    it.judged.append((rule, state, bool(ok), what))
                before = readings(it, p)
                do(it, p, "save", Const("~/saved.dat"))
                load = it.getattr(Cls(it.repo.cls("Population")), "load")
                it.on_abort = []
                q = it.call(load, [Const(HOME + "/saved.dat")], {
                    "func": Ext(NEWFUNC), "complaintCallback": Ext("user.complaint")}, None)
                if after == "again":
                    do(it, q, "save", Const("/other.dat"))
                    it.on_abort = []
                    q = it.call(load, [Const("/other.dat")], {"func": Ext(NEWFUNC)}, None)
                it.pop = q
                now = readings(it, q)
                for (rule, what), v in before.items():
                    note(rule, now.get((rule, what)) == v, "%s: %s on the loaded population "
                         "gives %s, not %s" % (state, what, now.get((rule, what)), v))
                note("recreated", it.getattr(q, "running") != Const(False),
                     "the loaded population does not run")
                mine = locks(it, q, note)
                if after == "changes":
                    a, b = writings(it, q), writings(it, p)
                    for key, v in b.items():
                        note("operations", a.get(key) == v, "%s: after %s, the loaded population has %s,"
                             " not %s" % (state, key[1], a.get(key), v))
                elif after == "setup":
                    it.setattr(q, "Np", Const(2), None)
                    do(it, q, "addCallback", Ext("user.callback"))
                    sm.populate(it, (3, 1), True)
                    note("operations", len(of(it, q)) == 2, "setting the loaded population up gives "
                         "it %d members" % len(of(it, q)))
                    locks(it, q, note)
                    recreated(it, q, note, False)
                elif after == "reports":
                    recreated(it, q, note)
                do(it, q, "replacement")
                do(it, q, "replacement", Const(1))
                do(it, q, "replacement")
                do(it, q, "waitForReports")
                for f in it.on_abort:
                    it.call(f, [], {}, None)
                note("recreated", it.getattr(q, "running") == Const(False),
                     "an abort does not stop the loaded population")
                return NONE
            for p in sm.explore("Population %s; %s" % (state, after), driver).paths:
                for rule, key, ok, what in p.it.judged:
                    ctx.ob(rule, key, ok, here, what, p)
                ctx.ob("saves", state, p.outcome == "return", here, "a population %s cannot be "
                       "saved, loaded and used: %s" % (state, failure(p)), p)


@check("C19", C19)
def c19(ctx):
    history(ctx)
    population(ctx)
