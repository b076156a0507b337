"""
The history: records of members are kept (C17), rows and order (C30).
"""

import itertools

from . import narr
from .absint import Cls, Const, DefO, Inst, NONE, PyRaise, Ref
from .core import check
from .hist_model import Hist, Roster, NAMES
from .intervals import INF
from .pop_model import Pop, individual, level_of, members
from .rules_run import where

KINDS = ("member", "never", "former")
#: Levels of the first few records, such that they go to all places
ORDERS = {1: [(5,)], 2: [(3, 7), (7, 3)], 3: [(3, 7, 5), (7, 3, 5)],
          4: [(5, 3, 7, 4), (3, 5, 7, 9)], 5: [(5, 3, 7, 4, 6)]}


class Books(Roster):
    """A roster judged after each operation."""

    def __init__(self, ctx, it, capacity, name, here, rules):
        Roster.__init__(self, it, capacity)
        self.ctx, self.name, self.here, self.rules = ctx, name, here, rules

    def ob(self, rule, ok, what):
        if rule in self.rules:
            self.it.judged.append((rule, self.name, bool(ok), what))

    def place(self, sse):
        return level_of(self.it, sse)

    def state(self, op):
        """Judges what holds at all times."""
        rows = self.rows()
        if rows is None:
            self.ob("intact", False, "after %s the records cannot be told" % op)
            return []
        self.ob("capacity", len(rows) <= self.capacity, "after %s there are %d records of %d" % (
            op, len(rows), self.capacity))
        levels = [self.place(r[0]) for r in rows]
        self.ob("order", None not in levels and all(a <= b for a, b in zip(levels, levels[1:])),
                "after %s the records are in the order %s" % (op, levels))
        self.ob("intact", len(set(rows)) == len(rows) and all(r in self.ever for r in rows),
                "after %s the records are %s" % (op, rows))
        for i in self.members:
            self.ob("kept", self.row(i) in rows, "after %s the record of a member is lost" % op)
        return rows

    def put(self, i, never=False):
        op = "the addition of a %s" % ("non-member" if never else "member")
        before = self.rows() or []
        full = len(before) >= self.capacity
        safe = [self.row(m) for m in self.members]
        finite = self.place(self.row(i)[0]) not in (None, INF)
        r = self.call("add", i, **({"neverInPop": Const(True)} if never else {}))
        if finite:
            self.ever[self.row(i)] = i
        after = self.rows() or []
        gone = [x for x in before if x not in after]
        mine = self.row(i) in after
        if not finite:
            self.ob("recorded", after == before, "an individual without a finite SSE changes the "
                    "records")
            self.ob("intact", after == before, "an individual without a finite SSE changes the "
                    "records")
        elif not full:
            self.ob("recorded", mine, "%s to a roster with room makes no record" % op)
            self.ob("intact", not gone, "%s to a roster with room loses records" % op)
            self.ob("fits", mine and r != NONE, "%s to a roster with room makes no record" % op)
        elif all(x in safe for x in before):
            self.ob("fits", r == NONE and after == before,
                    "%s to a roster full of members changes it" % op)
            self.ob("kept", after == before, "%s to a roster full of members changes it" % op)
        else:
            self.ob("intact", len(gone) == 1, "%s to a full roster loses %d records" % (
                op, len(gone)))
            self.ob("fits", mine and r != NONE, "%s to a full roster with an expendable record "
                    "makes no record" % op)
            self.ob("expendable", mine, "no record is given up for %s to a full roster though one "
                    "is expendable" % op)
            self.ob("kept", not any(x in safe for x in gone), "%s to a full roster removes the "
                    "record of a member" % op)
        if mine:
            (self.never if never else self.members).append(i)
        for group in (self.never, self.former):
            group[:] = [x for x in group if self.row(x) in after]
        self.state(op)
        return i

    def leave(self, i):
        before = self.rows()
        Roster.withdraw(self, i)
        after = self.rows()
        self.ob("intact", before == after, "withdrawing a member changes the records")
        self.state("the withdrawal of a member")

    def drop_members(self):
        before = self.rows() or []
        safe = [self.row(m) for m in self.members]
        Roster.purge(self)
        after = self.rows() or []
        self.ob("purged", after == [x for x in before if x not in safe],
                "purging the members' records leaves %s of %s" % (after, before))
        self.state("purging the members")

    def empty(self):
        Roster.clear(self)
        self.ob("purged", self.rows() == [], "clearing leaves records")
        self.state("clearing")


def explore(ctx, hm, name, here, rules, capacity, scenario):
    def driver(it):
        it.judged = []
        scenario(Books(ctx, it, capacity, name, here, rules))
        return NONE
    for p in hm.explore(name, driver).paths:
        for rule, key, ok, what in p.it.judged:
            ctx.ob(rule, key, ok, here, what, p)
        if p.outcome != "return":
            ctx.ob(sorted(rules)[0], name, False, here, "an operation of the history fails: %s" % (
                failure(p),), p)


def failure(p):
    v = p.value
    return getattr(v, "name", None) or (v[0] if isinstance(v, tuple) else v)


def fill(b, kinds, levels):
    made = []
    for kind, lev in zip(kinds, levels):
        i = b.put(b.individual(lev), never=kind == "never")
        made.append(i)
    for kind, i in zip(kinds, made):
        if kind == "former":
            b.leave(i)
    return made


def scenarios(ctx):
    """(name, capacity, function) of the sequences of operations judged."""
    out = []
    sizes = (1, 2, 3, 4)
    for n in sizes:
        for kinds in itertools.product(KINDS, repeat=n):
            for levels in ORDERS[n]:
                label = "%d rows: %s at %s" % (n, ", ".join(kinds), levels)
                beyond = 3 if kinds.count("never") + kinds.count("former") <= 2 else 1

                def over(b, kinds=kinds, levels=levels, beyond=beyond):
                    fill(b, kinds, levels)
                    for lev in (1, 8, 4)[:beyond]:
                        b.put(b.individual(lev), never=lev == 8)
                out.append((label + "; then more", n, over))

                if "member" in kinds and levels == ORDERS[n][0]:
                    def purged(b, kinds=kinds, levels=levels, n=n):
                        made = fill(b, kinds, levels)
                        b.drop_members()
                        for lev in (6, 2, 9, 1)[:kinds.count("member")]:
                            b.put(b.individual(lev), never=lev == 9)
                        b.leave(made[kinds.index("member")])
                        if kinds.count("member") == n:
                            b.put(b.individual(4))
                    out.append((label + "; members purged, then more", n, purged))
    # Patterns of used rows of a larger roster
    for kinds in itertools.product(("member", "never"), repeat=5):
        def patterns(b, kinds=kinds):
            fill(b, kinds, ORDERS[5][0])
            b.drop_members()
            for lev in (6, 2, 9, 1, 8)[:kinds.count("member")]:
                b.put(b.individual(lev))
        out.append(("5 rows: %s; members purged, refilled" % ", ".join(kinds), 5, patterns))

    def demoted(b):
        """Demoted while waiting to be recorded."""
        for lev in (5, 7):
            i = b.individual(lev)
            b.it.queued = []

            def demote():
                b.call("notInPop", i)
                b.it.setattr(i, "SSE", Const(INF), None)
            b.it.meanwhile.append(demote)
            row = b.row(i)
            b.call("add", i)
            b.ever[row] = i
            queue, b.it.queued = b.it.queued, None
            for run in queue:
                run()
            b.former.append(i)
            b.state("a demotion while waiting")
        for lev in (4, 8):
            b.put(b.individual(lev))
    out.append(("demoted while waiting for the record", 2, demoted))

    def later(b):
        """Demoted, the history being busy."""
        ms = [b.put(b.individual(k)) for k in (5, 7)]
        b.it.queued = []
        b.call("notInPop", ms[0])
        row = b.row(ms[0])
        b.it.setattr(ms[0], "SSE", Const(INF), None)
        queue, b.it.queued = b.it.queued, None
        for run in queue:
            run()
        b.members.remove(ms[0])
        b.state("a demotion, the history being busy")
        b.put(b.individual(4))
        b.put(b.individual(8))
    out.append(("demoted while the history is busy", 2, later))

    def ties(b):
        a = b.put(b.individual(5))
        x = b.put(b.individual(5, same=a))
        b.put(b.individual(5, same=a), never=True)
        b.put(b.individual(3))
        b.leave(a)
        b.put(b.individual(5, same=a))
        b.leave(x)
        b.put(b.individual(7))
    out.append(("equal SSEs", 3, ties))

    def unusable(b):
        b.put(b.individual(5))
        for sse in (Const(INF), NONE, Const(float("nan"))):
            i = b.individual(1)
            b.it.setattr(i, "SSE", sse, None)
            b.put(i)
            b.put(i, never=True)
        b.put(b.individual(4))
    out.append(("infinite SSEs", 2, unusable))

    def turnover(b):
        ms = [b.put(b.individual(k)) for k in (5, 4)]
        for lev in (6, 3, 2, 7):
            b.leave(ms.pop(0))
            ms.append(b.put(b.individual(lev)))
            if b.row(ms[-1]) not in (b.rows() or []):
                break
        b.drop_members()
        b.put(b.individual(1))
    out.append(("a member after another leaves", 2, turnover))

    def emptied(b):
        a, _, _ = [b.put(b.individual(k), never=k == 4) for k in (5, 3, 4)]
        b.empty()
        ms = []
        for k in (7, 2, 8):
            ms.append(b.put(b.individual(k), never=k == 8))
            b.leave(a)
        b.put(b.individual(6), never=True)
        b.put(b.individual(9), never=True)
        b.leave(ms[1])
        b.put(b.individual(5))
        b.empty()
        b.put(b.individual(1))
        b.drop_members()
        b.put(b.individual(1), never=True)
    out.append(("cleared and used again", 3, emptied))

    def twins(b):
        """Two equal members: each has its record."""
        a = b.individual(5)
        c = b.individual(5, same=a)
        b.it.setattr(c, "values", b.it.call(b.it.getattr(b.it.getattr(
            a, "values"), "copy"), [], {}, None), None)
        for i in (a, c):
            b.call("add", i)
        b.ever[b.row(a)] = a
        b.call("notInPop", a)
        b.members.append(c)
        b.call("add", b.individual(3), neverInPop=Const(True))
        b.call("add", b.individual(4), neverInPop=Const(True))
        b.ob("kept", b.row(c) in (b.rows() or []), "the record of a member is lost after an equal "
             "one left")
        b.call("notInPop", c)
        b.members.remove(c)
        for lev in (2, 1, 6):
            i = b.individual(lev)
            b.call("add", i)
            b.ob("expendable", b.row(i) in (b.rows() or []) or lev == 6, "the record of one of two "
                 "equal members stays though both have left")
    out.append(("equal members", 2, twins))

    def strangers(b):
        a = b.put(b.individual(5))
        b.leave(b.individual(4))         # never recorded
        b.leave(a)
        b.leave(a)                       # twice
        b.put(b.individual(3))
        b.leave(a)                       # removed, or not
        b.put(b.individual(6))
    out.append(("withdrawn again", 2, strangers))

    def refilled(b):
        ms = fill(b, ("member",) * 3, (5, 3, 7))
        b.leave(ms[1])
        m = b.put(b.individual(4))
        b.leave(ms[1])
        b.put(b.individual(6))           # nothing expendable
        b.leave(m)
        b.put(b.individual(8))
        b.leave(ms[0])
        b.leave(ms[2])
        b.put(b.individual(1), never=True)
    out.append(("a row in use again", 3, refilled))
    return out


C30 = {
    "capacity": "there are never more records than the capacity",
    "intact": "no operation changes another record, except that an addition to a full roster "
              "replaces one",
    "order": "the records are in order of increasing SSE",
    "fits": "an addition makes a record if there is room or an expendable record, and otherwise "
            "changes nothing",
}


@check("C30", C30)
def c30(ctx):
    here = where(ctx.repo.method("History", "add"))
    hm = Hist(ctx)
    for name, n, f in scenarios(ctx):
        explore(ctx, hm, name, here, set(C30), n, f)


C17 = {
    "recorded": "an individual with a finite SSE is recorded while there is room, and no other",
    "kept": "the record of a member stays until it leaves",
    "expendable": "the record of one that left is given up if the room is needed",
    "purged": "purging takes away the records of the members and no others, clearing all",
    "population": "every member of the population with a finite SSE has a record that "
                  "survives any additions",
    "left": "what left the population has no protected record",
}


@check("C17", C17)
def c17(ctx):
    here = where(ctx.repo.method("History", "add"))
    hm = Hist(ctx)
    rules = {"recorded", "kept", "expendable", "purged"}
    for name, n, f in scenarios(ctx):
        explore(ctx, hm, name, here, rules, n, f)
    population(ctx)


SIZE = 3


def replace(k, lev):
    def f(it, pm):
        it.setitem(it.pop, Const(k), individual(it, lev, "n%d%d" % (k, lev)), None)
    return f


def equal(k):
    def f(it, pm):
        old = it.getitem(it.pop, Const(k))
        i = individual(it, 1, "equal")
        it.setattr(i, "SSE", it.getattr(old, "SSE"), None)
        it.setattr(i, "values", it.call(it.getattr(it.getattr(old, "values"), "copy"), [], {}, None))
        it.setitem(it.pop, Const(k), i, None)
    return f


def demote(k):
    def f(it, pm):
        it.call(it.getattr(it.getitem(it.pop, Const(k)), "blacklist"), [], {}, None)
    return f


def push(lev):
    def f(it, pm):
        it.call(it.getattr(it.pop, "push"), [individual(it, lev, "n%d" % lev)], {}, None)
    return f


CHANGES = {
    "setup": [],
    "a replacement": [replace(0, 1)],
    "a worse replacement": [replace(1, 9)],
    "two replacements of a member": [replace(0, 1), replace(0, 0)],
    "replacements of two members": [replace(0, 1), replace(2, 8)],
    "a replacement by an equal": [equal(0)],
    "a replacement by an equal and another": [equal(0), replace(0, 1)],
    "a demotion": [demote(1)],
    "a demotion and a replacement": [demote(1), replace(1, 3)],
    "a replacement and a demotion": [replace(1, 3), demote(1)],
    "a push": [push(1)],
    "a demotion and a push": [demote(0), push(1)],
    "setup again": [lambda it, pm: pm.setup(it, (5, 9, 3))],
    "clearing": [lambda it, pm: it.call(it.getattr(it.pop, "clear"), [], {}, None)],
}


def population(ctx):
    """The history as the population uses it."""
    from .hist_model import OPAQUE, drawn
    here = where(ctx.repo.method("Population", "__setitem__"))
    own = {k: None for k in Pop.OPAQUE if k.startswith("History")}
    own.update(OPAQUE)
    pm = Pop(ctx, opaque=own, ext={"numpy.random.choice": drawn})
    for what, steps in CHANGES.items():
        for extra in (-1, 0, 1):
            def driver(it):
                it.setattr(Cls(ctx.repo.cls("History")), "N_max", Const(SIZE + 1 + extra))
                pm.make(it, (4, 2, 6))
                h = it.getattr(it.pop, "history")
                for f in steps:
                    f(it, pm)
                # Others come, more than fit
                n = SIZE + 1 + extra
                stay = len(members(it))
                it.others = []
                for k in range(n + 1 - stay if stay else n):
                    i = individual(it, 7, "o%d" % k)
                    it.call(it.getattr(h, "add"), [i], {"neverInPop": Const(True)}, None)
                    it.others.append(i)
                rows = []
                for k in range(it.bi_len([h], {}, None).v):
                    rows.append(tuple(it.T(x) for x in it.known_items(it.getitem(h, Const(k)))))
                it.rows = rows
                return NONE
            name = "%s, room for %d" % (what, SIZE + 1 + extra)
            for p in pm.explore("Population: " + name, driver).paths:
                if p.outcome != "return":
                    ctx.ob("population", what, False, here, "after %s, an operation of the history "
                           "fails: %s" % (what, failure(p)), p)
                    continue
                it = p.it
                ms = members(it)
                lost = [m for m in ms if level_of(it, it.getattr(m, "SSE")) != INF
                        and row(it, m) not in it.rows]
                ctx.ob("population", what, not lost, here, "after %s and other additions, the "
                       "record of a member is missing" % what, p)
                if len(ms) > SIZE + extra:
                    continue
                blank = [r for r in it.rows if r not in [row(it, m) for m in ms]
                         and r not in [row(it, o) for o in it.others]]
                ctx.ob("left", what, row(it, it.others[-1]) in it.rows, here,
                       "after %s, %d records of others stay in place of new ones" % (
                           what, len(blank)), p)


def row(it, i):
    return (it.T(it.getattr(i, "SSE")),) + tuple(
        it.T(x) for x in it.known_items(it.getattr(i, "values")))


C18 = {
    "held": "the history is changed only by who holds its lock",
    "whole": "the lock is not given up before the change is complete",
    "given-back": "an operation gives the lock back once, however it ends",
    "same": "all operations take the same lock",
    "no-deadlock": "an operation does not wait for a lock it holds",
    "meanwhile": "an operation that had to wait accounts for what happened meanwhile",
    "settled": "waiting for the history waits for the lock",
}


def parts(it, h):
    """Everything that the history consists of."""
    seen, todo = set(), [h]
    while todo:
        v = todo.pop()
        if v in seen or not isinstance(v, Ref):
            continue
        seen.add(v)
        o = it.obj(v)
        if isinstance(o, Inst) and o.ci.name in ("History", "ClosestPairFinder", "Analysis"):
            todo.extend(o.fields.values())
    return seen


def changes(it, mine, events):
    out = []
    for e in events:
        if e.kind in ("mut", "arrset", "setattr", "delattr") and e.d.get("ref") in mine:
            out.append(e)
    return out


def judge_lock(ctx, p, name, here, ops):
    """ops: (name, number of the first event, of the last) of each operation."""
    it = p.it
    mine = it.mine
    used = set()
    for op, a, b in ops:
        evs = [e for e in p.events if a <= e.i < b]
        held = {}
        worst = None
        taken = 0
        done = [e.i for e in changes(it, mine, evs)]
        for e in evs:
            if e.kind == "acquire":
                k = e.d["ref"]
                ctx.ob("no-deadlock", op, not held.get(k), e, "%s waits for a lock that it "
                       "holds" % op, p)
                held[k] = held.get(k, 0) + 1
                taken += 1
            elif e.kind == "release":
                k = e.d["ref"]
                held[k] = held.get(k, 0) - 1
                ctx.ob("given-back", op, held[k] >= 0, e, "%s releases a lock it does not "
                       "hold" % op, p)
                ctx.ob("whole", op, not (done and done[0] < e.i < done[-1]), e,
                       "%s gives the lock up before its change is complete" % op, p)
            if e.i in done:
                now = {k for k in held if held[k] > 0}
                ctx.ob("held", op, bool(now), e, "%s changes the history without holding its "
                       "lock" % op, p)
                used.add(frozenset(now))
        ctx.ob("given-back", op, all(n == 0 for n in held.values()), here,
               "%s ends with the lock held" % op, p)
    return used


def c18_op(b, ops, name, *args, **kw):
    it = b.it
    n = len(it.events)
    try:
        b.call(name, *args, **kw)
        how = ""
    except PyRaise:
        how = " that fails"
    ops.append((name + how, n, len(it.events)))


@check("C18", C18)
def c18(ctx):
    here = where(ctx.repo.method("History", "add"))

    def fails(it, fun, args, kwargs, node, e):
        return it.alloc(DefO(False, PyRaise("Failure", None, node), e))

    def raises(it, fun, args, kwargs, node, e):
        raise PyRaise("ValueError", None, node)

    def ordinary(b, ops):
        i, j, k = (b.individual(x) for x in (5, 3, 7))
        c18_op(b, ops, "add", i)
        c18_op(b, ops, "add", j, neverInPop=Const(True))
        c18_op(b, ops, "add", k)                  # Full
        c18_op(b, ops, "add", b.individual(2))    # Full of members
        c18_op(b, ops, "notInPop", i)
        c18_op(b, ops, "notInPop", b.individual(9))
        c18_op(b, ops, "add", b.individual(4))
        c18_op(b, ops, "purgePop")
        c18_op(b, ops, "add", b.individual(1))
        c18_op(b, ops, "clear")
        bad = b.individual(1)
        b.it.setattr(bad, "SSE", Const(INF), None)
        c18_op(b, ops, "add", bad)
        c18_op(b, ops, "shutdown")

    def faulty(b, ops):
        i = b.individual(5)
        c18_op(b, ops, "add", i, neverInPop=Const(True))
        c18_op(b, ops, "add", b.individual(6), neverInPop=Const(True))
        c18_op(b, ops, "add", b.individual(3))
        c18_op(b, ops, "shutdown")

    def broken_values(b, ops):
        c18_op(b, ops, "add", b.individual(6))
        i = b.individual(5)
        b.it.setattr(i, "values", narr.make(b.it, (2,), [Const(float("nan"))] * 2), None)
        c18_op(b, ops, "add", i, neverInPop=Const(True))
        i = b.individual(4)
        b.it.setattr(i, "values", narr.make(b.it, (5,), [Const(0.5)] * 5), None)
        c18_op(b, ops, "add", i)
        c18_op(b, ops, "shutdown")

    used = set()
    cases = [("operations", {}, ordinary),
             ("the search for a record to drop fails", {"ClosestPairFinder.__call__": fails}, faulty),
             ("the search for a record to drop raises", {"ClosestPairFinder.__call__": raises},
              faulty),
             ("removing a record raises", {"History.purge": raises}, faulty),
             ("picking a row raises", {"History.kkr": raises}, faulty),
             ("values that cannot be recorded", {}, broken_values)]
    for name, opaque, f in cases:
        hm = Hist(ctx, opaque={k: v for k, v in opaque.items()
                               if k.split(".")[1] in ctx.repo.cls(k.split(".")[0]).methods})

        def driver(it):
            b = Roster(it, 2)
            it.ops = []
            f(b, it.ops)
            it.mine = parts(it, b.h)
            return NONE
        for p in hm.explore(name, driver).paths:
            if p.outcome != "return":
                ctx.ob("given-back", name, False, here, "the history cannot be used: %s" % (
                    failure(p),), p)
                continue
            used |= judge_lock(ctx, p, name, here, p.it.ops)
            last = p.it.ops[-1]
            ctx.ob("settled", name, any(
                e.kind == "acquire" and last[1] <= e.i < last[2] for e in p.events), here,
                "waiting for the history does not wait for its lock", p)
    ctx.ob("same", "History", bool(used and frozenset.intersection(*used)) or not used, here,
           "operations of the history hold different locks")
    waiting(ctx, here)


def waiting(ctx, here):
    """Operations done while another waits for the lock."""
    def inner(b, what):
        if what == "add":
            b.put(b.individual(4))
        elif what == "add another":
            b.put(b.individual(8), never=True)
        elif what == "withdraw":
            for m in list(b.members):
                b.leave(m)
        elif what == "purge":
            b.drop_members()
        else:
            b.empty()

    class Late(Books):
        def put_late(self, lev, what, never):
            i = self.individual(lev)
            state = {}

            def go():
                inner(self, what)
                state["before"] = self.rows()
            self.it.meanwhile.append(go)
            r = self.call("add", i, **({"neverInPop": Const(True)} if never else {}))
            self.ever[self.row(i)] = i
            after = self.rows() or []
            before = state.get("before")
            if before is None:
                self.ob("meanwhile", False, "an addition waits for nothing")
                return
            gone = [x for x in before if x not in after]
            safe = [self.row(m) for m in self.members]
            room = len(before) < self.capacity
            self.ob("meanwhile", not any(x in safe for x in gone),
                    "an addition after %s meanwhile removes the record of a member" % what)
            self.ob("meanwhile", len(gone) == 0 if room else len(gone) <= 1,
                    "an addition after %s meanwhile loses records" % what)
            self.ob("meanwhile", self.row(i) in after or not room,
                    "an addition after %s meanwhile makes no record" % what)
            if self.row(i) in after:
                (self.never if never else self.members).append(i)
            self.state("an addition after %s meanwhile" % what)

        def ob(self, rule, ok, what):
            Books.ob(self, "meanwhile", ok, what)

    hm = Hist(ctx)
    for what in ("add", "add another", "withdraw", "purge", "clear"):
        for kinds in itertools.product(KINDS, repeat=2):
            for capacity in (2, 3):
                name = "%s meanwhile; %d rows: %s" % (what, capacity, ", ".join(kinds))

                def driver(it):
                    it.judged = []
                    b = Late(ctx, it, capacity, "addition; %s meanwhile" % what, here,
                             {"meanwhile"})
                    fill(b, kinds, (5, 3))
                    b.put_late(1, what, False)
                    b.put_late(7, what, True)
                    return NONE
                for p in hm.explore(name, driver).paths:
                    for rule, key, ok, msg in p.it.judged:
                        ctx.ob(rule, key, ok, here, msg, p)
                    if p.outcome != "return":
                        ctx.ob("meanwhile", "addition; %s meanwhile" % what, False, here,
                               "an addition after %s meanwhile fails: %s" % (what, failure(p)), p)
