"""
The ranking and the best individual: C16.
"""

import ast

from .absint import Const, NONE
from .core import check
from .intervals import INF
from .model import Roles
from .pop_model import Pop, individual, level_of, members
from .rules_run import where
from .source import own_nodes

LEVELS = (4, 2, 6)

QUERIES = {
    "no": lambda it: None,
    "the ranking": lambda it: it.getattr(it.pop, "KS"),
    "the sorted members": lambda it: it.getattr(it.pop, "iSorted"),
    "the best": lambda it: it.call(it.getattr(it.pop, "best"), [], {}, None),
    "the best slot": lambda it: it.getattr(it.pop, "kBest"),
}


def replace(k, lev):
    def f(it, pm):
        it.setitem(it.pop, Const(k), individual(it, lev, "new"), None)
    return f


def blacklist(k):
    def f(it, pm):
        it.call(it.getattr(it.getitem(it.pop, Const(k)), "blacklist"), [], {}, None)
    return f


def push(lev):
    def f(it, pm):
        it.call(it.getattr(it.pop, "push"), [individual(it, lev, "new")], {}, None)
    return f


def method(name):
    def f(it, pm):
        it.call(it.getattr(it.pop, name), [], {}, None)
    return f


def again(levels):
    def f(it, pm):
        pm.setup(it, levels)
    return f


def both(*fs):
    def f(it, pm):
        for x in fs:
            x(it, pm)
    return f


CHANGES = {
    "nothing": lambda it, pm: None,
    "the worst replaced by a new best": replace(2, 1),
    "the best replaced by a new worst": replace(1, 9),
    "a member replaced by one that stays the second": replace(0, 5),
    "the first replaced by a new best": replace(0, 0),
    "the best demoted": blacklist(1),
    "another demoted": blacklist(0),
    "all demoted": both(blacklist(0), blacklist(1), blacklist(2)),
    "a new best pushed": push(1),
    "a new worst pushed": push(8),
    "the best demoted, then a good one pushed": both(blacklist(1), push(3)),
    "the population cleared": method("clear"),
    "the population set up anew": again((5, 9, 3)),
    "the population cleared and set up anew": both(method("clear"), again((7, 5, 1))),
    "the population initialized again": method("initialize"),
}


@check("C16", {
    "ranking": "the ranking lists each slot once, in order of increasing SSE",
    "sorted": "the sorted members are the current members, each once, in order of "
              "increasing SSE",
    "best": "the best is a member with the lowest SSE",
    "empty": "without members there is no best",
    "elsewhere": "what changes the list of members renews the ranking",
})
def c16(ctx):
    roles = Roles(ctx.repo)
    pm = Pop(ctx)
    here = where(ctx.repo.prop("Population", "KS", "get"))
    for what, change in CHANGES.items():
        for before in QUERIES:
            for after in QUERIES:
                if after == "no" or (what == "nothing" and before != "no"):
                    continue
                def driver(it):
                    pm.make(it, LEVELS)
                    QUERIES[before](it)
                    change(it, pm)
                    it.first = QUERIES[after](it)
                    it.rest = {q: QUERIES[q](it) for q in QUERIES if q != "no"}
                    return NONE
                name = "%s, having asked for %s" % (what, before)
                for p in pm.explore("%s; asked for %s" % (name, after), driver).paths:
                    if p.outcome != "return":
                        ctx.ob("ranking", name, False, here, "asking for %s after %s fails: %s" % (
                            after, name, p.value), p)
                        continue
                    judge(ctx, p, here, name, after, p.it.first)
                    for q, v in p.it.rest.items():
                        judge(ctx, p, here, name, q, v)
    during(ctx, here)
    elsewhere(ctx, roles)


def judge(ctx, p, here, name, query, v):
    it = p.it
    ms = members(it)
    levels = [level_of(it, it.getattr(m, "SSE")) for m in ms]
    ctx.need(None not in levels, "a member of unknown SSE")
    n = len(ms)
    if query == "the best":
        if not n:
            ctx.ob("empty", name, v == NONE, here, "the best of no members is %s" % (v,), p)
            return
        best = [m for m, x in zip(ms, levels) if x == min(levels)]
        ctx.ob("best", name, v in best, here, "after %s, the best has level %s of %s" % (
            name, levels[ms.index(v)] if v in ms else v, levels), p)
    elif query == "the best slot":
        if not n:
            ctx.ob("empty", name, v == NONE, here, "the best slot of none is %s" % (v,), p)
            return
        ok = isinstance(v, Const) and v.v in range(n) and levels[v.v] == min(levels)
        ctx.ob("best", name, ok, here, "after %s, the best slot is %s with levels %s" % (
            name, v, levels), p)
    elif query == "the ranking":
        ks = it.known_items(v) if v != NONE else []
        ok = ks is not None and all(isinstance(k, Const) for k in ks) and sorted(
            k.v for k in ks) == list(range(n))
        ok = ok and rising([levels[k.v] for k in ks])
        ctx.ob("ranking", name, ok, here, "after %s, the ranking is %s with levels %s" % (
            name, ks, levels), p)
    else:
        ks = it.known_items(v) if v != NONE else []
        ok = ks is not None and len(ks) == n and all(ks.count(m) == ms.count(m) for m in ms)
        ok = ok and rising([levels[ms.index(m)] for m in ks])
        ctx.ob("sorted", name, ok, here, "after %s, the sorted members are not the members in "
               "order of SSE" % name, p)


def rising(xs):
    return all(a <= b for a, b in zip(xs, xs[1:]))


def during(ctx, here):
    """Asked while the population is being filled."""
    for query in QUERIES:
        if query == "no":
            continue

        def ask(it, fun, args, kwargs, node, e):
            QUERIES[query](it)
            return NONE
        pm = Pop(ctx, opaque={"Reporter.__call__": ask, "History.add": ask})

        def driver(it):
            pm.make(it, LEVELS)
            it.rest = {q: QUERIES[q](it) for q in QUERIES if q != "no"}
            return NONE
        name = "setup, asked for %s meanwhile" % query
        for p in pm.explore(name, driver).paths:
            if p.outcome != "return":
                ctx.ob("ranking", name, False, here, "asking during setup fails: %s" % p.value, p)
                continue
            for q, v in p.it.rest.items():
                judge(ctx, p, here, name, q, v)


def elsewhere(ctx, roles):
    """Changes of the list of members outside the population's own methods."""
    n = 0
    for fi in ctx.repo.all_functions():
        writes, renews = [], False
        for x in own_nodes(fi.node):
            if isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)) \
               and isinstance(x.value, ast.Attribute) and x.value.attr == roles.slots:
                writes.append(x)
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) \
               and isinstance(x.func.value, ast.Attribute) and x.func.value.attr == roles.slots \
               and x.func.attr in ("append", "insert", "pop", "remove", "extend", "sort", "clear",
                                   "reverse"):
                writes.append(x)
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)) \
               and x.attr in ("KS", "_KS"):
                renews = True
            if isinstance(x, ast.Attribute) and x.attr in ("initialize", "push", "__setitem__",
                                                           "clear"):
                renews = True
        n += len(writes)
        own = fi.cls is not None and fi.cls.name == "Population"
        if writes:
            ctx.ob("elsewhere", fi.qual, own or renews, "%s:%d %s" % (fi.path, writes[0].lineno, fi.qual),
                   "the list of members is changed, but the ranking is kept")
    ctx.count_sites(n)
