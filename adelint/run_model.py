"""
The abstract paths of a whole run (DifferentialEvolution._run), with what
a challenge, a report or an adaptation does left open.
"""

import ast

from .absint import (Const, DefO, Event, FALSE, Fun, Inst, ListO, NONE, Ref, Star, Term, TRUE,
                     Tup, untag)
from .model import INF, ONE_POP, Roles, config, field_of, opaque_ranking
from .rules_challenge import LATCH
from .rules_vectors import RANDOM
from .source import own_nodes

FUNC = Term("sym", ("func",))
DE = Term("sym", ("de",))
P = Term("sym", ("p",))


def const(v):
    return lambda it, ref: Const(v)


def run_private(repo):
    """
    Attributes of the run and its weight that nothing else writes to: what
    they hold is the same after a wait of the run.
    """
    mine, foreign = [], []
    for fi in repo.all_functions():
        own = fi.cls is not None and fi.cls.name in ("DifferentialEvolution", "FManager") \
            and fi.name not in ("challenge", "shutdown", "__init__") \
            and fi not in repo.ctor_helpers()
        (mine if own else foreign).append(fi)
    more = True
    while more:
        named = {n.attr for fi in foreign for n in own_nodes(fi.node)
                 if isinstance(n, ast.Attribute)}
        more = [fi for fi in mine if fi.name in named and fi.name not in ("up", "down", "_run")]
        for fi in more:
            mine.remove(fi)
            foreign.append(fi)

    def stored(fis):
        return {n.attr for fi in fis for n in own_nodes(fi.node)
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del))}
    ctors = [fi for fi in foreign if fi.name == "__init__" or fi in repo.ctor_helpers()]
    inits = {n.attr for fi in ctors if fi.cls is not None
             and fi.cls.name == "FManager" for n in own_nodes(fi.node)
             if isinstance(n, ast.Attribute)}
    others = [fi for fi in foreign if fi not in ctors]
    return (stored(mine) | inits) - stored(others) - {"running"}


class Run:
    """
    np: size of the population; maxiter: generations allowed; steady: the
    run and the population are never stopped from elsewhere; quiet:
    challenges never fail and no other slot becomes the best meanwhile.
    """

    def __init__(self, ctx, np=2, maxiter=2, steady=False, quiet=False, name="", dwell=None,
                 goal=None, bitter=None, random_base=None, sample=None, opaque=None, func=FUNC,
                 stopped=False, **kw):
        self.ctx = ctx
        self.func = func
        self.np = np
        self.maxiter = maxiter
        self.steady = steady
        self.quiet = quiet
        self.dwell = dwell
        self.goal = goal
        self.roles = roles = Roles(ctx.repo)
        self.fi = ctx.repo.method("DifferentialEvolution", "__call__")
        alias = dict(ONE_POP)
        alias[("Population", "Np")] = const(np)
        alias[("DifferentialEvolution", "maxiter")] = const(maxiter)
        for key, val in (("dwellByGrave", dwell), ("goalSSE", goal), ("bitterEnd", bitter),
                         ("randomBase", random_base)):
            if val is not None:
                alias[("DifferentialEvolution", key)] = (
                    lambda it, ref, val=val: val)
        if steady:
            alias[("Population", "running")] = const(True)
            alias[("DifferentialEvolution", "running")] = const(True)
        if stopped:
            alias[("Population", "running")] = const(False)
        op = {
            "DifferentialEvolution.challenge": self.challenge,
            "DifferentialEvolution.shutdown": self.shutdown,
            "Population.waitForReports": "deferred",
            "Population.report": "none",
            "Population.release": "none",
            "Population.replacement": self.replacement,
            "Population.sample": sample or self.sample,
            "Population.best": self.best,
            "Population.KS": opaque_ranking if not quiet else self.fixed_ranking,
            "Population.kBest": self.first(opaque_ranking if not quiet else self.fixed_ranking),
            "FManager.__init__": self.weight,
            "FManager.up": self.up,
            "FManager.down": self.down,
        }
        op.update(opaque or {})

        def listlen(it, t):
            return Const(np) if field_of(t)[1] in (roles.slots, roles.locks) else None

        cfg = config(types={**roles.types(), ("DifferentialEvolution", "fm"): "FManager"},
                     alias=alias, latch=LATCH, opaque=op, listlen=listlen, ext=RANDOM,
                     stable=run_private(ctx.repo), **kw)
        self.analysis = ctx.explore("%s (%s)" % (self.fi.qual, name or "%d slots, %d generations" % (
            np, maxiter)), cfg, self.driver)
        self.paths = self.analysis.paths

    def driver(self, it):
        it.run = self
        it.pop = it.sym_inst("Population", "p")
        it.de = it.sym_inst("DifferentialEvolution", "de")
        if self.goal is None:
            # Not NaN
            it.assume(Term("le", (Term("fld", (DE, "goalSSE", "")), INF)), True)
        it.assume(Term("truthy", (FUNC,)), True)
        it.assume(Term("is", (FUNC, NONE)), False)
        it.assume(Term("callable", (FUNC,)), True)
        return it.call_fun(Fun(self.fi, None, it.de), [self.func], {})

    # -- hooks -----------------------------------------------------------------
    def challenge(self, it, fun, args, kwargs, node, e):
        """Runs up to its first wait, by which much can have changed."""
        if not self.steady:
            it.suspend(node, "challenge")
        return it.alloc(DefO(True, NONE, e))

    @staticmethod
    def shutdown(it, fun, args, kwargs, node, e):
        it.setattr(fun.selfv, "running", FALSE, node)
        return NONE

    @staticmethod
    def replacement(it, fun, args, kwargs, node, e):
        if args or kwargs:
            return NONE
        c = it.choose(2, node, lambda c: "improvement was %ssufficient" % ("in" if c else ""))
        return Const(not c)

    @staticmethod
    def sample(it, fun, args, kwargs, node, e):
        n = args[0].v if args and isinstance(args[0], Const) else 1
        ks = [it.fresh("sampled") for _ in range(n)]
        if it.run.steady:
            for k in ks:
                it.assume(Term("is", (k, NONE)), False)
        for k in ks:
            for x in args[1:]:
                if not isinstance(x, Star):
                    it.assume(it._eq(k, it.T(x)), False)
        return ks[0] if n == 1 else Tup(ks)

    @staticmethod
    def best(it, fun, args, kwargs, node, e):
        # One of the members, the best as of now
        key = ("best", it.epoch)
        if key not in it.globals_:
            it.globals_[key] = it.alloc(Inst(it.repo.cls("Individual"),
                                             Term("best", (it.epoch,))))
        return it.globals_[key]

    @staticmethod
    def first(ranking):
        """The slot of the best one, as the ranking has it (see C16)."""
        def f(it, fun, args, kwargs, node, e):
            return Term("item", (ranking(it, fun, args, kwargs, node, e), Const(0)))
        return f

    @staticmethod
    def fixed_ranking(it, fun, args, kwargs, node, e):
        t = Term("ranking", (P, 0))
        it.assume(Term("is", (t, NONE)), False)
        it.assume(Term("is", (Term("item", (t, Const(0))), NONE)), False)
        return t

    @staticmethod
    def weight(it, fun, args, kwargs, node, e):
        it.setattr(fun.selfv, "limited", FALSE, node)
        return NONE

    @staticmethod
    def up(it, fun, args, kwargs, node, e):
        it.setattr(fun.selfv, "limited", FALSE, node)
        return NONE

    @staticmethod
    def down(it, fun, args, kwargs, node, e):
        c = it.choose(2, node, lambda c: "the mutation weight %s its limit" % (
            "is at" if c == 0 else "is not at"))
        it.setattr(fun.selfv, "limited", Const(c == 0), node)
        return NONE

    # -- reading paths ------------------------------------------------------------
    def generations(self, p):
        """
        [[challenge events]]: challenges grouped by generation, i.e. with
        no wait for any of them in between.
        """
        out = []
        cur = None
        for e in p.events:
            if e.kind == "call" and e.d["f"] == "DifferentialEvolution.challenge":
                if cur is None:
                    cur = []
                    out.append(cur)
                cur.append(e)
            elif e.kind == "await":
                cur = None
        return out

    def awaited(self, p, upto):
        """The challenges known to have finished before an event."""
        out = set()
        lim = len(p.events) if upto is None else upto.i
        for e in p.events[:lim]:
            if e.kind == "await":
                out |= self.contained(p.it, e.d["value"])
        return out

    def contained(self, it, v, depth=0):
        """Challenges that have finished once a Deferred has fired well."""
        o = it.obj(v)
        if not isinstance(o, DefO) or depth > 6:
            return set()
        src = o.src
        if isinstance(src, Event) and src.kind == "call":
            return {src}
        if isinstance(src, Event) and src.kind == "deferlist":
            kw = src.d["kwargs"]
            if it.truth_const(kw.get("fireOnOneCallback")):
                return set()
            if not o.ok and it.truth_const(kw.get("fireOnOneErrback")):
                return set()
            if failed_list(it, v, o):
                return set()
            out = set()
            for x in src.d["items"]:
                out |= self.contained(it, x, depth + 1)
            return out
        return set()

    def challenges(self, p):
        return [e for e in p.find("call") if e.d["f"] == "DifferentialEvolution.challenge"]

    def stopped_before(self, p):
        """Whether the run was stopped from elsewhere or by a failure."""
        from .model import running_false
        return running_false(p, DE, "running") or running_false(p, P, "running") or any(
            e.d.get("list_failed") for e in p.find("deferlist")) or p.fact_any(
                lambda t, v: t.op == "is" and t.args[1] == NONE and v is True)

    def stopped(self, p, before=None):
        """Whether the run or the population is known to have been stopped."""
        from .model import running_false
        if running_false(p, DE, "running", before) or running_false(p, P, "running", before):
            return True
        lim = len(p.events) if before is None else before.i
        return any(e.kind == "setattr" and e.d["name"] == "running" and e.d["value"] == FALSE
                   for e in p.events[:lim])


def failed_list(it, v, o):
    """Whether a list of Deferreds failed at first (and was dealt with)."""
    return isinstance(o.src, Event) and o.src.d.get("list_failed", False)


def current(p, e, obj, name):
    """The term for an attribute read since the last wait before an event."""
    tag = "e%d" % e.epoch if e.epoch else ""
    return Term("fld", (obj, name, tag))


def known_running(p, e, obj=P, name="running", strict=False):
    """
    Whether the object is known, as of the last wait before an event, not
    to be stopped.  strict: None does not count as running.
    """
    t = current(p, e, obj, name)
    if not strict and p.fact(Term("is", (t, FALSE)), e) is False:
        return True
    if p.fact(Term("truthy", (t,)), e) is True:
        return True
    for x in reversed(p.events[:e.i]):
        if x.epoch != e.epoch:
            break
        if x.kind == "setattr" and x.d["name"] == name and x.d["obj"] == obj:
            return x.d["value"] == TRUE
    return False
