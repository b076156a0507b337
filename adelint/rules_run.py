"""
Whole runs: C10 (generations), C11 (stopping), C13 (sampling), C31
(improvement).
"""

from .absint import (Const, DefO, FALSE, Fun, Inst, ListO, NONE, Ref, Slice, Star, Term, TRUE,
                     Tup, strip_float, untag)
from .core import check
from .model import (NP, ONE_POP, Roles, config, field_of, raw_of, running_false, sse_alts,
                    sse_less)
from .run_model import DE, FUNC, P, Run, const, current, known_running
from .rules_vectors import RANDOM


def where(fi):
    return "%s:%d %s" % (fi.path, fi.node.lineno, fi.qual)


def user_calls(p, f=FUNC):
    return [e for e in p.find("user") if e.d["f"] == f]


@check("C10", {
    "every-slot-once": "each slot is the target of one challenge of each completed generation",
    "finished-before-next": "a generation starts only after all challenges of the last finished",
    "reports-before-next": "a generation starts only after a wait for pending reports",
    "at-most-maxiter": "no more generations than allowed are run",
    "all-run": "unless it is stopped for a reason, all the generations allowed are run",
    "func-called": "the user's function is called once per generation, with its number",
    "fires-with-population": "the run ends by returning the population object",
})
def c10(ctx):
    one = Run(ctx, np=3, maxiter=1, goal=NONE, dwell=Const(5))
    more = Run(ctx, np=1, maxiter=3, steady=True, quiet=True, goal=NONE, dwell=Const(0),
               random_base=FALSE, bitter=FALSE)
    goal = Run(ctx, np=1, maxiter=2, steady=True, quiet=True, dwell=Const(5),
               random_base=FALSE, bitter=FALSE, name="goal")
    none = Run(ctx, np=1, maxiter=2, steady=True, quiet=True, goal=NONE, dwell=Const(5),
               random_base=FALSE, bitter=FALSE, func=NONE, name="no function")
    for run in (more, goal, none):
        run.fixed = {"bitterEnd": FALSE}
    odd = Run(ctx, np=2, maxiter=2, goal=NONE, random_base=TRUE, dwell=Const(5), quiet=True)
    some = 0
    for run in (one, more, odd, goal, none):
        for p in run.paths:
            judge_generations(ctx, run, p)
            some += len(run.generations(p))
    ctx.need(some, "no challenge is started by a run")
    ctx.assume("the user's function does not itself start challenges")


def judge_generations(ctx, run, p):
    q = run.fi.qual
    gens = run.generations(p)
    calls = user_calls(p)
    if p.outcome != "return":
        if not any(e.d.get("failed") for e in p.find("user")):
            ctx.ob("fires-with-population", q, False, where(run.fi),
                   "the run ends with an error", p)
        return
    v = p.value
    o = p.it.obj(v)
    if isinstance(o, DefO):
        v = o.value if o.ok else None
    ctx.ob("fires-with-population", q, v is not None and v == p.it.pop, where(run.fi),
           "the run returns %r" % (v,), p)
    ctx.ob("at-most-maxiter", q, len(gens) <= run.maxiter,
           gens[-1][0] if gens else "", "%d generations are run" % len(gens), p)
    done = run.awaited(p, None)
    for n, g in enumerate(gens):
        targets = [p.it.T(e.d["args"][0]) if e.d["args"] else p.it.T(
            e.d["kwargs"].get("kt", NONE)) for e in g]
        complete = all(e in done for e in g)
        nxt = gens[n + 1][0] if n + 1 < len(gens) else None
        if nxt is not None:
            ok = run.awaited(p, nxt) >= set(g)
            ctx.ob("finished-before-next", q, ok, nxt,
                   "a generation starts with challenges of the last one pending", p)
            waits = [e for e in p.events[g[-1].i:nxt.i] if e.kind == "await" and waits_reports(
                p.it, e.d["value"])]
            ctx.ob("reports-before-next", q, bool(waits), nxt,
                   "a generation starts without a wait for reports", p)
        if nxt is not None or (complete and not run.stopped(p)):
            ok = sorted(map(repr, targets)) == sorted(repr(Const(k)) for k in range(run.np))
            ctx.ob("every-slot-once", q, ok, g[0],
                   "the targets of a generation are %r in a population of %d" % (
                       targets, run.np), p)
        # The user's function
        lo = g[-1].i
        hi = nxt.i if nxt is not None else len(p.events)
        mine = [c for c in calls if lo < c.i < hi]
        if run.func == FUNC:
            last = n + 1 == len(gens)
            cut = last and run.steady and not run_failed(p) and (
                n + 1 < run.maxiter or dwelled(run, p, gens, n))
            if cut:
                ctx.ob("func-called", q, not mine, mine[0] if mine else "",
                       "the function is called after the generation that ends the run", p)
            elif not last or (not run.stopped_before(p) and run.goal == NONE):
                ctx.ob("func-called", q, len(mine) == 1, g[0],
                       "the function is called %d times after generation %d" % (
                           len(mine), n), p)
            ctx.ob("func-called", q, len(mine) <= 1, g[0],
                   "the function is called %d times after a generation" % len(mine), p)
            for c in mine:
                ok = list(c.d["targs"]) == [Const(n)] and not c.d["kwargs"]
                ctx.ob("func-called", q, ok, c,
                       "the function gets %r after generation %d" % (c.d["targs"], n), p)
                ctx.ob("func-called", q, run.awaited(p, c) >= set(g) or run.stopped(p), c,
                       "the function is called before the generation is finished", p)
        else:
            ctx.ob("func-called", q, not mine, mine[0] if mine else "",
                   "there is no function to call", p)
    early = [c for c in calls if not gens or c.i < gens[0][0].i]
    ctx.ob("func-called", q, not early, early[0] if early else "",
           "the function is called before any generation", p)
    if v is not None and p.outcome == "return":
        left = pending(p, run.challenges(p))
        ctx.ob("fires-with-population", q + " at the end", run.stopped_before(p) or not left,
               left[0] if left else where(run.fi),
               "the result of the run does not wait for this challenge", p)
    if run.steady and run.goal == NONE and not run_failed(p):
        ok = len(gens) == run.maxiter or dwelled(run, p, gens, len(gens) - 1)
        ctx.ob("all-run", q, ok, where(run.fi),
               "only %d of %d generations are run, for no reason" % (len(gens), run.maxiter), p)


def pending(p, events):
    """The calls whose Deferreds may be pending when the result fires."""
    got = set()
    for r in p.it.waited_for(p.value):
        src = p.it.obj(r).src
        got.add(id(src))
    return [e for e in events if id(e) not in got]


def run_failed(p):
    return any(e.d.get("list_failed") for e in p.find("deferlist"))


def waits_reports(it, v):
    o = it.obj(v)
    if not isinstance(o, DefO):
        return False
    if o.src == "Population.waitForReports":
        return True
    if getattr(o.src, "kind", None) == "deferlist":
        return any(waits_reports(it, x) for x in o.src.d["items"])
    return False


def successes(p, lo, hi):
    """Verdicts on improvement between two events: [True/False]."""
    out = []
    for e in p.events[lo:hi]:
        if e.kind == "call" and e.d["f"] == "Population.replacement" and \
                not e.d["args"] and not e.d["kwargs"]:
            out.append(e)
    return out


def verdicts(run, p, gens):
    """[(sufficient, limited)] per generation, as far as it was asked."""
    out = []
    for n, g in enumerate(gens):
        hi = gens[n + 1][0].i if n + 1 < len(gens) else len(p.events)
        asked = successes(p, g[-1].i, hi)
        limited = None
        for e in p.events[g[-1].i:hi]:
            if e.kind == "setattr" and e.d["name"] == "limited":
                limited = e.d["value"] == TRUE
        out.append(([a.d["result"] == TRUE for a in asked], limited))
    return out


def dwell_stop(run, p, gens):
    """The generation after which lack of progress should stop the run."""
    bitter = p.fact(Term("truthy", (Term("fld", (DE, "bitterEnd", "")),)))
    al = run_alias(run, "bitterEnd")
    if al is not None:
        bitter = bool(al.v)
    if bitter is True or run.dwell is None:
        return None
    count = 0
    for n, (ok, limited) in enumerate(verdicts(run, p, gens)):
        if not ok:
            return None
        if ok[-1]:
            count = 0
        elif limited:
            count += 1
            if count > run.dwell.v:
                return n
    return None


def run_alias(run, name):
    return getattr(run, "fixed", {}).get(name)


def dwelled(run, p, gens, n):
    return dwell_stop(run, p, gens) == n


# -- C11 -----------------------------------------------------------------------

class Stopping(Run):
    def __init__(self, ctx, bitter, dwell, maxiter, **kw):
        self.fixed = {"bitterEnd": Const(bitter)}
        super().__init__(ctx, np=1, maxiter=maxiter, steady=True, quiet=True,
                         bitter=Const(bitter), dwell=Const(dwell), random_base=FALSE, **kw)


@check("C11", {
    "goal-looked-at": "a further generation is run only with the best known to miss the goal",
    "goal-stops": "no generation is run once the best is better than the goal",
    "dwell-stops": "the run stops when progress has been lacking for too long, and not later",
    "no-early-stop": "the run does not stop before that",
    "bitter-end": "with that option the run never stops for lack of progress",
    "adapted-by-verdict": "the weight goes down after insufficient improvement, else up",
    "asked-once": "improvement is asked about once per generation",
})
def c11(ctx):
    met = 0
    for bitter, rb in ((FALSE, FALSE), (TRUE, FALSE), (FALSE, TRUE)):
        goal = Run(ctx, np=1, maxiter=2, steady=True, quiet=True, dwell=Const(5),
                   random_base=rb, bitter=bitter,
                   name="goal%s%s" % (", bitter end" if bitter == TRUE else "",
                                      ", random base" if rb == TRUE else ""))
        q = goal.fi.qual
        met += judge_goal(ctx, goal)
    ctx.need(met or any(o.bad for o in ctx.obs.values()), "no path of a run meets its goal")
    for bitter in (False, True):
        for dwell, maxiter in ((0, 3), (1, 4)):
            run = Stopping(ctx, bitter, dwell, maxiter, goal=NONE,
                           name="dwell %d, %s" % (dwell, "bitter end" if bitter else "not bitter"))
            for p in run.paths:
                if run_failed(p):
                    continue
                gens = run.generations(p)
                if not gens:
                    continue
                stop = dwell_stop(run, p, gens)
                w = gens[-1][0]
                for n, (ok, limited) in enumerate(verdicts(run, p, gens)):
                    ctx.ob("asked-once", q, len(ok) == 1, gens[n][0],
                           "improvement is asked about %d times after a generation" % len(ok),
                           p)
                    adapted(ctx, run, p, gens, n, ok)
                if bitter:
                    ctx.ob("bitter-end", q, len(gens) == maxiter, w,
                           "the run stops after %d of %d generations" % (len(gens), maxiter), p)
                    continue
                if stop is not None:
                    ctx.ob("dwell-stops", q, len(gens) == stop + 1, w,
                           "%d generations are run, it should stop after %d" % (
                               len(gens), stop + 1), p)
                else:
                    ctx.ob("no-early-stop", q, len(gens) == maxiter, w,
                           "the run stops after %d of %d generations with progress not "
                           "lacking long enough" % (len(gens), maxiter), p)


def judge_goal(ctx, goal):
    q = goal.fi.qual
    G = Term("fld", (DE, "goalSSE", ""))
    met = 0
    for p in goal.paths:
        gens = goal.generations(p)
        for n, g in enumerate(gens):
            nxt = gens[n + 1][0] if n + 1 < len(gens) else None
            verdict = goal_verdict(goal, p, G, g, nxt)
            if nxt is not None:
                ctx.ob("goal-looked-at", q, verdict in ("none", "missed"), nxt,
                       "a generation starts with the goal not known to be missed "
                       "by the best individual as of the end of the last", p)
                ctx.ob("goal-stops", q, verdict != "met", nxt,
                       "a generation starts although the goal is met", p)
            elif n + 1 < goal.maxiter and not run_failed(p):
                met += verdict == "met"
                ctx.ob("no-early-stop", q + ", goal", verdict == "met", g[0],
                       "the run stops without having met its goal", p)
    ctx.need(any(len(goal.generations(p)) > 1 for p in goal.paths),
             "no path of a run has two generations")
    return met


def adapted(ctx, run, p, gens, n, ok, rule="adapted-by-verdict"):
    """The weight is adapted once, the right way."""
    hi = gens[n + 1][0].i if n + 1 < len(gens) else len(p.events)
    ups = [e for e in p.events[gens[n][-1].i:hi] if e.kind == "call" and e.d["f"] == "FManager.up"]
    downs = [e for e in p.events[gens[n][-1].i:hi] if e.kind == "call"
             and e.d["f"] == "FManager.down"]
    if not ok:
        return
    want = (1, 0) if ok[-1] else (0, 1)
    ctx.ob(rule, run.fi.qual, (len(ups), len(downs)) == want, gens[n][0],
           "improvement was %s, and the weight is adapted %d times up, %d times down" % (
               "sufficient" if ok[-1] else "insufficient", len(ups), len(downs)), p)


def goal_verdict(run, p, G, g, before):
    """'none' (no goal), 'met', 'missed' or None, as of the end of a generation."""
    lim = before if before is not None else None
    if p.fact(Term("truthy", (G,)), lim) is False or p.fact(Term("is", (G, NONE)), lim) is True:
        return "none"
    done = [e for e in p.events[g[-1].i:] if e.kind == "await"]
    if not done:
        return None
    first = done[0].epoch + 1
    hi = p.events[-1].epoch if before is None else before.epoch
    out = None
    for ep in range(first, hi + 1):
        raws = raws_of(p, Term("best", (ep,)))
        for raw in raws:
            r = sse_less(p, raw, G, lim)
            if r is not None:
                out = "met" if r else "missed"
    return out


def raws_of(p, ind):
    """Terms for the raw result of an individual."""
    out = []

    def scan(t):
        if isinstance(t, Term):
            if t.op == "fld" and t.args[0] == ind and t not in out:
                out.append(t)
            for x in t.args:
                scan(x)
    for f in p.fact_list:
        scan(f)
    return out


# -- C13 -----------------------------------------------------------------------

RANK = [2, 0, 4, 1, 3]


def sample_hook(it, args, kwargs, node):
    """random.sample: any distinct items, in any order."""
    items = it.known_items(args[0])
    n = args[1] if len(args) > 1 else kwargs.get("k")
    if items is None or not isinstance(n, Const):
        return it.alloc(ListO(None, it.fresh("sample")))
    left = list(items)
    out = []
    for _ in range(n.v):
        if not left:
            from .absint import PyRaise
            raise PyRaise("ValueError", None, node, implicit=True)
        c = it.choose(len(left), node, lambda c: "draws item %d" % c)
        out.append(left.pop(c))
    return it.alloc(ListO(out))


def choice_hook(it, args, kwargs, node):
    items = it.known_items(args[0])
    if not items:
        return it.fresh("choice")
    return items[it.choose(len(items), node, lambda c: "draws item %d" % c)]


def permutation_hook(it, args, kwargs, node):
    items = it.known_items(args[0])
    if items is None:
        return it.fresh("permutation")
    return sample_hook(it, [args[0], Const(len(items))], {}, node)


SAMPLING = {**RANDOM, "random.sample": sample_hook, "random.choice": choice_hook,
            "numpy.random.choice": None, "numpy.random.permutation": permutation_hook}
SAMPLING = {k: v for k, v in SAMPLING.items() if v is not None}


def any_of(it, fun, args, kwargs, node, e):
    """The probability sampler gives one of the items (its own rule)."""
    items = it.known_items(args[0]) if args else None
    if not items:
        return it.fresh("picked")
    return items[it.choose(len(items), node, lambda c: "picks item %d" % c)]


def fixed_rank(it, fun, args, kwargs, node, e):
    return it.alloc(ListO([Const(k) for k in RANK]))


class Sampling:
    def __init__(self, ctx, n, exclude, rb, name):
        self.fi = ctx.repo.method("Population", "sample")

        def driver(it):
            it.pop = it.sym_inst("Population", "p")
            kw = {} if rb is None else {"randomBase": rb}
            if isinstance(rb, Term):
                it.assume(Term("lt", (Const(0.0), rb)), True)
                it.assume(Term("lt", (rb, Const(1.0))), True)
                it.assume(Term("truthy", (rb,)), True)
                it.assume(it._eq(rb, Const(1.0)), False)
                it.assume(it._eq(rb, TRUE), False)
                it.assume(Term("is", (rb, TRUE)), False)
            return it.call_fun(Fun(self.fi, None, it.pop), [Const(n)] + [
                Const(k) for k in exclude], kw)
        cfg = config(alias=ONE_POP, ext=SAMPLING, max_while=4,
                     opaque={"Population.KS": fixed_rank, "ProbabilitySampler.__call__": any_of})
        self.paths = ctx.explore("%s (%s)" % (self.fi.qual, name), cfg, driver).paths


@check("C13", {
    "distinct": "the slots sampled are different from one another",
    "not-excluded": "no excluded slot is sampled",
    "as-many": "as many slots are returned as were asked for",
    "any-possible": "with random sampling each slot that is not excluded can be sampled",
    "best-first": "without randomness the best slot that is not excluded is returned",
    "sampler-picks": "weighted sampling returns one of the slots it is given",
    "four-different": "target, base and the two others of a challenge are four slots",
    "base-not-target": "a run pairs each target with a base that is another slot",
})
def c13(ctx):
    rbs = [("default", None), ("True", TRUE), ("1.0", Const(1.0)),
           ("a fraction", Term("sym", ("rb",)))]
    for label, rb in rbs:
        for n, ex in ((1, [1]), (1, []), (2, [2, 1]), (2, [0, 3])) + (
                ((3, [4, 2]),) if label == "default" else ()):
            s = Sampling(ctx, n, ex, rb, "%d, excluding %r, %s" % (n, ex, label))
            judge_sample(ctx, s, n, ex, label, True)
    for label, rb in (("False", FALSE), ("0", Const(0)), ("0.0", Const(0.0))):
        for ex in ([], [2], [2, 0], [4, 2]):
            s = Sampling(ctx, 1, ex, rb, "1, excluding %r, %s" % (ex, label))
            judge_sample(ctx, s, 1, ex, label, False)
    sampler(ctx)
    four(ctx)
    pairs(ctx)


def judge_sample(ctx, s, n, exclude, label, rnd):
    key = "%s, randomBase %s" % (s.fi.qual, label)
    w = where(s.fi)
    seen = set()
    left = [k for k in RANK if k not in exclude]
    for p in s.paths:
        if p.outcome != "return":
            ctx.ob("as-many", key, False, w, "sampling %d of %d fails" % (n, len(left)), p)
            continue
        v = p.value
        items = p.it.known_items(v)
        if n == 1 and items is None:
            items = [v]
        got = [p.it.T(x) for x in items] if items is not None else None
        ctx.ob("as-many", key, got is not None and len(got) == n and (
            n > 1 or p.it.known_items(v) is None), w,
            "%r is returned when %d are asked for" % (v, n), p)
        if not got:
            continue
        ctx.ob("distinct", key, len(set(got)) == len(got), w, "%r is returned" % (got,), p)
        ctx.ob("not-excluded", key, all(isinstance(k, Const) and k.v in left for k in got), w,
               "%r is returned, excluded are %r" % (got, exclude), p)
        seen.update(got)
        if not rnd:
            ctx.ob("best-first", key, got == [Const(left[0])], w,
                   "%r is returned, the best that is not excluded is %d" % (got, left[0]), p)
    if rnd:
        ctx.ob("any-possible", key, seen >= {Const(k) for k in left}, w,
               "only %s can be returned" % sorted(map(repr, seen)))


def sampler(ctx):
    """What ProbabilitySampler returns is an item of what it is given."""
    fi = ctx.repo.method("ProbabilitySampler", "__call__")
    K = [Term("sym", ("k%d" % k,)) for k in range(4)]

    def driver(it):
        it.pop = it.sym_inst("Population", "p")
        it.lst = it.alloc(ListO(list(K)))
        return it.call_fun(Fun(fi, None, it.sym_inst("ProbabilitySampler", "ps")),
                           [it.lst, Term("sym", ("rb",))], {})
    a = ctx.explore(fi.qual, config(ext=SAMPLING), driver)
    for p in a.paths:
        if p.outcome != "return":
            ctx.ob("sampler-picks", fi.qual, False, where(fi), "nothing is picked", p)
            continue
        v = p.it.T(p.value)
        ok = v in K or (isinstance(v, Term) and v.op in ("item", "elem") and
                        v.args[0] == Term("list", K))
        ctx.ob("sampler-picks", fi.qual, ok, where(fi), "%r is picked" % (v,), p)


def four(ctx):
    """The slots a challenge asks exclusive access for."""
    from .rules_challenge import base_opaque, LATCH
    fi = ctx.repo.method("DifferentialEvolution", "challenge")
    roles = Roles(ctx.repo)
    op = base_opaque(Population__sample=None, Population__KS=fixed_rank,
                     Population__lock="deferred", Population__release="none")
    op["ProbabilitySampler.__call__"] = any_of

    def driver(it):
        it.pop = it.sym_inst("Population", "p")
        it.de = it.sym_inst("DifferentialEvolution", "de")
        return it.call_fun(Fun(fi, None, it.de), [Const(1), Const(2)], {})
    alias = dict(ONE_POP)
    alias[("Population", "running")] = const(True)
    alias[("DifferentialEvolution", "running")] = const(True)

    def listlen(it, t):
        return Const(5) if field_of(t)[1] in (roles.slots, roles.locks) else None
    cfg = config(types=roles.types(), alias=alias, latch=LATCH, opaque=op, listlen=listlen,
                 ext=SAMPLING, user_sync=True, defer_fail=False)
    a = ctx.explore(fi.qual + " (slots)", cfg, driver)
    n = 0
    for p in a.paths:
        ks = [p.it.T(e.d["key"]) for e in p.find("get")
              if field_of(e.d["origin"])[1] == roles.slots]
        if not ks or not p.find("user"):
            continue
        n += 1
        ctx.ob("four-different", fi.qual, len(set(ks)) == 4 and {Const(1), Const(2)} <= set(ks),
               where(fi), "the slots of target 1 and base 2 are %r" % (ks,), p)
    ctx.need(n, "no challenge reads any slot")


def pairs(ctx):
    """Each challenge of a run has a base that is not its target."""
    def sample(it, fun, args, kwargs, node, e):
        return Run.sample(it, fun, args, kwargs, node, e)
    n = 0
    for rb, label in ((FALSE, "best"), (TRUE, "random"), (Const(0.5), "0.5")):
        run = Run(ctx, np=3, maxiter=1, goal=NONE, random_base=rb, sample=sample, quiet=True,
                  name="bases, " + label)
        q = run.fi.qual
        for p in run.paths:
            for g in run.generations(p):
                for e in g:
                    a = [p.it.T(x) for x in e.d["args"]] + [
                        p.it.T(x) for k, x in sorted(e.d["kwargs"].items(), reverse=True)]
                    if len(a) != 2:
                        continue
                    n += 1
                    kt, kb = a
                    diff = p.fact(p.it._eq(kt, kb), e) is False or (
                        isinstance(kt, Const) and isinstance(kb, Const) and kt != kb)
                    ctx.ob("base-not-target", "%s, %s" % (q, label), diff, e,
                           "the base of target %r is %r" % (kt, kb), p)
                    bad = isinstance(kb, Const)
                    ctx.ob("base-not-target", "%s, %s is used" % (q, label),
                           not bad and (kb.op == "sampled" or kb.op == "item"
                                        and kb.args[0].op == "ranking" and rb == FALSE), e,
                           "the base of target %r is %r" % (kt, kb), p)
                    if isinstance(kb, Term) and kb.op == "sampled":
                        s = [c for c in p.find("call") if c.d["f"] == "Population.sample"
                             and c.d["result"] == kb]
                        kw = s[-1].d["kwargs"].get("randomBase") if s else None
                        ctx.ob("base-not-target", "%s, %s is passed on" % (q, label),
                               kw == rb, e, "a base is sampled with randomBase=%r" % (kw,), p)
    ctx.need(n, "no challenge is started by a run")


# -- C31 -----------------------------------------------------------------------

@check("C31", {
    "won-scored": "a won challenge adds its ratio to the score, once",
    "lost-not-scored": "a challenge that is not won adds nothing",
    "more-for-more": "every addition is positive, and greater for a greater ratio",
    "first-yes": "the first answer is yes",
    "enough-yes": "a score above the required one is sufficient",
    "reset": "asking resets the score to zero",
    "judged-on-score": "the answer depends on the score as it was when asked",
})
def c31(ctx):
    reported(ctx)
    scored(ctx)
    asked(ctx)


def reported(ctx):
    fi = ctx.repo.method("Population", "report")
    roles = Roles(ctx.repo)

    def driver(it):
        it.pop = it.sym_inst("Population", "p")
        it.iNew = it.sym_inst("Individual", "iNew")
        it.iOld = it.sym_inst("Individual", "iOld")
        return it.call_fun(Fun(fi, None, it.pop), [it.iNew, it.iOld], {})
    cfg = config(types=roles.types(), alias=ONE_POP, opaque={
        "Reporter.__call__": "opaque", "Population.replacement": "none",
        "Population.best": "opaque"})
    a = ctx.explore(fi.qual, cfg, driver)
    raw = {n: Term("fld", (Term("sym", (n,)), roles.raw, "")) for n in ("iNew", "iOld")}
    for p in a.paths:
        if p.outcome != "return":
            ctx.ob("won-scored", fi.qual, False, where(fi), "reporting fails", p)
            continue
        rep = [e for e in p.find("call") if e.d["f"] == "Reporter.__call__"]
        add = [e for e in p.find("call") if e.d["f"] == "Population.replacement"]
        won = sse_less(p, raw["iNew"], raw["iOld"])
        stopped = running_false(p, P, "running")
        if stopped:
            continue
        ctx.ob("won-scored", fi.qual + " reports", len(rep) == 1, where(fi),
               "an individual is reported %d times" % len(rep), p)
        if not rep:
            continue
        ratio = rep[0].d["result"]
        none = p.fact(Term("is", (ratio, NONE)))
        if none is True or won is False:
            ctx.ob("lost-not-scored", fi.qual, not add, add[0] if add else "",
                   "a challenge that is not won is scored", p)
        elif won is True:
            ok = none is False and len(add) == 1 and [p.it.T(x) for x in add[0].d["args"]] + [
                p.it.T(x) for x in add[0].d["kwargs"].values()] == [ratio]
            ctx.ob("won-scored", fi.qual, ok, add[0] if add else where(fi),
                   "a won challenge adds %r" % ([e.d["args"] for e in add],), p)
        else:
            ctx.ob("lost-not-scored" if add else "won-scored", fi.qual, False,
                   add[0] if add else where(fi), "whether a challenge is scored does not "
                   "depend on whether it is won", p)
    args = [e for p in a.paths for e in p.find("call") if e.d["f"] == "Reporter.__call__"]
    for e in args:
        got = list(e.d["targs"][:2])
        ctx.ob("won-scored", fi.qual + " passes on", got == [
            Term("sym", ("iNew",)), Term("sym", ("iOld",))], e,
            "the reporter gets %r" % (got,))


def replacement_of(ctx, args, kwargs, score, required=2.0, name=""):
    fi = ctx.repo.method("Population", "replacement")

    def driver(it):
        it.pop = it.sym_inst("Population", "p")
        return it.call_fun(Fun(fi, None, it.pop), list(args), dict(kwargs))
    alias = {**ONE_POP, ("Population", "replacementScore"): lambda it, ref: score,
             ("Population", "statusQuoScore"): const(required)}
    return fi, ctx.explore("%s (%s)" % (fi.qual, name), config(alias=alias), driver)


def final(p, name="replacementScore"):
    out = None
    for e in p.find("setattr"):
        if e.d["name"] == name:
            out = e.d["value"]
    return out


def scored(ctx):
    ratios = [0, 1, 2, 3, 5, 10, 1000]
    for how in ("args", "kwargs"):
        got = []
        for r in ratios:
            c = Const(r) if r in (0, 1000) else Const(float(r))
            fi, a = replacement_of(ctx, [c] if how == "args" else [],
                                   {"rir": c} if how == "kwargs" else {}, Const(7.0),
                                   name="ratio %r" % r)
            vals = set()
            for p in a.paths:
                v = final(p)
                vals.add(v.v if isinstance(v, Const) and isinstance(
                    v.v, (int, float)) else None)
            ok = len(vals) == 1 and None not in vals
            got.append(vals.pop() if ok else None)
            ctx.ob("more-for-more", fi.qual, got[-1] is not None and got[-1] > 7.0, where(fi),
                   "a ratio of %r takes the score from 7 to %r" % (r, got[-1]))
        ok = None not in got and all(x < y for x, y in zip(got, got[1:]))
        ctx.ob("more-for-more", fi.qual + " increases", ok, where(fi),
               "ratios %r give scores %r" % (ratios, got))
    # What is added does not depend on the score so far
    adds = set()
    for base in (0, 3.0, 50.0):
        fi, a = replacement_of(ctx, [Const(4.0)], {}, Const(base), name="score %r" % base)
        for p in a.paths:
            v = final(p)
            adds.add(round(v.v - base, 9) if isinstance(v, Const) and isinstance(
                v.v, (int, float)) else None)
    ctx.ob("more-for-more", fi.qual + " adds up", len(adds) == 1 and None not in adds, where(fi),
           "a ratio of 4 adds %r" % (adds,))


def asked(ctx):
    fi, a = replacement_of(ctx, [], {}, NONE, name="first asked")
    for p in a.paths:
        ok = p.outcome == "return" and is_true(p, p.value)
        ctx.ob("first-yes", fi.qual, ok, where(fi), "the first answer is %r" % (p.value,), p)
        ctx.ob("reset", fi.qual + ", first", zero(final(p)), where(fi),
               "the score is %r after asking" % (final(p),), p)
    for score in (2.5, 3.0, 100.0):
        fi, a = replacement_of(ctx, [], {}, Const(score), name="score %r" % score)
        for p in a.paths:
            ok = p.outcome == "return" and is_true(p, p.value)
            ctx.ob("enough-yes", fi.qual, ok, where(fi),
                   "with a score of %r where 2 is required the answer is %r" % (
                       score, p.value), p)
            ctx.ob("reset", fi.qual, zero(final(p)), where(fi),
                   "the score is %r after asking" % (final(p),), p)
    S = Term("sym", ("score",))
    fi, a = replacement_of(ctx, [], {}, S, name="any score")
    for p in a.paths:
        ctx.ob("reset", fi.qual, zero(final(p)), where(fi),
               "the score is %r after asking" % (final(p),), p)
    uses = any(mentions(f, S) for p in a.paths for f in p.fact_list) or any(
        mentions(p.it.T(p.value), S) for p in a.paths if p.outcome == "return")
    ctx.ob("judged-on-score", fi.qual, uses, where(fi),
           "the answer does not depend on the score")


def zero(v):
    return isinstance(v, Const) and isinstance(v.v, (int, float)) and v.v == 0


def is_true(p, v):
    if isinstance(v, Const):
        return bool(v.v)
    if isinstance(v, Term):
        return p.fact(v) is True or p.fact(Term("truthy", (v,))) is True
    return False


def mentions(t, what):
    if t == what:
        return True
    if isinstance(t, Term):
        return any(mentions(x, what) for x in t.args)
    if isinstance(t, Tup):
        return any(mentions(x, what) for x in t.items)
    return False
