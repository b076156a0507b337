"""
Filling the population: C14.
"""

from .absint import Const, DefO, LockO, NONE, Term, TRUE, TrackO
from .core import check
from .model import NP, Roles, field_of, raw_of
from .rules_challenge import Challenge
from .rules_results import ANY, INF, UNUSABLE
from .rules_run import where
from .run_model import const
from .setup_model import Setup

RESULTS = [ANY] + UNUSABLE
PARALLEL = Term("sym", ("the limit",))


def result(it, e):
    """Any kind of result, one of them per evaluation."""
    k = it.choose(len(RESULTS), e.node, lambda c: "the result is %s" % RESULTS[c].name)
    e.d["kind"] = RESULTS[k]
    v = RESULTS[k].raw(it, "r%d" % e.i)
    return v


@check("C14", {
    "finite": "only an individual evaluated with a finite SSE becomes a member",
    "blank": "members of a blank population have an infinite SSE and are not evaluated",
    "not-full": "a member is added only while the population is known not to be full",
    "own-lock": "each member comes with its own lock",
    "full": "setup is successful only if the population was found full",
    "fatal": "a fatal evaluation ends setup without success",
    "admitted": "a finite result is admitted while there is room",
    "parallel": "evaluations started are held to the limit",
})
def c14(ctx):
    for np, whiles in ((2, 2), (1, 2)):
        s = Setup(ctx, blank=False, uniform=True, whiles=whiles, user_result=result,
                  opaque={"ParameterManager.passesConstraints": lambda *a: TRUE},
                  alias={("Population", "Np"): const(np),
                         ("Population", "maxTries"): const(2),
                         ("Population", "N_maxParallel"): lambda it, ref: PARALLEL},
                  name="Population.setup (size %d)" % np)
        filling(ctx, s, np)
    s = Setup(ctx, blank=True, uniform=True, whiles=3,
              opaque={"ParameterManager.passesConstraints": lambda *a: TRUE},
              alias={("Population", "Np"): const(2),
                     ("Population", "maxTries"): const(2)},
              name="Population.setup (blank)")
    blank(ctx, s)


def common(ctx, s, p, np):
    q = s.fi.qual
    adds = s.adds(p)
    for e in adds:
        n = Term("len", (e.d["obj"],))
        room = p.fact(Term("lt", (n, Const(np))), e) is True or p.fact(
            p.it._eq(n, Const(np)), e) is False
        ctx.ob("not-full", q, room, e, "a member is added without knowing that there is room", p)
        locks = [x for x in p.find("mut") if field_of(x.d["origin"])[1] == s.roles.locks
                 and x.epoch == e.epoch and x.d["op"] == "append"]
        mine = [x for x in adds if x.epoch == e.epoch]
        ok = len(locks) == len(mine) and len({x.d["args"][0] for x in locks}) == len(locks) \
            and all(isinstance(p.it.obj(x.d["args"][0]), LockO) for x in locks)
        ctx.ob("own-lock", q, ok, e, "a member is added without a lock of its own", p)
    return adds


def outcome(p):
    """Whether setup reports success: True, False, or None if it fails."""
    if p.outcome != "return":
        return None
    v = p.value
    o = p.it.obj(v)
    while isinstance(o, DefO):
        if not o.ok:
            return None
        v, o = o.value, p.it.obj(o.value)
    if isinstance(v, Const):
        return bool(v.v)
    return True


def found_full(p, s, np):
    def yes(t, v):
        if t.op in ("lt", "le", "eq") and len(t.args) == 2:
            x, y = t.args
            n = Const(np)
            if is_len(x, s) and y == n:
                return (t.op, v) in (("lt", False), ("eq", True))
            if is_len(y, s) and x == n:
                return (t.op, v) in (("le", True), ("eq", True))
        return False
    return p.fact_any(yes)


def is_len(t, s):
    return isinstance(t, Term) and t.op == "len" and field_of(t.args[0])[1] == s.roles.slots


def member(e):
    return e.d["args"][-1] if e.d["args"] else None


def filling(ctx, s, np):
    q = s.fi.qual
    n = good = 0
    for p in s.paths:
        adds = common(ctx, s, p, np)
        evals = Challenge.evals(s, p)
        for e in adds:
            n += 1
            raw = raw_of(p.it, member(e), s.roles)
            mine = [x for x in evals if not x.d["failed"] and x.d["result"] == raw and x.i < e.i]
            ok = bool(mine) and mine[-1].d["kind"].usable
            ctx.ob("finite", q, ok, e, "an individual is added with a result that is %s" % (
                mine[-1].d["kind"].name if mine else raw), p)
        # Admission of what is fit for it
        for x in evals:
            if x.d["failed"] or not x.d["kind"].usable or not outcome(p):
                continue
            mine = [e for e in adds if raw_of(p.it, member(e), s.roles) == x.d["result"]]
            end = [e.nf for e in p.find("suspend") if e.i > x.i]
            full = any(len_false(t, p.facts[t][0], s, np) for t in p.fact_list[
                x.nf:end[1] if len(end) > 1 else None])
            ctx.ob("admitted", q, len(mine) == 1 or (not mine and full), x,
                "a finite result is admitted %d times" % len(mine), p)
        r = outcome(p)
        if r:
            good += 1
            ctx.ob("full", q, found_full(p, s, np), where(s.fi),
                   "setup is successful without the population having been found full", p)
        bad = [x for x in evals if x.d["failed"] or x.d["kind"].fatal]
        if bad:
            ctx.ob("fatal", q, not r, bad[0], "setup is successful after a fatal evaluation", p)
        parallel(ctx, s, p, evals)
    ctx.need(n and good, "setup adds nothing, or never succeeds")


def len_false(t, v, s, np):
    if t.op == "lt" and v is False and is_len(t.args[0], s):
        return True
    if t.op == "le" and v is True and is_len(t.args[1], s):
        return True
    return t.op == "eq" and v is True and any(is_len(x, s) for x in t.args)


def parallel(ctx, s, p, evals):
    """Between two evaluations the limit is waited for, or the first one's end."""
    it = p.it
    for a, b in zip(evals, evals[1:]):
        # What is waited for in between
        waits = [e for e in p.events[a.i:b.i] if e.kind == "await"]
        ok = False
        for w in waits:
            o = it.obj(w.d["value"])
            if a in deep_src(it, w.d["value"]):
                ok = True
            src = getattr(o, "src", None)
            if is_limit(src):
                ok = True
        ctx.ob("parallel", s.fi.qual, ok, b,
               "an evaluation is started without waiting for room among the running ones", p)
    # What is limited has to be known to the tracker
    for w in p.find("track"):
        if w.d["op"] == "deferUntilFewer":
            lim = it.T(w.d["args"][0]) if w.d["args"] else None
            ctx.ob("parallel", s.fi.qual + " limit", lim == PARALLEL, w,
                   "the number of evaluations is held to %r" % (lim,), p)
            put = [x for x in p.find("track") if x.d["op"] == "put" and x.i < w.i
                   and x.d["tracker"] == w.d["tracker"]]
            started = [x for x in evals if x.i < w.i]
            known = set()
            for x in put:
                known |= deep_src(it, x.d["args"][0])
            awaited = set()
            for x in p.find("await"):
                if x.i < w.i:
                    awaited |= deep_src(it, x.d["value"])
            ctx.ob("parallel", s.fi.qual + " tracked", all(
                x in known or x in awaited for x in started), w,
                "an evaluation is neither waited for nor tracked", p)


def is_limit(src):
    return isinstance(src, tuple) and len(src) > 1 and src[0] == "track" and \
        src[1] in ("deferUntilFewer", "deferToAll", "deferToAny")


def deep_src(it, v):
    """The evaluations that a Deferred stands for."""
    out, seen = set(), set()

    def go(v):
        o = it.obj(v)
        if not isinstance(o, DefO) or id(o) in seen:
            return
        seen.add(id(o))
        if o.src is not None and hasattr(o.src, "kind"):
            out.add(o.src)
        for w in it.waited_for(v):
            go(w)
    go(v)
    return out


def blank(ctx, s):
    q = s.fi.qual
    n = 0
    for p in s.paths:
        adds = common(ctx, s, p, 2)
        evals = Challenge.evals(s, p)
        ctx.ob("blank", q, not evals, evals[0] if evals else "",
               "a blank setup evaluates", p)
        for e in adds:
            n += 1
            raw = raw_of(p.it, member(e), s.roles)
            ctx.ob("blank", q + " SSE", raw == Const(INF), e,
                   "a blank member has the result %r" % (raw,), p)
        if outcome(p):
            ctx.ob("full", q + " (blank)", found_full(p, s, 2), where(s.fi),
                   "setup is successful without the population having been found full", p)
    ctx.need(n, "a blank setup adds nothing")
