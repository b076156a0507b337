"""C21 and C22: what the reporter reports, and when."""

from .absint import Const
from .core import check
from .intervals import INF
from .pop_model import level_of
from .rep_model import Rep, Script
from .rules_history import failure, where

C21 = {
    "best": "the best individual is the best one reported, less those complained about",
    "demoted": "an individual that a callback complains about gets an infinite SSE, others keep "
               "theirs",
    "reports": "reporting never fails",
}
PLAIN = {
    "improving": [("a", 5), ("b", 3), ("c", 1)],
    "getting worse": [("a", 1), ("b", 3), ("c", 5)],
    "the best last": [("a", 3), ("b", 5), ("c", 1)],
    "the best in the middle": [("a", 5), ("b", 1), ("c", 3)],
    "equally good": [("a", 3), ("b", 3, {"sse": "a"}), ("c", 1)],
    "an infinite SSE first": [("a", INF), ("b", 3), ("c", 5)],
    "an infinite SSE second": [("a", 3), ("b", INF), ("c", 1)],
    "a fatal evaluation first": [("a", "fatal"), ("b", 3), ("c", 1)],
    "a fatal evaluation second": [("a", 3), ("b", "fatal"), ("c", 5)],
    "challengers that improve": [("a", 5, {"versus": 7}), ("b", 3, {"versus": 4}),
                                 ("c", 1, {"versus": 2})],
    "challengers": [("a", 3, {"versus": 7}), ("b", 5, {"versus": 7}), ("c", 1, {"versus": INF})],
    "losing challengers": [("a", 3, {"versus": 2}), ("b", 5, {"versus": 4}),
                           ("c", 1, {"versus": 0})],
    "a fatal challenger": [("a", 3), ("b", "fatal", {"versus": 4}), ("c", 5, {"versus": 4})],
    "a forced report": [("a", 3), ("b", 5, {"force": 1}), ("c", 4)],
    "a forced report of a better one": [("a", 5), ("b", 3, {"force": 1}), ("c", 4)],
    "a forced report of a worse one": [("a", 5), ("b", 3), ("c", 7, {"force": 1})],
    "a forced report of an equally good one": [("a", 5), ("b", 3),
                                               ("c", 3, {"sse": "b", "force": 1})],
    "only a fatal evaluation": [("a", "fatal")],
    "only a fatal challenger": [("a", "fatal", {"versus": 4})],
    "a repeated report": [("a", 3), ("a", 3, {"force": 1}), ("b", 1)],
    "a repeated report of the best": [("a", 5), ("b", 3), ("b", 3, {"force": 1})],
    "an equal individual": [("a", 3), ("b", 3, {"like": "a"}), ("c", 1)],
    "four reports": [("a", 7), ("b", 5), ("c", 3), ("d", 1)],
}
ABORTED = {
    "an abort": [("a", 3), "abort", ("b", 1)],
    "an abort after two reports": [("a", 3), ("b", 1), "abort", ("c", 0)],
    "an abort at first": ["abort", ("a", 3), ("b", 1)],
}
COMPLAINTS = [{}, {0: "complain"}, {1: "complain"}, {2: "complain"}, {3: "complain"},
              {0: "object"}, {3: "object"}, {0: "complain", 1: "complain"},
              {1: "complain", 3: "complain"}, {0: "complain", 2: "complain"},
              {4: "complain"}]
FAILURES = [{0: "fail"}, {1: "fail"}, {2: "fail"}, {3: "fail"}, {0: "complain", 1: "fail"},
            {1: "complain", 2: "fail"}]


@check("C21", C21)
def c21(ctx):
    here = where(ctx.repo.method("Reporter", "newBest"))
    rep = Rep(ctx)
    for what, seq in PLAIN.items():
        for answers in COMPLAINTS:
            for sync in (False, True):
                if len(seq) > 3 and (not answers or sync):
                    continue
                script = Script(seq, answers, sync)
                key = what + (", with complaints" if answers else "")
                for p in rep.explore(script).paths:
                    if not ok(ctx, "reports", key, here, script, p):
                        continue
                    it, s = p.it, p.it.stage
                    best = it.getattr(s.r, "iBest")
                    want = s.who.get(s.best)
                    ctx.ob("best", key, same(it, best, want), here, "after %s the best is %s "
                           "instead of %s" % (story(script, s), name(s, best), s.best), p)
                    for n, i in s.who.items():
                        lev = s.now(n)
                        if lev == "fatal":
                            continue
                        got = level_of(it, it.getattr(i, "SSE"))
                        ctx.ob("demoted", key, got == lev, here, "after %s the SSE of %s is %s" % (
                            story(script, s), n, "infinite" if got == INF else "finite"), p)


def same(it, a, b):
    return a == b if b is not None else it.T(a) == Const(None)


def name(s, i):
    return next((n for n, x in s.who.items() if x == i), "something else")


def story(script, s):
    return "%s (callbacks run for: %s)" % (script, ", ".join(
        str(c.who) for c in s.calls if c.which == 0) or "none")


def ok(ctx, rule, key, here, script, p):
    good = p.outcome == "return"
    ctx.ob(rule, key, good, here, "%s: %s" % (script, failure(p) if not good else ""), p)
    return good


C22 = {
    "one-run": "no callback starts while another one is in progress",
    "rounds": "each individual is passed to every callback in order of registration, with its "
              "values, its SSE and what was registered",
    "latest": "the latest best individual reported is passed to the callbacks in the end",
    "only": "callbacks run only for individuals that are a new best or whose report is forced",
    "stop": "after a failure or an abort no callback starts",
    "abort": "a callback that fails aborts the population",
    "waiting": "what waits for the callbacks waits for each run and ends with an abort",
    "reports": "reporting never fails",
}


@check("C22", C22)
def c22(ctx):
    here = where(ctx.repo.method("Reporter", "runCallbacks"))
    cases = [(what, seq, a) for what, seq in PLAIN.items() for a in COMPLAINTS[:5] + FAILURES]
    cases += [(what, seq, a) for what, seq in ABORTED.items() for a in (
        {}, {0: "complain"}, {1: "complain"}, {0: "fail"}, {1: "fail"})]
    for fails in (False, True):
        rep = Rep(ctx, complaint_fails=fails)
        for what, seq, answers in cases:
            if fails and "complain" not in answers.values():
                continue
            for sync in (False, True):
                if len(seq) > 3 and (answers or sync):
                    continue
                one(ctx, rep, here, what, Script(seq, answers, sync))
    rep = Rep(ctx)
    for n in (0, 1):
        for what in ("improving", "the best in the middle"):
            one(ctx, rep, here, what, Script(PLAIN[what]), ncb=n)


def one(ctx, rep, here, what, script, ncb=2):
    def then(it, s):
        it.call(it.getattr(s.r, "waitForCallbacks"), [], {}, None)
    for p in rep.explore(script, then=then, ncb=ncb).paths:
        if not ok(ctx, "reports", what, here, script, p):
            continue
        it, s = p.it, p.it.stage
        over = [c for c in s.calls if c.during is not None]
        ctx.ob("one-run", what, not over, here, "%s: a callback starts for %s while another is in "
               "progress" % (script, over[0].who if over else "-"), p)
        late = [c for c in s.calls if c.aborted]
        ctx.ob("stop", what, not late, here, "%s: a callback starts after %s" % (
            script, "an abort" if s.aborted else "a failure"), p)
        if over or late:
            continue
        k, bad = 0, None
        for n, c in enumerate(s.calls):
            first = k == 0
            if c.which != k:
                bad = "callback %d runs instead of %d" % (c.which, k)
            elif c.who is None:
                bad = "a callback gets the values of no reported individual"
            elif not first and c.who != s.calls[n - 1].who:
                bad = "the callbacks of one run get different individuals"
            elif c.sse is None or it.T(c.sse) != c.expected:
                bad = "a callback gets another SSE than that of %s" % c.who
            elif list(c.args) != [Const("arg%d" % k)] or c.kw != {"kw": Const(k)}:
                bad = "a callback gets other arguments than registered"
            if bad:
                break
            k = (k + 1) % ncb
        over = s.aborted or s.failed or (
            rep.complaint_fails and it.getattr(it.pop, "running") == Const(False))
        if not bad and k and not over:
            bad = "not every callback is run"
        ctx.ob("rounds", what, not bad, here, "%s: %s" % (script, bad), p)
        if bad:
            continue
        ran = [c.who for c in s.calls if c.which == 0]
        if not over and ncb:
            ctx.ob("latest", what, s.due[-1:] == ran[-1:], here, "%s: the callbacks are run for %s "
                   "and not for %s in the end" % (script, ran, s.due[-1:]), p)
        extra = [x for k, x in enumerate(ran) if x not in s.due or x in ran[:k]]
        ctx.ob("only", what, not extra, here, "%s: the callbacks are run for %s, which is %s" % (
            script, extra[:1], "no new best" if extra and extra[0] not in s.due else
            "what they were run for before"), p)
        if s.failed:
            ctx.ob("abort", what, it.getattr(it.pop, "running") == Const(False), here,
                   "%s: the population runs on" % script, p)
        waits = [e for e in p.events if e.kind == "track" and e.d["op"].startswith("defer")]
        on = {e.d["tracker"] for e in waits}
        puts = [e for e in p.events if e.kind == "track" and e.d["tracker"] in on and e.d["op"] in (
            "put", "addWait")]
        ctx.ob("waiting", what, bool(on) and len(puts) >= s.runs, here, "%s: a run of the "
               "callbacks is not waited for" % script, p)
        if (s.aborted and s.busy) or s.failed:
            ctx.ob("waiting", what, any(
                e.kind == "track" and e.d["tracker"] in on and e.d["op"] == "quitWaiting"
                for e in p.events), here, "%s: waiting for the callbacks does not end with the "
                "abort" % script, p)
