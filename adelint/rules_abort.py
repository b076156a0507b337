"""
What an abort does: C09.
"""

from .absint import (Const, Cls, DefO, FALSE, Fun, ListO, LockO, NONE, Ref, Term, TRUE, TrackO,
                     Tup)
from .core import check
from .model import ONE_POP, Roles, config, field_of, running_false
from .rules_challenge import Challenge, base_opaque
from .rules_run import where
from .run_model import DE, P, Run, const, known_running
from .setup_model import Setup

STOPPED = {**ONE_POP, ("Population", "running"): const(False)}


@check("C09", {
    "no-evaluation": "values are passed to the evaluation function only while known to be running",
    "no-replacement": "a member is replaced only while known to be running",
    "no-generation": "a generation starts only while known to be running",
    "run-ends": "a run that is stopped or fails ends with the population as its result",
    "run-not-started": "a run of an aborted population ends at once",
    "challenges-fired": "shutting a run down fires the Deferred it is waiting for",
    "setup-ends": "setup of an aborted population ends at once and evaluates nothing",
    "setup-no-success": "setup is successful only while known to be running",
    "no-new-locks": "exclusive access is not waited for after an abort",
    "locks-released": "an abort gives back all exclusive access",
    "reports-released": "an abort releases those waiting for report callbacks",
    "reports-not-waited": "reports of an aborted population are not waited for",
    "stops": "an abort or shutdown marks its object as stopped",
    "key-press": "the user's abort does everything that was registered for it",
    "registered": "populations and runs are stopped by the user's abort",
})
def c09(ctx):
    roles = Roles(ctx.repo)
    in_challenge(ctx)
    in_setup(ctx)
    eval_func(ctx)
    in_run(ctx)
    not_started(ctx, roles)
    locking(ctx, roles)
    aborting(ctx, roles)
    shutdown(ctx, roles)
    registered(ctx)
    keyboard(ctx)


def current_ok(p, e):
    return known_running(p, e, P)


def values_given(e):
    a = e.d["targs"][0] if e.d["targs"] else e.d["kwargs"].get("values")
    return a is not None and a != NONE


def in_challenge(ctx):
    ch = Challenge(ctx)
    q = ch.fi.qual
    n = 0
    for p in ch.paths:
        for e in ch.evals(p):
            n += 1
            if values_given(e):
                ctx.ob("no-evaluation", q, current_ok(p, e), e,
                       "values are passed although there may have been an abort", p)
        for e in ch.stores(p):
            ctx.ob("no-replacement", q, current_ok(p, e), e,
                   "a member is replaced although there may have been an abort", p)
    ctx.need(n, "challenges evaluate nothing")


def in_setup(ctx):
    for blank in (False, True):
        s = Setup(ctx, blank=blank, name="Population.setup (blank %s)" % blank)
        q = s.fi.qual
        some = False
        for p in s.paths:
            for e in Challenge.evals(s, p):
                if values_given(e):
                    ctx.ob("no-evaluation", q, current_ok(p, e), e,
                           "values are passed although there may have been an abort", p)
            if p.outcome != "return":
                continue
            o = p.it.obj(p.value)
            v = o.value if isinstance(o, DefO) and o.ok else p.value
            if isinstance(o, DefO) and not o.ok:
                continue
            good = truthy(p, v)
            if good is False:
                continue
            some = True
            last = p.events[-1]
            ctx.ob("setup-no-success", q, running_now(p, last), where(s.fi),
                   "setup is successful (%r) although there may have been an abort" % (v,), p)
        ctx.need(some, "setup is never successful")


def running_now(p, last):
    """Known to be running as of the end of a path."""
    class End:
        epoch = p.it.epoch
        nf = len(p.fact_list)
        i = len(p.events)
    return known_running(p, End, P)


def truthy(p, v):
    if isinstance(v, Const):
        return bool(v.v)
    r = p.fact(Term("truthy", (v,))) if isinstance(v, Term) else None
    return r


def eval_func(ctx):
    fi = ctx.repo.method("Population", "evalFunc")

    def driver(it):
        it.pop = it.sym_inst("Population", "p")
        return it.call_fun(Fun(fi, None, it.pop), [Term("sym", ("vec",))], {})
    for alias in (STOPPED,):
        a = ctx.explore(fi.qual + " (aborted)", config(alias=alias), driver)
        n = 0
        for p in a.paths:
            for e in p.find("user"):
                n += 1
                ctx.ob("no-evaluation", fi.qual, not values_given(e), e,
                       "values are passed after an abort", p)
        ctx.need(a.paths, "%s has no paths" % fi.qual)


def in_run(ctx):
    for kw in ({"np": 2, "maxiter": 1}, {"np": 1, "maxiter": 2}):
        run = Run(ctx, goal=NONE, dwell=Const(5), random_base=FALSE, **kw)
        q = run.fi.qual
        n = 0
        for p in run.paths:
            for g in run.generations(p):
                n += 1
                e = g[0]
                ctx.ob("no-generation", q, known_running(p, e, P), e,
                       "a generation starts although there may have been an abort", p)
                ctx.ob("no-generation", q + " (shutdown)", known_running(p, e, DE, strict=True), e,
                       "a generation starts although the run may have been shut down", p)
            failed = [e for e in p.find("deferlist") if e.d.get("list_failed")]
            if failed:
                later = [g for g in run.generations(p) if g[0].i > failed[0].i]
                ctx.ob("no-generation", q + " (failure)", not later,
                       later[0][0] if later else "", "a generation follows a failure", p)
            v = p.value
            o = p.it.obj(v) if p.outcome == "return" else None
            ok = p.outcome == "return" and (o.value if isinstance(o, DefO) and o.ok else v) \
                == p.it.pop
            ctx.ob("run-ends", q, ok, where(run.fi), "the run ends with %s" % (
                p.value if p.outcome == "return" else "an error",), p)
        ctx.need(n, "no generation is run")


def not_started(ctx, roles):
    run = Run(ctx, np=1, maxiter=1, goal=NONE, dwell=Const(5), random_base=FALSE,
              stopped=True, name="aborted before")
    q = run.fi.qual
    for p in run.paths:
        ch = run.challenges(p)
        ctx.ob("run-not-started", q, not ch, ch[0] if ch else "",
               "an aborted population is evolved", p)
        o = p.it.obj(p.value) if p.outcome == "return" else None
        ok = isinstance(o, DefO) and o.ok and o.value == p.it.pop
        ctx.ob("run-not-started", q + " result", ok, where(run.fi),
               "the result is %r" % (p.value,), p)
    for blank in (False, True):
        s = Setup(ctx, blank=blank, alias=STOPPED, name="Population.setup (aborted)")
        for p in s.paths:
            ev = Challenge.evals(s, p)
            bad = [e for e in ev if values_given(e)] + s.adds(p)
            ctx.ob("setup-ends", s.fi.qual, not bad, bad[0] if bad else "",
                   "setup of an aborted population goes on", p)
            o = p.it.obj(p.value) if p.outcome == "return" else None
            v = o.value if isinstance(o, DefO) and o.ok else None
            ctx.ob("setup-ends", s.fi.qual + " result", v is not None and truthy(
                p, v) is False, where(s.fi), "the result is %r" % (v,), p)
    fi = ctx.repo.method("Population", "waitForReports")

    def driver(it):
        it.pop = it.sym_inst("Population", "p")
        return it.call_fun(Fun(fi, None, it.pop), [], {})
    a = ctx.explore(fi.qual + " (aborted)", config(
        alias=STOPPED, opaque={"History.shutdown": "deferred",
                               "Reporter.waitForCallbacks": "deferred"}), driver)
    for p in a.paths:
        o = p.it.obj(p.value) if p.outcome == "return" else None
        waits = [e for e in p.find("call") if e.d["f"] in (
            "History.shutdown", "Reporter.waitForCallbacks")]
        ctx.ob("reports-not-waited", fi.qual, isinstance(o, DefO) and not waits, where(fi),
               "after an abort %s" % ("%s is waited for" % waits[0].d["f"] if waits else
                                      "the result is %r" % (p.value,)), p)


def locking(ctx, roles):
    fi = ctx.repo.method("Population", "lock")

    def driver(it):
        it.pop = it.sym_inst("Population", "p")
        return it.call_fun(Fun(fi, None, it.pop), [Const(0), Const(1)], {})
    a = ctx.explore(fi.qual + " (aborted)", config(types=roles.types(), alias=STOPPED), driver)
    for p in a.paths:
        acq = p.find("acquire")
        o = p.it.obj(p.value) if p.outcome == "return" else None
        ctx.ob("no-new-locks", fi.qual, not acq and isinstance(o, DefO) and o.ok,
               acq[0] if acq else where(fi), "exclusive access is waited for after an abort", p)


def aborting(ctx, roles):
    fi = ctx.repo.method("Population", "abort")
    rep = ctx.repo.method("Reporter", "abort")
    wait = ctx.repo.method("Reporter", "waitForCallbacks")
    N = 3
    TR = Term("tracker", ())

    def prep(it):
        it.pop = it.sym_inst("Population", "p")
        it.rep = it.sym_inst("Reporter", "rep")
        it.inst(it.pop).fields["reporter"] = it.rep
        ci = ctx.repo.cls("Reporter")
        for name in trackers(ctx, ci):
            it.inst(it.rep).fields[name] = it.alloc(TrackO(Term("tracker", (name,))))
        it.inst(it.pop).fields[roles.locks] = it.alloc(ListO(
            [it.alloc(LockO(Term("slotlock", (k,)))) for k in range(N)]))
        for k in range(N):
            it.held[Term("slotlock", (k,))] = 1

    def by_pop(it):
        prep(it)
        return it.call_fun(Fun(fi, None, it.pop), [], {})

    def by_rep(it):
        prep(it)
        return it.call_fun(Fun(rep, None, it.rep), [], {})

    def waits(it):
        prep(it)
        return it.call_fun(Fun(wait, None, it.rep), [], {})
    cfg = dict(types=roles.types(), alias={("Reporter", "p"): lambda it, ref: it.pop})
    w = ctx.explore(wait.qual, config(**cfg), waits)
    used = {e.d["tracker"] for p in w.paths for e in p.find("track")}
    ctx.need(used, "waiting for report callbacks uses no tracker")
    for driver, f in ((by_pop, fi), (by_rep, rep)):
        a = ctx.explore(f.qual, config(**cfg), driver)
        for p in a.paths:
            ctx.ob("stops", f.qual, p.outcome == "return" and p.it.getattr(
                p.it.pop, "running") == FALSE, where(f), "the population is not stopped", p)
            quit_ = {e.d["tracker"] for e in p.find("track") if e.d["op"] == "quitWaiting"}
            ctx.ob("reports-released", f.qual, used <= quit_, where(f),
                   "those waiting for report callbacks are not released", p)
            for k in range(N):
                lock = Term("slotlock", (k,))
                rel = [e for e in p.find("release") if e.d["lock"] == lock]
                ctx.ob("locks-released", f.qual, bool(rel), where(f),
                       "exclusive access to slot %d is not given back" % k, p)


def trackers(ctx, ci):
    """Attributes that a class puts a DeferredTracker into."""
    import ast
    out = []
    for fi in ci.all_functions():
        for n in ast.walk(fi.node):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and \
               "DeferredTracker" in ast.unparse(n.value.func):
                out += [t.attr for t in n.targets if isinstance(t, ast.Attribute)]
    return sorted(set(out))


def shutdown(ctx, roles):
    fi = ctx.repo.method("DifferentialEvolution", "shutdown")

    def driver(it):
        it.pop = it.sym_inst("Population", "p")
        it.de = it.sym_inst("DifferentialEvolution", "de")
        it.fired = (None, False, True)[it.choose(3)]
        it.d = NONE
        if it.fired is not None:
            it.d = it.alloc(DefO(True, Term("sym", ("pending",)), "pending"))
            it.obj(it.d).called = it.fired
        it.inst(it.de).fields["dChallenges"] = it.d
        return it.call_fun(Fun(fi, None, it.de), [], {})
    a = ctx.explore(fi.qual, config(alias=ONE_POP, opaque={"Population.abort": "none"}), driver)
    n = 0
    for p in a.paths:
        if p.outcome != "return":
            ctx.ob("stops", fi.qual, False, where(fi), "shutting down fails", p)
            continue
        was = known_running_at_start(p)
        now = p.it.getattr(p.it.de, "running")
        ctx.ob("stops", fi.qual, now == FALSE or was is False, where(fi),
               "the run is not stopped", p)
        if was is False:
            continue
        fires = [e for e in p.find("deffire") if e.d["d"] == p.it.d]
        n += bool(fires)
        ctx.ob("challenges-fired", fi.qual, bool(fires) or p.it.fired is not False, where(fi),
               "a run that is waiting for its challenges keeps waiting", p)
        for e in fires:
            ctx.ob("stops", fi.qual + " before firing", any(
                x.kind == "setattr" and x.d["name"] == "running" and x.d["value"] == FALSE
                and x.i < e.i for x in p.events), e,
                "the run goes on before it is marked as stopped", p)
    ctx.need(n, "%s fires nothing" % fi.qual)


def known_running_at_start(p):
    t = Term("fld", (DE, "running", ""))
    v = p.fact(Term("truthy", (t,)))
    if v is None and p.fact(Term("is", (t, FALSE))) is True:
        return False
    return v


def registered(ctx):
    """What is registered for an abort stops the object it comes from."""
    def late(it, fun, args, kwargs, node, e):
        it.actions = getattr(it, "actions", [])
        it.actions.append(args[0] if args else kwargs.get("func"))
        return NONE

    def run_actions(it, obj):
        for f in getattr(it, "actions", []):
            it.call(f, [], {}, None)
        return it.getattr(obj, "running")
    opaque = {"callOnAbort": late, "KeyboardHolder.callOnAbort": late,
              "ParameterManager.__init__": "none"}

    def a_pop(it):
        names = it.alloc(ListO([Const("a")]))
        bounds = it.alloc(ListO([Tup([Const(0), Const(1)])]))
        F = Term("sym", ("func",))
        it.assume(Term("callable", (F,)), True)
        it.obj_ = it.call(Cls(ctx.repo.cls("Population")), [F, names, bounds], {}, None)
        it.pop = it.obj_
        return run_actions(it, it.obj_)

    def a_load(it):
        it.pop = it.sym_inst("Population", "p")
        it.inst(it.pop).fields["running"] = TRUE
        fi = ctx.repo.method("Population", "load")
        it.obj_ = it.call_fun(Fun(fi, None, Cls(ctx.repo.cls("Population"))), [Const("file")], {})
        return run_actions(it, it.pop)

    def a_de(it):
        it.pop = it.sym_inst("Population", "p")
        it.obj_ = it.call(Cls(ctx.repo.cls("DifferentialEvolution")), [it.pop], {}, None)
        return run_actions(it, it.obj_)

    def unpickled(it, args, kwargs, node):
        return it.pop
    for driver, name, fi in (
            (a_pop, "a new population", ctx.repo.method("Population", "__init__")),
            (a_load, "a loaded population", ctx.repo.method("Population", "load")),
            (a_de, "a run", ctx.repo.method("DifferentialEvolution", "__init__"))):
        a = ctx.explore("%s (%s)" % (fi.qual, name), config(
            alias=ONE_POP, opaque=opaque,
            ext={"pickle.load": unpickled, "pickle.loads": unpickled}), driver)
        some = 0
        for p in a.paths:
            if p.outcome != "return":
                continue
            some += 1
            ctx.ob("registered", name, p.value == FALSE, where(fi),
                   "%s is not stopped by the user's abort" % name, p)
        ctx.need(some, "%s cannot be made" % name)


def keyboard(ctx):
    """The user's abort calls all that was registered, now or (if late) soon."""
    ci = ctx.repo.cls("Keyboard")
    kh = ctx.repo.cls("KeyboardHolder")
    fi = ci.methods["dataReceived"]
    F = [Term("sym", ("action%d" % k,)) for k in range(3)]

    def later(it, args, kwargs, node):
        it.later.append((args[1], args[2:], {}))
        return it.fresh("delayed")

    def driver(it):
        it.later = []
        for f in F:
            it.assume(Term("callable", (f,)), True)
        it.kb = it.call(Cls(ci), [], {}, None)
        it.inst(it.kb).fields["transport"] = Term("sym", ("transport",))
        holder = it.call(Cls(kh), [], {}, None)
        it.inst(holder).fields["KB"] = it.kb
        reg = ctx.repo.method("KeyboardHolder", "callOnAbort")
        it.call_fun(Fun(reg, None, holder), [F[0]], {})
        it.call_fun(Fun(reg, None, holder), [F[1]], {})
        it.call_fun(Fun(fi, None, it.kb), [Term("sym", ("data",))], {})
        it.call_fun(Fun(reg, None, holder), [F[2]], {})
        for f, args, kw in it.later:
            it.call(f, list(args), kw, None)
        return NONE
    a = ctx.explore(fi.qual, config(ext={"twisted.internet.reactor.callLater": later}), driver)
    for p in a.paths:
        for k, f in enumerate(F):
            c = [e for e in p.find("user") if e.d["f"] == f]
            ctx.ob("key-press", "%s (%s)" % (fi.qual, "late" if k == 2 else "registered"),
                   p.outcome == "return" and len(c) == 1, where(fi),
                   "what was registered is done %d times" % len(c), p)
