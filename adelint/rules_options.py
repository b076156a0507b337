"""C27: the options of a run."""

from .absint import Cls, Const, Ext, Term, Tup, untag
from .core import CHECKS, check
from .model import ONE_POP, config
from .rules_history import failure, where
from .rules_log import Log, findall, handler
from .rules_challenge import Challenge
from .run_model import DE, Run

C27 = {
    "given": "an option given by the caller has the value given",
    "default": "an option that is not given has its documented default",
    "own": "the options of one run are not those of another",
    "accepted": "valid options are accepted, an invalid crossover rate is refused",
    "log": "messages go to the destination asked for",
    "flows": "the value of each option reaches a decision or an argument of the run",
    "CR": "crossover keeps mutated values with the probability configured",
    "F": "the weight is that configured, or drawn from the range configured",
    "adaptive": "the weight is adapted if and only if the run is adaptive",
    "maxiter": "a run ends after the generations allowed, and not before",
    "randomBase": "the base is chosen as configured",
    "bitterEnd": "a run to the bitter end does not stop for lack of progress, others do",
    "dwellByGrave": "a run waits for progress as long as configured",
    "goalSSE": "a run stops when its goal is reached, and not before",
    "xSSE": "evaluations are told the SSE to beat if so configured, else not",
}
DEFAULTS = {"CR": 0.8, "F": (0.5, 1.0), "maxiter": 500, "randomBase": False, "uniform": False,
            "adaptive": True, "bitterEnd": False, "dwellByGrave": 5, "goalSSE": None,
            "xSSE": False}
VALUES = {"CR": (0.0, 0.3, 1.0), "F": (0.7, (0.2, 0.9), 0.0), "maxiter": (0, 1, 1000),
          "randomBase": (False, True, 0.5, 0.0), "uniform": (False, True),
          "adaptive": (False, True), "bitterEnd": (False, True), "dwellByGrave": (0, 1, 40),
          "goalSSE": (0.0, 1e-3), "xSSE": (False, True)}
# Rules of other properties that say what an option does
EFFECTS = {
    "CR": ("C06", ("own-draw", "kept-otherwise", "one-kept")),
    "F": ("C12", ("as-configured", "within", "zero-is-critical", "critical-value")),
    "adaptive": ("C12", ("fixed", "down-lowers", "up-raises", "by-verdict")),
    "maxiter": ("C10", ("at-most-maxiter", "all-run")),
    "randomBase": ("C13", ("any-possible", "best-first", "sampler-picks", "base-not-target")),
    "bitterEnd": ("C11", ("bitter-end",)),
    "dwellByGrave": ("C11", ("dwell-stops", "no-early-stop")),
    "goalSSE": ("C11", ("goal-looked-at", "goal-stops")),
    "xSSE": ("C23", ("target-sse", "no-keyword", "initial-none", "losers-recorded",
                     "losers-not-recorded")),
}


def lift(v):
    return Tup([Const(x) for x in v]) if isinstance(v, tuple) else Const(v)


def same(it, got, v):
    got = untag(got)
    if isinstance(v, tuple):
        items = it.known_items(got)
        return items is not None and [untag(x) for x in items] == [Const(x) for x in v]
    return isinstance(got, Const) and type(got.v) is type(v) and got.v == v


def configuration():
    ext = {"re.findall": findall}
    for name, path in (("a", "user.a"), ("b", "user.b"), ("stdout", "sys.stdout")):
        for op in ("write", "flush", "close"):
            ext["%s.%s" % (path, op)] = handler(op, name)

    def message(name):
        def run(it, args, kw, node):
            f = it.messenger if name is None else it.getattr(it.messenger, name)
            return it.call(f, args, kw, node)
        return run
    msg = "ade.util.msg"
    ext[msg] = message(None)
    for name in ("writeLine", "writeChar", "fhSet"):
        ext["%s.%s" % (msg, name)] = message(name)
    return config(alias=ONE_POP, ext=ext, own=("sys.stdout",), defer_fail=False,
                  known_arrays=True, max_while=12, max_loop=12, max_seconds=20,
                  opaque={"callOnAbort": "none", "KeyboardHolder.callOnAbort": "none"})


def prepare(it):
    it.pop = it.sym_inst("Population", "p")
    it.messenger = it.call(Cls(it.repo.cls("Messenger")), [], {}, None)
    return Log(it, None)


def make(it, kw):
    return it.call(Cls(it.repo.cls("DifferentialEvolution")), [it.pop],
                   {k: v if isinstance(v, Ext) else lift(v) for k, v in kw.items()}, None)


def values(it, de):
    return {k: it.getattr(de, k) for k in DEFAULTS}


def construction(ctx, here):
    cfg = configuration()
    every = {k: v[1] for k, v in VALUES.items()}
    sets = [{}] + [{k: v} for k in VALUES for v in VALUES[k]] + [{k: None} for k in VALUES]
    sets += [every, {k: v[0] for k, v in VALUES.items()}, {k: None for k in VALUES}]
    for kw in sets:
        what = ", ".join("%s=%r" % x for x in kw.items()) or "no options"

        def driver(it):
            prepare(it)
            first = make(it, {"logHandle": None, **kw})
            a = values(it, first)
            second = make(it, {"logHandle": None})
            b = values(it, second)
            make(it, {"logHandle": None, **every})
            return [a, b, values(it, first), values(it, second)]
        a = ctx.explore("DifferentialEvolution(%s)" % what, cfg, driver)
        ctx.need(a.paths, "no path for " + what)
        for p in a.paths:
            ok = p.outcome == "return"
            ctx.ob("accepted", what, ok, here, "%s: %s" % (what, "" if ok else failure(p)), p)
            if not ok:
                continue
            it = p.it
            got, default, later, later_default = p.value
            for k in DEFAULTS:
                v = kw.get(k)
                rule = "default" if v is None else "given"
                v = DEFAULTS[k] if v is None else v
                ctx.ob(rule, "%s: %s" % (what, k), same(it, got[k], v), here,
                       "with %s, %s is %r" % (what, k, got[k]), p)
                ctx.ob("own", "%s: %s" % (what, k), same(it, default[k], DEFAULTS[k]), here,
                       "after a run with %s, %s of another is %r" % (what, k, default[k]), p)
                ctx.ob("own", "%s: %s" % (what, k), same(it, later[k], v) and same(
                    it, later_default[k], DEFAULTS[k]), here,
                    "another run with %s changes %s of those there are" % (what, k), p)
    for v in (-0.1, 1.1, -1, 2):
        def refuse(it):
            prepare(it)
            return make(it, {"logHandle": None, "CR": v})
        a = ctx.explore("DifferentialEvolution(CR=%r)" % v, cfg, refuse)
        for p in a.paths:
            ctx.ob("accepted", "CR=%r" % v, p.outcome == "raise", here,
                   "a crossover rate of %r is accepted" % v, p)
    for what, kw, want in (("not given", {}, {"stdout"}), ("nothing", {"logHandle": None}, set()),
                           ("a handle", {"logHandle": Ext("user.a")}, {"a"}),
                           ("True", {"logHandle": True}, {"stdout"}),
                           ("nothing, after another", {"logHandle": None, "first": Ext("user.a")},
                            set()),
                           ("True, after another", {"logHandle": True, "first": Ext("user.a")},
                            {"stdout"}),
                           ("not given, after another", {"first": Ext("user.a")}, {"stdout"}),
                           ("another handle", {"logHandle": Ext("user.b"), "CR": 0.5}, {"b"})):
        def logged(it):
            log = prepare(it)
            opts = dict(kw)
            if "first" in opts:
                make(it, {"logHandle": opts.pop("first")})
            make(it, opts)
            log.events = []
            it.call(it.messenger, [Const("text {}"), Const("x")], {}, None)
            return log.events
        a = ctx.explore("DifferentialEvolution: log handle %s" % what, cfg, logged)
        for p in a.paths:
            ok = p.outcome == "return"
            wrote = {e[1] for e in p.value if e[0] == "write"} if ok else failure(p)
            ctx.ob("log", what, wrote == want, here,
                   "with a log handle of %s, messages go to %s" % (what, wrote), p)


def fields(t, out):
    """Adds the names of the fields of the run that a value comes from."""
    if isinstance(t, Term):
        if t.op == "fld" and t.args[0] == DE:
            out.add(t.args[1])
        for x in t.args:
            fields(x, out)
    elif isinstance(t, (list, tuple)):
        for x in t:
            fields(x, out)
    elif isinstance(t, dict):
        for x in t.values():
            fields(x, out)


def flows(ctx, here):
    """Which options reach a decision, or an argument other than that of a message."""
    out = set()
    run = Run(ctx, np=1, maxiter=2, steady=True, quiet=True, name="options")
    for paths in (run.paths, Challenge(ctx).paths):
        for p in paths:
            fields(list(p.fact_list), out)
            for e in p.events:
                if e.kind in ("call", "user"):
                    fields([p.it.T(x) for x in e.d.get("args", ())], out)
                    fields([p.it.T(x) for x in e.d.get("kwargs", {}).values()], out)
    ctx.need(len(out & set(DEFAULTS)) > 4, "the options of a run are not fields of it")
    for k in DEFAULTS:
        if k != "maxiter":
            ctx.ob("flows", k, k in out, here,
                   "the value of %s reaches no decision and no argument of a run" % k)


class Part:
    """The context of another check, of which some rules are taken over."""

    def __init__(self, ctx, take):
        self.__dict__.update(ctx=ctx, take=take, pid=ctx.pid)

    def __getattr__(self, name):
        return getattr(self.ctx, name)

    def ob(self, rule, key, ok, where="", msg="", path=None):
        for option, rules in self.take.items():
            if rule in rules:
                self.ctx.ob(option, "%s: %s" % (rule, key), ok, where, msg, path)
        return ok


@check("C27", C27)
def c27(ctx):
    here = where(ctx.repo.method("DifferentialEvolution", "__init__"))
    construction(ctx, here)
    flows(ctx, here)
    for pid in sorted({x[0] for x in EFFECTS.values()}):
        take = {k: rules for k, (q, rules) in EFFECTS.items() if q == pid}
        CHECKS[pid][0](Part(ctx, take))
