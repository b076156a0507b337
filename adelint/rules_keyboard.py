"""C28: the user's abort and the actions registered for it."""

import ast
import itertools

from .absint import Cls, Const, Ext, Fun, NONE, PyRaise
from .core import check
from .model import config
from .rules_history import failure, where
from .source import AnalysisBroken

C28 = {
    "once": "an abort runs every action registered so far exactly once, in that order",
    "late": "an action registered after an abort is run once as well",
    "nothing-else": "no action is run without an abort, or while the keyboard is ignored",
    "refused": "what cannot be called is refused when registered",
    "works": "registering, aborting and shutting down never fail",
}
MODULE = "ade.abort"


class World:
    """The keyboard, the reactor and the actions on one path."""

    def __init__(self, it, effects):
        self.it = it
        self.effects = dict(effects)     # action -> what it does when run
        self.keyboard = None
        self.queue = []
        self.triggers = []
        self.n = 0
        self.registered, self.ran = [], []
        self.aborted = self.ignored = self.closed = False
        self.expected_early = []
        self.past = []
        it.world = self
        # A new process: the classes as their source leaves them
        for ci in it.repo.modules[MODULE].classes.values():
            for name, expr in ci.attrs.items():
                if isinstance(expr, ast.Constant):
                    it.setattr(Cls(ci), name, Const(expr.value), None)

    def module(self, name, *args):
        it = self.it
        if MODULE not in it.repo.modules:
            raise AnalysisBroken("no module %s" % MODULE)
        fi = it.repo.function(MODULE, name)
        return it.call(Fun(fi, None, None), list(args), {}, None)

    # -- steps -------------------------------------------------------------------------------
    def step(self, what):
        getattr(self, what)()

    def register(self):
        k = self.n
        self.n += 1
        self.registered.append(k)
        self.module("callOnAbort", Ext("user.action%d" % k))

    def press(self):
        """Input arrives, as long as the terminal is connected."""
        if self.keyboard is None or self.closed:
            return
        if not self.ignored:
            self.aborted = True
        self.it.call(self.it.getattr(self.keyboard, "dataReceived"), [Const(b"\n")], {}, None)

    def abort(self):
        if not self.ignored:
            self.aborted = True
        self.module("abortNow")

    def ignore(self):
        self.ignored = True
        self.module("ignoreKeyboard")

    def shutdown(self):
        self.module("shutdown")

    def restart(self):
        """Ready to abort again: what came before counts for itself."""
        old = World.__new__(World)
        old.__dict__.update(self.__dict__)
        self.past.append(old)
        self.registered, self.ran, self.expected_early = [], [], []
        self.aborted = False
        self.module("restart")

    def again(self):
        """More input while the actions are being run."""
        self.it.call(self.it.getattr(self.keyboard, "dataReceived"), [Const(b"\n")], {}, None)

    def later(self):
        """What was left to the reactor."""
        for _ in range(20):
            if not self.queue:
                return
            f, args, kw = self.queue.pop(0)
            self.it.call(f, args, kw, None)
        raise AnalysisBroken("the reactor never gets idle")

    # -- the surroundings ----------------------------------------------------------------------
    def run_action(self, k):
        self.ran.append(k)
        eff = self.effects.get(k)
        if eff:
            self.step(eff)
        return NONE


def ext():
    def later(it, args, kw, node):
        it.world.queue.append((args[1], list(args[2:]), kw))
        return Ext("user.delayed")

    def trigger(it, args, kw, node):
        t = Const("trigger %d" % it.uid_next())
        it.world.triggers.append(t)
        return t

    def remove(it, args, kw, node):
        if it.T(args[0]) not in it.world.triggers:
            raise PyRaise("ValueError", None, node)
        it.world.triggers.remove(it.T(args[0]))
        return NONE

    def stdio(it, args, kw, node):
        it.world.keyboard = args[0]
        it.world.closed = False
        it.setattr(args[0], "transport", Ext("user.transport"), node)
        return NONE

    def close(it, args, kw, node):
        it.world.closed = True
        return NONE
    out = {"twisted.internet.reactor.callLater": later,
           "twisted.internet.reactor.addSystemEventTrigger": trigger,
           "twisted.internet.reactor.removeSystemEventTrigger": remove,
           "twisted.internet.stdio.StandardIO": stdio,
           "user.transport.loseConnection": close,
           "signal.signal": lambda *a: NONE}
    for k in range(6):
        out["user.action%d" % k] = (lambda k: lambda it, args, kw, node: it.world.run_action(k))(k)
    return out


def judge(ctx, here, w, p, text):
    key = "a sequence with%s abort%s" % (
        "" if w.aborted else "out", ", the keyboard ignored" if w.ignored else "")
    if not w.aborted:
        ctx.ob("nothing-else", key, not w.ran, here, "%s: actions %s are run" % (text, w.ran), p)
        return
    before = w.expected_early
    early = [k for k in w.ran if k in before]
    ctx.ob("once", key, early == before, here, "%s: of the actions %s registered before the "
           "abort, %s are run" % (text, before, early), p)
    late = [k for k in w.registered if k not in before]
    got = [k for k in w.ran if k not in before]
    if late:
        ctx.ob("late", key, sorted(got) == late, here, "%s: of the actions %s registered after the "
               "abort, %s are run" % (text, late, got), p)


def sequences():
    steps = ("register", "press", "abort")
    seen = []
    for n in (1, 2, 3, 4, 5):
        for s in itertools.product(steps, repeat=n):
            if s.count("register") > 3 or s.count("register") == 0:
                continue
            if s.count("press") + s.count("abort") > 3:
                continue
            seen.append((s, {}))
    for s in [("register",), ("register", "register"), ("register", "register", "register")]:
        for end in (("press",), ("abort",), ("press", "press"), ("press", "register"),
                    ("abort", "register")):
            for k in range(len(s)):
                for eff in ("register", "again", "abort"):
                    seen.append((s + end, {k: eff}))
    for s in (("register", "ignore", "press"), ("register", "ignore", "abort"),
              ("ignore", "register", "press"), ("ignore", "register", "abort", "press"),
              ("register", "register", "ignore", "press", "press"),
              ("register", "ignore", "ignore", "press"),
              ("register", "shutdown"), ("register", "shutdown", "shutdown"),
              ("register", "press", "shutdown"), ("shutdown",),
              ("register", "register", "abort", "shutdown", "shutdown"),
              ("register", "shutdown", "press"),
              ("register", "press", "restart", "register", "press"),
              ("register", "abort", "restart", "register", "register", "abort", "press"),
              ("register", "press", "restart", "register"),
              ("register", "press", "restart", "register", "press", "register"),
              ("restart", "register", "press")):
        seen.append((s, {}))
    return seen


@check("C28", C28)
def c28(ctx):
    here = where(ctx.repo.method("Keyboard", "dataReceived"))
    cfg = config(ext=ext(), defer_fail=False, known_arrays=True, max_while=12, max_loop=12,
                 max_seconds=20)
    for seq, effects in sequences():
        def driver(it):
            w = World(it, effects)
            for what in seq:
                fresh = not w.aborted
                w.step(what)
                w.later()
                if fresh and w.aborted:
                    w.expected_early = list(w.registered)
            return NONE
        text = ", ".join(seq) + "".join("; action %d: %s" % x for x in effects.items())
        a = ctx.explore("abort: " + text, cfg, driver)
        ctx.need(a.paths, "no path for: " + text)
        for p in a.paths:
            good = p.outcome == "return"
            ctx.ob("works", "sequences of up to %d steps" % len(seq), good, here,
                   "%s: %s" % (text, "" if good else failure(p)), p)
            if good:
                for w in p.it.world.past + [p.it.world]:
                    judge(ctx, here, w, p, text)
    for what, val in (("nothing", NONE), ("a number", Const(3)), ("a text", Const("x"))):
        def driver(it):
            w = World(it, {})
            w.register()
            it.refused = False
            try:
                w.module("callOnAbort", val)
            except PyRaise:
                it.refused = True
            w.abort()
            w.later()
            return NONE
        for p in ctx.explore("abort: registering " + what, cfg, driver).paths:
            good = p.outcome == "return"
            ctx.ob("refused", what, good and p.it.refused, here,
                   "registering %s is not refused" % what, p)
            ctx.ob("once", "after a refusal", good and p.it.world.ran == [0], here,
                   "after %s is registered, the actions run are %s" % (what, p.it.world.ran), p)
