"""A reporter with a few callbacks, individuals to report, and time passing."""

from .absint import Cls, Const, Ext, NONE, PyRaise
from .intervals import INF
from .pop_model import Pop, individual

CALLBACKS = ("user.callback0", "user.callback1")
COMPLAINTS = "user.complaint"


class Call:
    """One call of a callback."""

    def __init__(self, which, values, sse, args, kw):
        self.which, self.values, self.sse = which, values, sse
        self.args, self.kw = args, kw
        self.who = None
        self.ended = False
        self.aborted = False        # whether aborted when called
        self.during = None          # another one that was in progress
        self.complained = False


class Stage:
    """The reporter under test on one path."""

    def __init__(self, it, rm, script):
        self.it, self.rm = it, rm
        self.script = list(script.actions)
        self.answers = dict(script.answers)
        self.sync = script.sync
        self.calls = []
        self.reported = []          # names, as reported
        self.who = {}               # name -> individual
        self.level = {}             # name -> level as reported
        self.best = None            # name of the expected best
        self.prev = {}              # name -> best when it was reported
        self.due = []               # names for which callbacks have to run
        self.last = None
        self.aborted = False
        self.failed = False
        self.complaints = []
        it.stage = self

    def start(self, ncb=2, own=True):
        it = self.it
        self.rm.pm.make(it, ())
        it.exact_waits = True
        cls = Cls(it.repo.cls("Reporter"))
        self.r = it.call(cls, [it.pop, Ext(COMPLAINTS)] if own else [it.pop], {}, None)
        it.setattr(it.pop, "reporter", self.r, None)
        it.setattr(it.pop, "running", Const(True), None)
        for k in range(ncb):
            it.call(it.getattr(self.r, "addCallback"), [Ext(CALLBACKS[k]), Const("arg%d" % k)],
                    {"kw": Const(k)}, None)
        for what in self.script:
            if what != "abort" and what[0] not in self.who:
                self.create(*what)

    def run(self):
        self.runs = 0
        while self.script or self.it.unfired:
            if self.script:
                n = len(self.calls)
                self.act()
                self.runs += len(self.calls) > n
            for d in list(self.it.unfired):
                self.it.settle(d)

    # -- what happens ------------------------------------------------------------------------
    def act(self):
        what = self.script.pop(0)
        if what == "abort":
            self.aborted = True
            self.busy = any(not c.ended for c in self.calls)
            self.it.call(self.it.getattr(self.it.pop, "abort"), [], {}, None)
            return
        name, lev, opts = what
        i = self.who[name]
        lev = self.level[name]
        args, kw = [i], {}
        if opts.get("versus") is not None:
            o = opts["versus"]
            args.append(individual(self.it, o, "other of " + name) if o != INF else self.inf())
        if opts.get("force"):
            kw["force"] = Const(True)
        self.expect(name, lev, opts)
        self.it.call(self.r, args, kw, None)

    def create(self, name, lev, opts):
        it = self.it
        like = opts.get("like")
        i = individual(it, lev if isinstance(lev, int) else 0, like or name)
        if not like:
            # No two have the same values by chance
            n = 0.01 * len(self.who)
            for x in it.known_items(it.getattr(i, "values")):
                it.ranges[it.T(x)] = (n, n + 0.005)
        if lev == INF:
            it.setattr(i, "SSE", Const(INF), None)
        elif lev == "fatal":
            it.setattr(i, "SSE", Const(-2.0), None)
        elif like or opts.get("sse"):
            it.setattr(i, "SSE", it.getattr(self.who[like or opts["sse"]], "SSE"), None)
        self.who[name] = i
        self.level[name] = lev

    def inf(self):
        i = individual(self.it, 0, "other")
        self.it.setattr(i, "SSE", Const(INF), None)
        return i

    def now(self, name):
        """The level of an individual as it is now."""
        return INF if name in self.complaints else self.level[name]

    def expect(self, name, lev, opts):
        self.reported.append(name)
        if lev == "fatal":
            return
        lev = self.now(name)
        prev = self.best
        better = self.best is None or lev < self.now(self.best)
        if better:
            self.best = name
        if opts.get("versus") is not None and not better:
            return
        if not (better or opts.get("force")):
            return
        if self.last is not None and self.equal(name, self.last):
            return
        self.last = name
        self.prev[name] = prev
        self.due.append(name)

    def equal(self, a, b):
        return a == b or self.row(a) == self.row(b)

    def row(self, name):
        it, i = self.it, self.who[name]
        return (it.T(it.getattr(i, "SSE")),) + tuple(
            it.T(x) for x in it.known_items(it.getattr(i, "values")))

    def complaint(self, name):
        if name not in self.complaints:
            self.complaints.append(name)
        p = self.prev.get(name)
        if p is not None and self.best is not None and self.now(p) < self.now(self.best):
            self.best = p

    # -- the callbacks -----------------------------------------------------------------------
    def called(self, which, args, kw, node):
        it = self.it
        c = Call(which, args[0] if args else None, args[2] if len(args) > 2 else None,
                 args[3:], kw)
        vals = it.known_items(c.values) if c.values is not None else None
        for name in [x for x in self.reported if x not in self.due] + self.due:
            i = self.who[name]
            if vals is not None and [it.T(x) for x in vals] == [
                    it.T(x) for x in it.known_items(it.getattr(i, "values"))]:
                c.who = name
        c.aborted = self.aborted or self.failed
        c.expected = self.row(c.who)[0] if c.who is not None else None
        c.during = next((x for x in self.calls if not x.ended), None)
        n = len(self.calls)
        self.calls.append(c)
        answer = self.answers.get(n)
        if self.sync:
            self.time()
            c.ended = True
            r = self.outcome(c, answer, node)
            if isinstance(r, PyRaise):
                raise r
            return r

        def fire(d):
            self.time()
            c.ended = True
            r = self.outcome(c, answer, node)
            d.ok, d.value = not isinstance(r, PyRaise), r
        return it.pending(fire)

    def time(self):
        """Some of what is still to come happens."""
        n = self.it.choose(len(self.script) + 1, None)
        for _ in range(n):
            if self.script:
                self.act()

    def outcome(self, c, answer, node):
        if answer == "fail":
            self.failed = True
            return PyRaise("RuntimeError", None, node)
        if answer in ("complain", "object"):
            c.complained = True
            if not self.aborted and c.who is not None:
                self.complaint(c.who)
            return Const("complaint" if answer == "complain" else 0)
        return NONE


class Script:
    def __init__(self, actions, answers=(), sync=False):
        self.actions = [a if isinstance(a, str) else (a + ({},) if len(a) == 2 else a)
                        for a in actions]
        self.answers = dict(answers)
        self.sync = sync

    def __str__(self):
        out = []
        for a in self.actions:
            if isinstance(a, str):
                out.append(a)
            else:
                out.append("%s=%s%s" % (a[0], a[1], "".join(
                    " %s %s" % x for x in sorted(a[2].items()))))
        for k, v in sorted(self.answers.items()):
            out.append("call %d %ss" % (k, v))
        if self.sync:
            out.append("at once")
        return ", ".join(out)


class Rep:
    """Explorations with a reporter."""

    def __init__(self, ctx, complaint_fails=False):
        self.ctx = ctx
        ext = {COMPLAINTS: self.complained,
               "ade.util.msg.lineWritten": lambda *a: Const(False)}
        for k, path in enumerate(CALLBACKS):
            ext[path] = (lambda k: lambda it, args, kw, node: it.stage.called(
                k, args, kw, node))(k)
        self.complaint_fails = complaint_fails
        self.pm = Pop(ctx, opaque={
            "Reporter.__init__": None, "Reporter.__call__": None,
            "Reporter.progressChar": "none"}, ext=ext, max_seconds=20)

    def complained(self, it, args, kw, node):
        if self.complaint_fails:
            raise PyRaise("RuntimeError", None, node)
        return NONE

    def explore(self, script, own=True, then=None, ncb=2):
        def driver(it):
            s = Stage(it, self, script)
            s.start(ncb, own)
            s.run()
            if then is not None:
                then(it, s)
            return NONE
        a = self.ctx.explore("Reporter: %s" % script, self.pm.cfg, driver)
        self.ctx.need(a.paths, "no path for: %s" % script)
        return a
