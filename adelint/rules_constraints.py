"""C29: the checkers that a constraints object hands out."""

from .absint import Cls, Const, DictO, Ext, ListO, NONE, PyRaise, SetO, Term, Tup
from .core import check
from .model import config
from .rules_history import failure, where
from .source import AnalysisBroken

C29 = {
    "number": "there is one checker for each registered or appended constraint",
    "own": "a checker calls its own function, once",
    "values": "with exactly the parameters registered for it, linear or as powers of ten",
    "verdict": "and returns that function's verdict",
    "missing": "if a parameter is missing it accepts without calling the function",
    "params": "the parameters passed in are left alone",
    "works": "no checker fails",
}
REGISTRIES = {
    "one linear": [("a b", "-")],
    "one logarithmic": [("-", "c d")],
    "linear and logarithmic": [("a", "c"), ("b", "d")],
    "two": [("a b", ""), ("", "c")],
    "three": [("a", "d"), ("b", ""), ("", "c d")],
    "the same parameters twice": [("a b", ""), ("a b", "")],
    "a parameter in both forms": [("a", ""), ("", "a"), ("b", "c")],
    "none": [],
    "no parameters": [("", ""), ("-", "-")],
}
NAMES = "abcd"


def power(it, t):
    """The x of a power of ten, or None."""
    if not isinstance(t, Term):
        return None
    a = t.args
    if len(a) == 2 and t.op.split(":")[-1].split(".")[-1] in ("**", "pow", "power", "float_power"):
        if isinstance(a[0], Const) and a[0].v == 10:
            return a[1]
    return None


def same_verdict(it, res, v):
    """The verdict itself or its truth."""
    t = it.T(res)
    if t == v or t == Term("bool", (v,)):
        return True
    if isinstance(t, Const) and isinstance(t.v, bool):
        f = it.facts.get(Term("truthy", (v,)))
        return f is not None and f[0] == t.v
    return False


class Bench:
    def __init__(self, it, reg, appended, **kw):
        self.it = it
        self.reg = reg
        self.calls = []
        self.n = len(reg) + appended
        it.bench = self
        d = DictO({})
        for k, (lin, log) in enumerate(reg):
            d.items[Const("check%d" % k)] = Tup([self.names(lin), self.names(log)])
        kws = {"registry": it.alloc(d)}
        for k in range(len(reg)):
            kws["check%d" % k] = Ext("user.check%d" % k)
        kws.update(kw)
        self.c = it.call(Cls(it.repo.cls("Constraints")), [], kws, None)
        for k in range(appended):
            it.call(it.getattr(self.c, "append"), [Ext("user.check%d" % (len(reg) + k))], {}, None)

    def names(self, text):
        if text == "-":
            return NONE
        return self.it.alloc(SetO([Const(x) for x in text.split()]))

    def checkers(self):
        out = self.it.collect(self.c, None)
        return out

    def params(self, names, tag):
        return self.it.alloc(DictO({Const(x): Term("param", (x, tag)) for x in names}))

    def called(self, k, args, kw):
        v = Term("verdict", (k, len(self.calls)))
        self.calls.append((k, args, kw, v))
        return v


def judge_call(ctx, b, k, params, names, tag, res, key, here, p):
    """What one call of one checker did."""
    it = b.it
    calls, b.calls = b.calls, []
    if k < len(b.reg):
        lin, log = [x.replace("-", "").split() for x in b.reg[k]]
    else:
        lin = log = None
    if lin is not None and not set(lin + log) <= set(names):
        ctx.ob("missing", key, not calls and res == Const(True), here, "with a parameter missing, "
               "a checker %s" % ("calls a function" if calls else "does not accept"), p)
        return
    own = len(calls) == 1 and calls[0][0] == k
    ctx.ob("own", key, own, here, "checker %d calls %s" % (k, "the function of checker %d" % (
        calls[0][0]) if len(calls) == 1 else "%d functions" % len(calls)), p)
    if not own:
        return
    _, args, kw, v = calls[0]
    ctx.ob("verdict", key, same_verdict(it, res, v), here, "checker %d does not return the verdict of its "
           "function" % k, p)
    good = len(args) == 1 and not kw
    o = it.obj(args[0]) if good else None
    bad = None
    if not isinstance(o, DictO) or o.origin is not None:
        bad = "something else than parameters by name"
    else:
        got = {x.v if isinstance(x, Const) else x: it.T(y) for x, y in o.items.items()}
        if lin is None:
            if got != {x: Term("param", (x, tag)) for x in names}:
                bad = "other parameters than given"
        elif set(got) != set(lin + log):
            bad = "the parameters %s instead of %s" % (
                ", ".join(sorted(map(str, got))), ", ".join(sorted(set(lin + log))))
        else:
            for x in got:
                t = got[x] if x in lin else power(it, got[x])
                if t != Term("param", (x, tag)):
                    bad = "parameter %s as %s" % (x, got[x])
    ctx.ob("values", key, not bad, here, "checker %d passes %s" % (k, bad), p)


@check("C29", C29)
def c29(ctx):
    here = where(ctx.repo.method("Constraints", "__iter__"))
    ext = {}
    for k in range(6):
        ext["user.check%d" % k] = (
            lambda k: lambda it, args, kw, node: it.bench.called(k, args, kw))(k)
    cfg = config(ext=ext, defer_fail=False, known_arrays=True, max_while=12, max_loop=12,
                 max_seconds=20)
    for what, reg in REGISTRIES.items():
        for appended in (0, 1, 2):
            for order in ("collected", "one by one", "backwards", "twice", "iterated twice",
                          "debugging"):
                for given in ("abcd", "abc", "cd", "b", ""):
                    one(ctx, cfg, here, what, reg, appended, order, given)


def one(ctx, cfg, here, what, reg, appended, order, given):
    key = "%s, %d appended, %s" % (what, appended, order)

    def driver(it):
        b = Bench(it, reg, appended, **({"debug": Const(True)} if order == "debugging" else {}))
        it.log = []

        def use(k, f, tag):
            d = b.params(given, tag)
            before = dict(it.obj(d).items)
            r = it.call(f, [d], {}, None)
            it.log.append((k, tag, r, b.calls, dict(it.obj(d).items) == before))
            b.calls = []
        if order == "iterated twice":
            b.checkers()
        if order in ("one by one",):
            n = [0]

            def body(f):
                use(n[0], f, "x%d" % n[0])
                n[0] += 1
            it.iterate(b.c, body, None)
            it.count = n[0]
            return NONE
        fs = b.checkers()
        it.count = len(fs)
        for k, f in reversed(list(enumerate(fs))) if order == "backwards" else enumerate(fs):
            use(k, f, "x%d" % k)
        if order == "twice":
            for k, f in enumerate(fs):
                use(k, f, "y%d" % k)
        return NONE
    a = ctx.explore("Constraints: %s, given %s" % (key, given), cfg, driver)
    ctx.need(a.paths, "no path for: " + key)
    for p in a.paths:
        good = p.outcome == "return"
        ctx.ob("works", key, good, here, "%s: %s" % (key, "" if good else failure(p)), p)
        if not good:
            continue
        it, b = p.it, p.it.bench
        ctx.ob("number", key, it.count == b.n, here, "%s: %d checkers for %d constraints" % (
            key, it.count, b.n), p)
        if it.count != b.n:
            continue
        for k, tag, r, calls, kept in it.log:
            b.calls = calls
            judge_call(ctx, b, k, None, given, tag, r, key, here, p)
            ctx.ob("params", key, kept, here, "checker %d changes the parameters passed in" % k, p)
