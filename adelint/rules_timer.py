"""C33: piecewise timing."""

from itertools import product

from .absint import Cls, Const, DefO, Ext, NONE, PyRaise, Term
from .core import check
from .model import config
from .rules_history import failure, where

C33 = {
    "works": "timing never fails",
    "call": "the function is called once, with the arguments given",
    "result": "its result or failure is passed on",
    "order": "iteration gives each timed part once, fastest average first",
}


class Clock:
    def __init__(self, it, calls, overlap, at_once):
        self.it = it
        self.calls = calls
        self.now = 0.0
        self.current = None
        self.overlap, self.at_once = overlap, at_once
        self.seen, self.fired = [], []
        self.started = {}
        it.clock = self
        self.outcomes = {}

    def outcome(self, k):
        if k not in self.outcomes:
            t = Term("result", (k,))
            self.outcomes[k] = t if self.calls[k][3] else PyRaise("RuntimeError", t, None)
        return self.outcomes[k]


def now(it, args, kw, node):
    return Const(it.clock.now)


def part(it, args, kw, node):
    c = it.clock
    k = c.current
    c.seen.append((k, tuple(it.T(x) for x in args),
                   tuple(sorted((n, it.T(x)) for n, x in kw.items()))))
    name, start, end, ok = c.calls[k]

    def fire(o):
        c.now = end
        c.fired.append(k)
        o.ok, o.value = ok, c.outcome(k)
    if c.at_once:
        c.now = end
        c.fired.append(k)
        return it.alloc(DefO(ok, c.outcome(k), "fired"))
    ref = it.pending(fire)
    c.started[k] = ref
    # Some of the time passes before the function returns
    c.now = start + (end - start) * (0.0625 if c.overlap or name != "a" else 0.875)
    return ref


def scenarios():
    """Calls as (part, start, end, successful), with times in seconds."""
    for names in ("aa", "ab", "aab", "aba", "abb", "abc", "aabb", "abab", "aaab", "abcb"):
        for lengths in product((1.0, 3.0, 8.0), repeat=len(names)):
            for overlap in (False, True):
                for bad in (None, 0, len(names) - 1):
                    if len(names) > 3 and (bad == 0 or len(set(lengths)) == 1):
                        continue
                    t, calls = 100.0, []
                    for k, x in enumerate(names):
                        # The later parts are slightly slower, so that there are no ties
                        dt = lengths[k] + {"a": 0, "b": 0.25, "c": 0.625}[x]
                        calls.append((x, t, t + dt, k != bad))
                        t += 0.5 if overlap else dt + 1
                    yield calls


def expected(calls):
    total = {}
    for x, start, end, _ in calls:
        total.setdefault(x, []).append(end - start)
    avg = {x: sum(d) / len(d) for x, d in total.items()}
    if len(set(avg.values())) < len(avg):
        return None
    return sorted(avg, key=lambda x: avg[x])


@check("C33", C33)
def c33(ctx):
    here = where(ctx.repo.method("EvalTimer", "__call__"))
    cfg = config(ext={"time.time": now, "time.perf_counter": now, "time.monotonic": now,
                      "user.part": part}, defer_fail=False, known_arrays=True, max_while=12,
                 max_loop=12, max_seconds=20)
    for calls in scenarios():
        for position in (0, 1) if len(calls) < 4 else (1,):
            one(ctx, cfg, here, calls, position, False)
        if len(calls) < 4:
            one(ctx, cfg, here, calls, 2, True)


def one(ctx, cfg, here, calls, position, at_once):
    names = "".join(c[0] for c in calls)
    overlap = len(calls) > 1 and calls[1][1] < calls[0][2]
    if overlap and at_once:
        return
    key = "%s %s, part named by argument %d" % (
        names, "at once" if at_once else "overlapping" if overlap else "in turn", position)

    def arguments(k):
        args = [Term("value", (k, j)) for j in range(3)]
        args[position] = Const(calls[k][0])
        return args

    def driver(it):
        c = Clock(it, calls, overlap, at_once)
        t = it.call(Cls(it.repo.cls("EvalTimer")), [Const(position)], {}, None)
        it.start = [x for x in it.collect(t, None)]
        events = sorted([(x[1], 0, k) for k, x in enumerate(calls)] +
                        [(x[2], 1, k) for k, x in enumerate(calls)])
        it.out, it.part_way = {}, []
        for when, what, k in events:
            c.now = when
            if what == 0:
                c.current = k
                it.out[k] = it.call(t, [Ext("user.part")] + arguments(k), {
                    "extra": Term("extra", (k,))}, None)
            else:
                if k in c.started:
                    it.settle(c.started[k])
                it.settle(it.out[k])
                it.part_way.append((list(c.fired), it.collect(t, None)))
        it.final = it.collect(t, None)
        it.seen = c.seen
        return NONE
    a = ctx.explore("EvalTimer: " + key, cfg, driver)
    ctx.need(a.paths, "no path for: " + key)
    for p in a.paths:
        good = p.outcome == "return"
        ctx.ob("works", key, good, here, "%s: %s" % (key, "" if good else failure(p)), p)
        if not good:
            continue
        it = p.it
        expect = [(k, tuple(it.T(x) for x in arguments(k)), (("extra", Term("extra", (k,))),))
                  for k in range(len(calls))]
        ctx.ob("call", key, it.seen == expect, here, "%s: the function is called %s" % (
            key, "%d times" % len(it.seen) if len(it.seen) != len(expect) else
            "with other arguments"), p)
        for k, (x, _, _, ok) in enumerate(calls):
            o = it.obj(it.out[k])
            t = Term("result", (k,))
            same = isinstance(o, DefO) and o.ok == ok and (
                it.T(o.value) == t if ok else isinstance(o.value, PyRaise) and o.value.value == t)
            ctx.ob("result", key, same, here, "%s: the %s of call %d is not passed on" % (
                key, "result" if ok else "failure", k), p)
        ctx.ob("order", key, not it.start, here, "a new timer has timed parts", p)
        for done, got in it.part_way + [(range(len(calls)), it.final)]:
            want = expected([calls[k] for k in done])
            if want is not None:
                got = [x.v if isinstance(x, Const) else x for x in got]
                ctx.ob("order", key, got == want, here, "%s: the order is %s instead of %s" % (
                    key, got, want), p)
