"""C24: log destinations."""

import re
from itertools import product

from .absint import Cls, Const, Ext, ListO, NONE, PyRaise, Ref
from .core import check
from .model import config
from .rules_history import failure, where

C24 = {
    "works": "no error of a destination reaches the caller",
    "off": "after a write or flush has failed, nothing is written until there is a new destination",
    "silent": "with no destination nothing is written",
    "current": "a message goes to the current destination and to no other",
    "closed": "a destination is closed when another one takes its place, the standard output never",
    "open": "the current destination is not closed",
    "previous": "the previous destination is returned",
    "state": "the object is true if and only if there is a destination",
}
FILES = ("a", "b")
# What a program does with the messenger
SET = {"a": Ext("user.a"), "b": Ext("user.b"), "stdout": Const(True), "off": NONE,
       "false": Const(False)}
WRITE = {
    "line": ("call", ["text"]),
    "formatted": ("call", ["text {} and {:d}", "x", 3]),
    "blank line, line": ("call", [-1, "text"]),
    "rule, line": ("call", ["-", "text {}", "x"]),
    "line, rule": ("call", ["text {}", "x", "-"]),
    "line, blank line": ("call", ["text {}", "x", 0]),
    "rule": ("call", ["-"]),
    "character": ("call", ["."]),
    "nothing": ("call", [""]),
    "writeLine": ("writeLine", ["text"]),
    "writeChar": ("writeChar", ["."]),
}
ERRORS = ("OSError", "ValueError", "RuntimeError", "AttributeError")


class Log:
    """The destinations and what happened to them."""

    def __init__(self, it, fail):
        self.it = it
        self.fail = fail
        self.n = 0
        self.events = []
        it.log = self

    def io(self, op, name):
        self.events.append((op, name))
        k, self.n = self.n, self.n + 1
        if self.fail is None:
            return
        at, error, lasting = self.fail
        if k == at or (lasting and k > at):
            self.events.append(("failed", name, op))
            raise PyRaise(error, None, None)


def handler(op, name):
    def run(it, args, kw, node):
        it.log.io(op, name)
        return NONE
    return run


def findall(it, args, kw, node):
    if len(args) == 2 and not kw and all(isinstance(x, Const) for x in args):
        return it.alloc(ListO([Const(x) if isinstance(x, str) else x for x in re.findall(
            args[0].v, args[1].v)]))
    return it.alloc(ListO(None, None))


def setup():
    ext = {"re.findall": findall}
    for name, path in (("a", "user.a"), ("b", "user.b"), ("stdout", "sys.stdout")):
        for op in ("write", "flush", "close"):
            ext["%s.%s" % (path, op)] = handler(op, name)
    return config(ext=ext, own=("sys.stdout",), defer_fail=False, known_arrays=True, max_while=12, max_loop=12,
                  max_seconds=20)


def name_of(it, v):
    if v == NONE:
        return None
    for name, path in (("a", "user.a"), ("b", "user.b"), ("stdout", "sys.stdout")):
        if v == Ext(path):
            return name
    return v


def scripts():
    """What the program does, and when a destination fails."""
    quiet = [None]
    fails = [(k, e, lasting) for k in range(5) for e in ERRORS[:2] for lasting in (False, True)]
    every = [(k, e, False) for k in range(4) for e in ERRORS]
    for w in WRITE:
        yield (w,), quiet
        for s in ("a", "stdout"):
            yield (s, w, "character", w, "line"), quiet + (
                fails + every if w in ("line", "character", "writeLine") else fails)
    for s, t in product(SET, SET):
        yield (s, "line", t, "line", "character", s, "line"), quiet + (
            fails + [(k, "OSError", False) for k in (5, 6, 7, 8)])
    for w in ("writeLine", "writeChar", "line", "formatted"):
        yield ("a", w, "b", w, "stdout", w, "off", w, "a", w), quiet + fails


@check("C24", C24)
def c24(ctx):
    cfg = setup()
    here = where(ctx.repo.method("Messenger", "__call__"))
    for script, fails in scripts():
        for fail in dict.fromkeys(fails):
            one(ctx, cfg, here, script, fail)


def one(ctx, cfg, here, script, fail):
    key = ", ".join(script)
    what = key if fail is None else "%s; %s at operation %d%s" % (
        key, fail[1], fail[0], " and later" if fail[2] else "")

    def driver(it):
        log = Log(it, fail)
        m = it.call(Cls(it.repo.cls("Messenger")), [], {}, None)
        it.steps = []
        for op in script:
            log.events = []
            if op in SET:
                r = it.call(m, [SET[op]], {}, None)
            else:
                how, args = WRITE[op]
                f = m if how == "call" else it.getattr(m, how)
                r = it.call(f, [Const(x) for x in args], {}, None)
            ev = log.events
            log.events = []
            now = it.call(m, [], {}, None)
            it.steps.append((op, r, ev + log.events, now, it.truth(m)))
        return NONE
    a = ctx.explore("Messenger: " + what, cfg, driver)
    ctx.need(a.paths, "no path for: " + what)
    for p in a.paths:
        good = p.outcome == "return"
        ctx.ob("works", key, good, here, "%s: %s" % (what, "" if good else failure(p)), p)
        judge(ctx, p, key, what, here)


def judge(ctx, p, key, what, here):
    it = p.it
    cur, failed = None, False
    for op, r, events, now, true in it.steps:
        wrote = [e[1] for e in events if e[0] == "write"]
        broke = [e for e in events if e[0] == "failed" and e[2] != "close"]
        closed = [e[1] for e in events if e[0] == "close"]
        step = "%s: at '%s'" % (what, op)
        prev = cur
        if op in SET:
            cur = None if op in ("off", "false") else op
            ctx.ob("previous", key, name_of(it, r) == prev, here,
                   "%s the previous destination (%s) is not returned" % (step, prev), p)
            ctx.ob("silent", key, not wrote or cur is not None, here,
                   "%s something is written" % step, p)
            if prev in FILES and prev != cur:
                ctx.ob("closed", key, prev in closed, here,
                       "%s the previous destination is not closed" % step, p)
            failed = False
            if cur is None and prev is None:
                ctx.ob("closed", key, not closed, here, "%s something is closed" % step, p)
        else:
            rule = "off" if failed else "silent"
            if cur is None:
                ctx.ob(rule, key, not wrote, here, "%s something is written" % step, p)
            else:
                ctx.ob("current", key, wrote and set(wrote) == {cur}, here,
                       "%s %s" % (step, "nothing is written" if not wrote else
                                  "something is written to another destination"), p)
                if broke:
                    cur, failed = None, True
        ctx.ob("closed", key, "stdout" not in closed, here,
               "%s the standard output is closed" % step, p)
        if cur is not None:
            ctx.ob("open", key, cur not in closed, here,
                   "%s the current destination is closed" % step, p)
        ctx.ob("off" if failed else "state", key, true == (cur is not None), here,
               "%s it %s a destination" % (step, "has" if true else "does not have"), p)
        ctx.ob("off" if failed else "current", key, name_of(it, now) == cur, here,
               "%s the destination is %s" % (step, name_of(it, now)), p)
