"""
A path-sensitive abstract interpreter over the syntax trees of the
analysed package.

Abstract values say where a value comes from (provenance terms), not
what it is.  Unknown branch conditions split the analysis, and what was
assumed is kept as a fact of the path.  Loops over things of unknown
length are analysed for zero, one and two rounds.  Functions of the
package are analysed in the context of each call (helpers, closures,
properties, operators), so it does not matter how code is divided up.
Everything else is an opaque call that is recorded as an event.

The result for one entry point is the list of its abstract paths: the
ordered events of each, with the facts known at each event.  The rules
in rules_*.py decide their property on those.

Deferreds: a coroutine (inlineCallbacks) is analysed at its call; each
yield is a suspension point, after which whatever other code may have
changed in the meantime (attributes stored to outside constructors) is
unknown again.
"""

import ast
import collections.abc
import math
import os
import random
import sys
import threading
import time

from . import stdlib_model
from .source import FuncInfo, own_nodes
from .stdlib_model import BITS, is_subclass

sys.setrecursionlimit(20000)


# --------------------------------------------------------------------------
# Values
# --------------------------------------------------------------------------

class Const:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, Const) and type(o.v) is type(self.v) and (
            o.v == self.v or (o.v != o.v and self.v != self.v))

    def __hash__(self):
        return hash((type(self.v).__name__, "nan" if self.v != self.v else self.v))

    def __repr__(self):
        return repr(self.v)


class Term:
    __slots__ = ("op", "args", "_h", "_r")

    def __init__(self, op, args=()):
        self._r = None
        self.op = op
        self.args = tuple(args)
        self._h = hash((op, self.args))

    def __eq__(self, o):
        return (isinstance(o, Term) and o._h == self._h and o.op == self.op
                and o.args == self.args)

    def __hash__(self):
        return self._h

    def __repr__(self):
        if self._r is None:
            self._r = self._text()
        return self._r

    def _text(self):
        if self.op == "sym":
            return str(self.args[0])
        if self.op == "fld":
            tail = "" if len(self.args) < 3 or not self.args[2] else "@%s" % (self.args[2],)
            return "%r.%s%s" % (self.args[0], self.args[1], tail)
        return "%s(%s)" % (self.op, ", ".join(
            x if isinstance(x, str) else repr(x) for x in self.args))


class Ref:
    __slots__ = ("oid",)

    def __init__(self, oid):
        self.oid = oid

    def __eq__(self, o):
        return isinstance(o, Ref) and o.oid == self.oid

    def __hash__(self):
        return hash(("ref", self.oid))

    def __repr__(self):
        return "#%d" % self.oid


class Fun:
    def __init__(self, fi, env=None, selfv=None):
        self.fi = fi
        self.env = env
        self.selfv = selfv
        self.defaults = None
        self.raw = False           # without its decorators

    def __eq__(self, o):
        return isinstance(o, Fun) and o.fi is self.fi and o.selfv == self.selfv

    def __hash__(self):
        return hash((id(self.fi), self.selfv))

    def __repr__(self):
        return "<fun %s>" % self.fi.qual


class Cls:
    def __init__(self, ci):
        self.ci = ci

    def __eq__(self, o):
        return isinstance(o, Cls) and o.ci is self.ci

    def __hash__(self):
        return hash(id(self.ci))

    def __repr__(self):
        return "<class %s>" % self.ci.name


class Ext:
    __slots__ = ("path",)

    def __init__(self, path):
        self.path = path

    def __eq__(self, o):
        return isinstance(o, Ext) and o.path == self.path

    def __hash__(self):
        return hash(("ext", self.path))

    def __repr__(self):
        return self.path


class ModV:
    def __init__(self, mi):
        self.mi = mi

    def __eq__(self, o):
        return isinstance(o, ModV) and o.mi is self.mi

    def __hash__(self):
        return hash(id(self.mi))


class Tup:
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)

    def __eq__(self, o):
        return isinstance(o, Tup) and o.items == self.items

    def __hash__(self):
        return hash(("tup", self.items))

    def __repr__(self):
        return "(%s)" % ", ".join(map(repr, self.items))


class Meth:
    """A method of something that is not an instance of a package class."""
    __slots__ = ("base", "name")

    def __init__(self, base, name):
        self.base = base
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Meth) and o.base == self.base and o.name == self.name

    def __hash__(self):
        return hash(("meth", self.base, self.name))

    def __repr__(self):
        return "%r.%s" % (self.base, self.name)


class IterD:
    """range, enumerate, zip, reversed, map, dict views ..."""

    def __init__(self, kind, parts, start=0):
        self.kind = kind
        self.parts = tuple(parts)
        self.start = start

    def __eq__(self, o):
        return (isinstance(o, IterD) and o.kind == self.kind
                and o.parts == self.parts)

    def __hash__(self):
        return hash(("iterd", self.kind, self.parts))

    def __repr__(self):
        return "%s(%s)" % (self.kind, ", ".join(map(repr, self.parts)))


class Slice:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step

    def __eq__(self, o):
        return isinstance(o, Slice) and (o.lo, o.hi, o.step) == (
            self.lo, self.hi, self.step)

    def __hash__(self):
        return hash(("slice", self.lo, self.hi, self.step))

    def __repr__(self):
        return "%s:%s" % ("" if self.lo is None else repr(self.lo),
                          "" if self.hi is None else repr(self.hi))


class Star:
    """An argument spliced from something of unknown length."""

    def __init__(self, v, double=False):
        self.v = v
        self.double = double

    def __eq__(self, o):
        return isinstance(o, Star) and o.v == self.v and o.double == self.double

    def __hash__(self):
        return hash(("star", self.v, self.double))

    def __repr__(self):
        return "*%r" % (self.v,)


NONE = Const(None)
TRUE = Const(True)
FALSE = Const(False)


def strip_float(t):
    while isinstance(t, Term) and t.op == "float":
        t = strip_float(t.args[0])
    return t


_untag = {}


def untag(t):
    """A term without the times at which its parts were read."""
    if isinstance(t, Tup):
        return Tup([untag(x) for x in t.items])
    if not isinstance(t, Term):
        return t
    r = _untag.get(t)
    if r is None:
        if t.op in ("listv", "setv", "dictv"):
            r = untag(t.args[0])
        elif t.op == "fld":
            r = Term("fld", (untag(t.args[0]), t.args[1], ""))
        else:
            r = Term(t.op, [untag(x) for x in t.args])
        _untag[t] = r
    return r


# --------------------------------------------------------------------------
# Heap objects
# --------------------------------------------------------------------------

class Inst:
    def __init__(self, ci, origin=None):
        self.ci = ci
        self.origin = origin       # None: made on this path
        self.fields = {}
        self.deleted = set()


class FieldMap(collections.abc.MutableMapping):
    """The fields of an instance as the contents of its __dict__."""

    def __init__(self, it, ref):
        self.it, self.ref = it, ref

    @property
    def fields(self):
        return self.it.obj(self.ref).fields

    def __getitem__(self, k):
        if not isinstance(k, Const):
            raise KeyError(k)
        return self.fields[k.v]

    def __setitem__(self, k, v):
        if isinstance(k, Const) and isinstance(k.v, str):
            if self.it.repo.find_prop(self.it.obj(self.ref).ci, k.v) is None:
                self.it.setattr(self.ref, k.v, v)
            else:
                self.fields[k.v] = v

    def __delitem__(self, k):
        del self.fields[k.v]

    def __iter__(self):
        return iter([Const(k) for k in self.fields])

    def __len__(self):
        return len(self.fields)


class ListO:
    def __init__(self, items=None, origin=None, elem=None):
        self.items = items         # None: unknown contents
        self.origin = origin
        self.elem = elem           # type of elements
        self.maxlen = None         # of a deque
        self.known = {}
        self.ver = 0


class DictO:
    def __init__(self, items=None, origin=None, elem=None):
        self.items = items if items is not None else {}
        self.origin = origin       # not None: may have further keys
        self.elem = elem
        self.missing = None        # what makes the values of missing keys
        self.gone = set()
        self.ver = 0


class SetO:
    def __init__(self, items=None, origin=None):
        self.items = items if items is not None else []
        self.origin = origin
        self.known = {}
        self.ver = 0


class ArrO:
    def __init__(self, term, origin=None, root=None):
        self.term = term
        self.origin = origin       # not None: existed before this path
        self.root = root           # shares memory with this oid


class NArr:
    """An array of known shape and entries (see narr)."""

    def __init__(self, shape, items, base=None, kind=None):
        self.shape = tuple(shape)
        self.base = base                  # (array, positions) that this is a view of
        self.own = items
        self.kind = kind                  # "i", "b" or None for other entries
        self.width = 8                    # bytes of an entry
        self.real = False                 # of floating-point numbers, whatever the entries

    @property
    def items(self):
        if self.base is None:
            return self.own
        a, pos = self.base
        xs = a.items
        return [xs[k] for k in pos]

    @items.setter
    def items(self, new):
        if self.base is None or len(new) != len(self.base[1]):
            self.base = None
            self.own = new
        else:
            for k, x in enumerate(new):
                self.put(k, x)

    def put(self, k, x):
        if self.base is None:
            if self.kind is not None and isinstance(x, Const) and isinstance(x.v, (int, float)):
                x = Const(bool(x.v) if self.kind == "b" else int(x.v))
            self.own[k] = x
        else:
            self.base[0].put(self.base[1][k], x)


class DefO:
    def __init__(self, ok, value, src=None):
        self.ok = ok
        self.value = value
        self.src = src
        self.waits = []            # what has fired by the time this fires
        self.called = None         # known to have been fired, or not
        self.fire = None           # f(DefO): sets the outcome, for one not fired yet
        self.todo = []             # what was added to it meanwhile


class LockO:
    def __init__(self, origin, free=False):
        self.origin = origin
        self.free = free           # known not to be held by others


class TrackO:
    def __init__(self, origin):
        self.origin = origin


class GenO:
    def __init__(self, fun, env):
        self.fun = fun
        self.env = env
        self.co = None            # Coroutine, once next() was called
        self.done = False


class IterO(GenO):
    """iter(x) of a collection whose items are known, or iter(function, sentinel)"""

    def __init__(self, src, items=None, stop=None):
        GenO.__init__(self, None, None)
        self.src, self.items, self.stop, self.at = src, items, stop, 0


class Outward(Exception):
    """What the consumer of a generator does: not seen by the generator."""

    def __init__(self, x):
        self.x = x


class Closed(BaseException):
    """Ends a generator that nothing is asked of any longer."""


class Coroutine:
    """A generator whose values are asked for one by one."""

    def __init__(self, it, o, node):
        self.it, self.o, self.node = it, o, node
        self.mine, self.his = threading.Semaphore(0), threading.Semaphore(0)
        self.got = None           # ('value', x), ('end',) or ('error', exception)
        self.closing = False
        self.thread = None
        it.coroutines.append(self)

    def run(self):
        self.mine.acquire()
        try:
            if self.closing:
                return
            self.it.run_generator(self.o, self.give, self.node)
            self.got = ("end",)
        except BaseException as e:
            self.got = ("error", e)
        finally:
            self.thread = False
            self.his.release()

    def give(self, x):
        self.got = ("value", x)
        self.his.release()
        self.mine.acquire()
        if self.closing:
            raise Closed()

    def resume(self):
        if self.thread is False:
            return ("end",)
        it = self.it
        saved = it.env, it.stack, it.on_yield
        if self.thread is None:
            size = threading.stack_size(64 * 1024 * 1024)
            self.thread = threading.Thread(target=self.run, daemon=True)
            self.thread.start()
            threading.stack_size(size)
        self.mine.release()
        self.his.acquire()
        it.env, it.stack, it.on_yield = saved
        if self.got[0] == "error":
            raise self.got[1]
        return self.got

    def close(self):
        if self.thread:
            self.closing = True
            self.mine.release()
            self.his.acquire()


# --------------------------------------------------------------------------
# Control
# --------------------------------------------------------------------------

class ReturnX(Exception):
    def __init__(self, value):
        self.value = value


class BreakX(Exception):
    pass


class ContinueX(Exception):
    pass


class PyRaise(Exception):
    """An exception of the analysed program."""

    def __init__(self, etype, value=None, node=None, implicit=False):
        self.etype = etype
        self.value = value
        self.node = node
        self.implicit = implicit


class Infeasible(Exception):
    pass


class LoopCut(Exception):
    pass


class Env:
    __slots__ = ("vars", "parent", "fi", "kind")

    def __init__(self, fi, parent=None):
        self.vars = {}
        self.parent = parent
        self.fi = fi


#: Functions of numbers that are evaluated for known ones
FOLDED = {"sqrt": math.sqrt, "sin": math.sin, "cos": math.cos, "log": math.log,
          "log10": math.log10, "exp": math.exp, "floor": lambda x: float(math.floor(x)),
          "ceil": lambda x: float(math.ceil(x))}
FOLDED_MORE = {"rint": lambda x: float(round(x)), "round": lambda x: float(round(x)),
               "around": lambda x: float(round(x)), "trunc": lambda x: float(math.trunc(x)),
               "fix": lambda x: float(math.trunc(x)), "tan": math.tan, "log2": math.log2,
               "sign": lambda x: (x > 0) - (x < 0), "abs": abs, "absolute": abs,
               "fabs": lambda x: float(abs(x)), "square": lambda x: x * x,
               "negative": lambda x: -x, "positive": lambda x: x,
               "reciprocal": lambda x: 1 / x, "cbrt": lambda x: math.copysign(
                   round(abs(x) ** (1 / 3), 14), x),
               "float64": float, "float32": float, "double": float, "int64": int, "int32": int,
               "int_": int, "intp": int, "isscalar": lambda x: True, "log1p": math.log1p,
               "expm1": math.expm1, "deg2rad": math.radians, "radians": math.radians}


class Event:
    __slots__ = ("kind", "d", "node", "fi", "nf", "epoch", "i", "stack")

    def __init__(self, kind, d, node, fi, nf, epoch, i, stack):
        self.kind = kind
        self.d = d
        self.node = node
        self.fi = fi
        self.nf = nf
        self.epoch = epoch
        self.i = i
        self.stack = stack

    def __getattr__(self, name):
        try:
            return self.d[name]
        except KeyError:
            raise AttributeError(name)

    def where(self):
        if self.fi is None:
            return "?"
        return "%s:%s %s" % (
            self.fi.path, getattr(self.node, "lineno", "?"), self.fi.qual)

    def __repr__(self):
        return "[%d] %s %s @%s" % (self.i, self.kind, {
            k: v for k, v in self.d.items()}, self.where())


class Path:
    """One analysed abstract path."""

    def __init__(self, it, outcome, value):
        self.it = it
        self.outcome = outcome         # 'return' or 'raise'
        self.value = value
        self.events = it.events
        self.facts = it.facts
        self.fact_list = it.fact_list
        self.decisions = it.decisions
        self.unknowns = it.unknowns

    def find(self, kind, **kw):
        out = []
        for e in self.events:
            if e.kind != kind:
                continue
            if all(e.d.get(k) == v for k, v in kw.items()):
                out.append(e)
        return out

    def fact(self, atom, before=None):
        """The truth assumed or derived for an atom before an event."""
        return self.it.lookup(atom, None if before is None else before.nf)

    def fact_any(self, f):
        """Whether f(atom, truth) holds for any fact."""
        return any(f(t, self.facts[t][0]) for t in self.fact_list)

    def describe(self, upto=None):
        out = []
        for d in self.decisions:
            if d[3] is not None and d[1] is not None:
                out.append("%s:%s %s" % (
                    d[2], getattr(d[1], "lineno", "?"), d[3]))
        return out


class Config:
    """
    What is opaque, what things are, and what may raise, for one
    analysis.
    """

    def __init__(self, **kw):
        self.opaque = dict(kw.pop("opaque", {}))
        self.ext = dict(kw.pop("ext", {}))
        self.types = dict(kw.pop("types", {}))
        self.may_raise = kw.pop("may_raise", None)
        self.max_loop = kw.pop("max_loop", 2)
        #: rounds of while loops
        self.max_while = kw.pop("max_while", self.max_loop + 1)
        self.max_paths = kw.pop("max_paths", 8000)
        self.max_seconds = kw.pop("max_seconds", 60)
        self.max_depth = kw.pop("max_depth", 40)
        self.user_sync = kw.pop("user_sync", False)
        self.stable = set(kw.pop("stable", ()))
        self.unroll = kw.pop("unroll", 64)
        self.defer_fail = kw.pop("defer_fail", True)
        self.on_event = kw.pop("on_event", None)
        #: (class, attribute) -> f(it, ref): a known value for the attribute
        self.alias = dict(kw.pop("alias", {}))
        self.own = frozenset(kw.pop("own", ()))
        #: f(it, array term) -> value: the length of arrays, if known
        self.arrlen = kw.pop("arrlen", None)
        #: f(term) -> number of dimensions of an array
        self.rank = kw.pop("rank", None)
        #: f(it, list origin) -> value: the length of a list, if known
        self.listlen = kw.pop("listlen", None)
        #: {(class, attribute)}: once false, stays false
        self.latch = set(kw.pop("latch", ()))
        #: f(it, event) -> what a user's function returns
        self.user_result = kw.pop("user_result", None)
        #: follow arrays of known shape entry by entry
        self.known_arrays = kw.pop("known_arrays", False)
        if kw:
            raise TypeError(kw)


NP_CONST = {"inf": float("inf"), "Inf": float("inf"), "nan": float("nan"),
            "NaN": float("nan"), "pi": 3.141592653589793, "e": 2.718281828459045}
PURE_EXT = {
    "builtins." + x for x in (
        "len float int str abs min max sum round bool repr sorted tuple "
        "hash type id ord chr divmod pow".split())}
NP_ALIAS = {"asarray", "asanyarray", "ravel", "reshape", "atleast_1d",
            "ascontiguousarray", "squeeze", "transpose"}
NP_ARRAY = {"array", "where", "clip", "minimum", "maximum", "zeros", "empty",
            "ones", "square", "power", "sqrt", "abs", "add", "subtract",
            "multiply", "divide", "copy", "full", "fmax", "fmin", "mod",
            "remainder", "concatenate", "append", "stack", "column_stack",
            "zeros_like", "empty_like", "ones_like", "full_like", "select",
            "choose", "absolute", "negative", "fabs"}


def leaves_loop(st):
    """Whether a statement has a break of the loop that it is in."""
    todo = [st]
    while todo:
        n = todo.pop()
        if isinstance(n, ast.Break):
            return True
        if not isinstance(n, (ast.For, ast.While, ast.FunctionDef, ast.ClassDef, ast.Lambda)):
            todo.extend(ast.iter_child_nodes(n))
    return False


class Interp:
    """Analyses one abstract path (choices come from a script)."""

    def __init__(self, repo, cfg, script):
        self.repo = repo
        self.cfg = cfg
        self.script = script
        self.pos = 0
        self.heap = []
        self.facts = {}
        #: what happens during the next suspensions
        self.meanwhile = []
        #: Deferreds that have not fired yet
        self.unfired = []
        #: whether waiting for a Deferred that has fired is no suspension
        self.exact_waits = False
        #: operations waiting for a lock, if they are queued
        self.queued = None
        self.fact_list = []
        self.events = []
        self.decisions = []
        self.unknowns = []
        self.epoch = 0
        self.rng = None
        self.uid = 0
        self.env = None
        self.stack = []
        self.coroutines = []
        self.on_yield = None
        self.waits = []
        self.rounding = None       # what a smaller type does to numbers, if that matters
        self.ranges = {}           # numbers known to lie in an interval
        self.const_attrs = {}
        self.nrel = 0
        self.latched = {}
        self.held = {}             # locks asked for and not given back
        self.globals_ = {}
        self.volatile = repo.volatile_attrs() - cfg.stable
        self.node = None

    # -- choice points ------------------------------------------------------
    def choose(self, n, node=None, label=None):
        if self.pos < len(self.script):
            c = self.script[self.pos][0]
        else:
            c = 0 if self.rng is None else self.rng.randrange(n)
            self.script.append([c, n])
        self.script[self.pos][1] = n
        self.pos += 1
        path = self.stack[-1].path if self.stack else "?"
        self.decisions.append([c, node, path, None if label is None else label(c)])
        return c

    def fresh(self, name, *args):
        self.uid += 1
        return Term(name, tuple(args) + (self.uid,))

    def emit(self, kind, node=None, **d):
        if node is None:
            node = self.node
        e = Event(kind, d, node, self.stack[-1] if self.stack else None,
                  len(self.fact_list), self.epoch, len(self.events),
                  tuple(self.stack))
        self.events.append(e)
        if self.cfg.on_event:
            self.cfg.on_event(self, e)
        return e

    def unknown(self, what, node=None):
        self.unknowns.append((what, node, self.stack[-1] if self.stack else None))
        return self.fresh("unknown", what)

    # -- heap ----------------------------------------------------------------
    def alloc(self, obj):
        self.heap.append(obj)
        return Ref(len(self.heap) - 1)

    def obj(self, v):
        return self.heap[v.oid] if isinstance(v, Ref) else None

    def inst(self, v):
        o = self.obj(v)
        return o if isinstance(o, Inst) else None

    def sym_inst(self, clsname, name):
        origin = name if isinstance(name, Term) else Term("sym", (name,))
        return self.alloc(Inst(self.repo.cls(clsname), origin))

    def sym(self, name):
        return Term("sym", (name,))

    def typed(self, tp, origin):
        """A symbolic value of a given type."""
        if tp is None:
            return origin
        if tp == "array":
            return self.alloc(ArrO(origin, origin))
        if tp == "lock":
            return self.alloc(LockO(origin))
        if tp == "tracker":
            return self.alloc(TrackO(origin))
        if tp == "list" or tp.startswith("list:"):
            return self.alloc(ListO(None, origin, tp[5:] or None))
        if tp == "dict" or tp.startswith("dict:"):
            return self.alloc(DictO({}, origin, tp[5:] or None))
        if tp == "set":
            return self.alloc(SetO([], origin))
        if tp == "deferred":
            return self.alloc(DefO(True, origin, origin))
        if self.repo.has_cls(tp):
            return self.alloc(Inst(self.repo.cls(tp), origin))
        return origin

    def T(self, v):
        """The content of a value as a term."""
        o = self.obj(v)
        if o is None:
            if isinstance(v, Tup):
                return Tup([self.T(x) for x in v.items])
            if isinstance(v, Slice):
                return Slice(*[x if x is None else self.T(x)
                               for x in (v.lo, v.hi, v.step)])
            return v
        if isinstance(o, Inst):
            if o.origin is not None:
                return o.origin
            return Term("new", (o.ci.name, v.oid))
        if isinstance(o, ArrO):
            return o.term
        if isinstance(o, NArr):
            return Term("nd", (Const(o.shape),) + tuple(self.T(x) for x in o.items))
        if isinstance(o, ListO):
            if o.items is None:
                if o.ver:
                    return Term("listv", (o.origin, o.ver))
                return o.origin
            return Term("list", [self.T(x) for x in o.items])
        if isinstance(o, SetO):
            if o.origin is None:
                return Term("set", [self.T(x) for x in o.items])
            return Term("setv", (o.origin, o.ver)) if o.ver else o.origin
        if isinstance(o, DictO):
            if o.origin is None:
                return Term("dict", [Tup([self.T(k), self.T(x)])
                                     for k, x in o.items.items()])
            return Term("dictv", (o.origin, o.ver)) if o.ver else o.origin
        if isinstance(o, (LockO, TrackO)):
            return o.origin
        if isinstance(o, DefO):
            return Term("deferred", (v.oid,))
        if isinstance(o, GenO):
            fi = getattr(o.fun, "fi", None)
            return Term("gen", ("" if fi is None else fi.qual, v.oid))
        return Term("obj", (v.oid,))

    def root_of(self, ref):
        o = self.obj(ref)
        seen = set()
        while isinstance(o, ArrO) and o.root is not None and o.root not in seen:
            seen.add(o.root)
            ref = Ref(o.root)
            o = self.obj(ref)
        return ref

    # -- suspension ----------------------------------------------------------
    def suspend(self, node=None, why=None):
        self.epoch += 1
        self.emit("suspend", node, why=why)
        if self.meanwhile:
            self.meanwhile.pop(0)()
        for o in self.heap:
            if isinstance(o, Inst) and o.origin is not None:
                for name in list(o.fields):
                    if name in self.volatile:
                        del o.fields[name]
            elif isinstance(o, (ListO, SetO, DictO)) and o.origin is not None:
                # Contents may have changed
                o.known = {}
                if isinstance(o, DictO) and not isinstance(o.items, FieldMap):
                    o.items = {}
                    o.gone = set()
                o.ver = ("e", self.epoch)

    # -- facts ---------------------------------------------------------------
    def lookup(self, atom, nf=None):
        r = self._lookup1(atom, nf)
        if r is None and self.ranges:
            from .intervals import decide
            r = decide(self.ranges, atom)
        if r is not None:
            return r
        op, a = atom.op, atom.args

        def has(x, val):
            return self._lookup1(x, nf) is val

        if op in ("lt", "le", "eq"):
            for x in a:
                if isinstance(x, Const):
                    if x.v != x.v:
                        return False
                elif self._lookup1(Term("truthy", (Term("np.isnan", (x,)),)), nf) is True:
                    return False
        if op == "lt":
            x, y = a
            if x == y:
                return False
            if isinstance(x, Const) and x.v == float("inf"):
                return False
            if has(Term("le", (y, x)), True) or has(Term("lt", (y, x)), True) \
               or has(self._eq(x, y), True):
                return False
            if has(Term("le", (y, x)), False):
                return True
        elif op == "le":
            x, y = a
            if x == y:
                return True
            if has(Term("lt", (x, y)), True) or has(self._eq(x, y), True):
                return True
            if has(Term("lt", (y, x)), True):
                return False
            if has(Term("lt", (y, x)), False):
                return True
            if isinstance(y, Const) and y.v == float("inf") and (
                    has(Term("lt", (x, Const(0))), False) or has(Term("le", (Const(0), x)), True)):
                return True           # a number, by that comparison
        elif op == "eq":
            x, y = a
            if has(Term("lt", (x, y)), True) or has(Term("lt", (y, x)), True):
                return False
            for u, w in ((x, y), (y, x)):
                if isinstance(w, Const) and not isinstance(u, Const):
                    for c in self._consts_of(u, nf):
                        if c is not None and c.v != w.v:
                            return False
                        return True
                    if w.v is None or isinstance(w.v, bool):
                        r = self._lookup1(Term("is", (u, w)), nf)
                        if r is True:
                            return True
        elif op == "is":
            x, y = a
            if isinstance(y, Const):
                t = self._lookup1(Term("truthy", (x,)), nf)
                if t is True and not y.v:
                    return False
                if t is False and y.v is True:
                    return False
                for alt in (None, True, False):
                    if alt is not y.v and has(Term("is", (x, Const(alt))), True):
                        return False
                for c in self._consts_of(x, nf):
                    if y.v is None or isinstance(y.v, bool):
                        return c.v is y.v
        elif op == "truthy":
            x = a[0]
            if has(Term("is", (x, NONE)), True) or has(Term("is", (x, FALSE)), True):
                return False
            if has(Term("is", (x, TRUE)), True):
                return True
            for c in self._consts_of(x, nf):
                return bool(c.v)
        return None

    def _consts_of(self, u, nf):
        """The constant a term is known to equal, if any."""
        lim = len(self.fact_list) if nf is None else nf
        for f in self.fact_list[:lim]:
            if f.op == "eq" and self.facts[f][0]:
                x, y = f.args
                if x == u and isinstance(y, Const):
                    return [y]
                if y == u and isinstance(x, Const):
                    return [x]
        return []

    def _lookup1(self, atom, nf):
        f = self.facts.get(atom)
        if f is None:
            return None
        if nf is not None and f[1] >= nf:
            return None
        return f[0]

    @staticmethod
    def _eq(x, y):
        a, b = sorted((x, y), key=repr)
        return Term("eq", (a, b))

    def assume(self, atom, value):
        if atom in self.facts:
            return
        self.facts[atom] = (value, len(self.fact_list))
        self.fact_list.append(atom)

    def decide(self, atom, node=None):
        r = self.lookup(atom)
        if r is not None:
            return r
        c = self.choose(2, node, lambda c: "%r is %s" % (atom, c == 0))
        val = c == 0
        self.assume(atom, val)
        return val

    # -- truth ----------------------------------------------------------------
    def truth(self, v, node=None):
        if isinstance(v, Const):
            return bool(v.v)
        if isinstance(v, Tup):
            return bool(v.items)
        if isinstance(v, Term):
            return self.truth_term(v, node)
        if isinstance(v, Ref):
            o = self.obj(v)
            if isinstance(o, Inst):
                m = self.repo.find_method(o.ci, "__bool__")
                if m is not None:
                    return self.truth(self.call_fun(Fun(m, None, v), [], {}, node), node)
                m = self.repo.find_method(o.ci, "__len__")
                if m is not None:
                    return self.truth(self.call_fun(Fun(m, None, v), [], {}, node), node)
                return True
            if isinstance(o, ListO):
                if o.items is not None:
                    return bool(o.items)
                return self.decide(Term("truthy", (self.T(v),)), node)
            if isinstance(o, SetO):
                if o.items or any(o.known.values()):
                    return True
                if o.origin is None:
                    return False
                return self.decide(Term("truthy", (self.T(v),)), node)
            if isinstance(o, DictO):
                if o.items:
                    return True
                if o.origin is None:
                    return False
                return self.decide(Term("truthy", (self.T(v),)), node)
            if isinstance(o, ArrO):
                return self.decide(Term("truthy", (o.term,)), node)
            if isinstance(o, NArr):
                if len(o.items) == 1:
                    return self.truth(o.items[0], node)
                if o.items:
                    raise PyRaise("ValueError", None, node, implicit=True)
                return False
            return True
        return True

    def truth_term(self, t, node):
        op = t.op
        if op == "not":
            return not self.truth(t.args[0], node)
        if op in ("lt", "le", "eq", "is", "in", "isinstance", "hasattr", "callable"):
            return self.decide(t, node)
        if op == "ne":
            return not self.decide(self._eq(*t.args), node)
        if op in ("list", "set", "dict"):
            return bool(t.args)
        if op == "len":
            return self.decide(Term("truthy", (t.args[0],)), node) \
                if t.args else self.decide(Term("truthy", (t,)), node)
        if op == "bool":
            return self.truth(t.args[0], node)
        return self.decide(Term("truthy", (t,)), node)

    # -- names ------------------------------------------------------------------
    def lookup_name(self, name, node):
        env = self.env
        while env is not None:
            if name in env.vars:
                return env.vars[name]
            if env.fi is not None and name in env.fi.locals:
                self.emit("unbound", node, name=name)
                raise PyRaise("UnboundLocalError", Const(name), node)
            env = env.parent
        mod = self.stack[-1].module if self.stack else None
        return self.global_name(mod, name, node)

    def global_name(self, mod, name, node=None):
        key = (mod.modname if mod else None, name)
        if key in self.globals_:
            return self.globals_[key]
        v = self._global_name(mod, name, node)
        self.globals_[key] = v
        return v

    def _global_name(self, mod, name, node):
        r = self.repo.resolve_name(mod, name) if mod else None
        if r is None:
            return Ext("builtins." + name)
        if r[0] == "func":
            return Fun(r[1])
        if r[0] == "class":
            return Cls(r[1])
        if r[0] == "module":
            return ModV(r[1])
        if r[0] == "ext":
            return Ext(r[1])
        if r[0] == "value":
            m, nm, expr = r[1], r[2], r[3]
            try:
                lit = ast.literal_eval(expr)
                return self.from_literal(lit)
            except (ValueError, TypeError, SyntaxError, MemoryError):
                return Ext(m.modname + "." + nm)
        return Ext("builtins." + name)

    def from_literal(self, lit):
        if isinstance(lit, tuple):
            return Tup([self.from_literal(x) for x in lit])
        if isinstance(lit, list):
            return self.alloc(ListO([self.from_literal(x) for x in lit]))
        if isinstance(lit, (set, frozenset)):
            return self.alloc(SetO([self.from_literal(x) for x in sorted(lit, key=repr)]))
        if isinstance(lit, dict):
            return self.alloc(DictO({self.from_literal(k): self.from_literal(x)
                                     for k, x in lit.items()}))
        return Const(lit)

    def store_name(self, name, v):
        env = self.env
        fi = env.fi
        if fi is not None and name in fi.nonlocals:
            e = env.parent
            while e is not None:
                if name in e.vars or (e.fi is not None and name in e.fi.locals):
                    e.vars[name] = v
                    return
                e = e.parent
        if fi is not None and name in fi.globals_:
            self.globals_[(fi.module.modname, name)] = v
            self.emit("setglobal", None, name=name, value=v)
            return
        env.vars[name] = v

    # -- attributes ---------------------------------------------------------------
    def field_type(self, ci, name):
        for c in self.repo.mro(ci):
            if (c.name, name) in self.cfg.types:
                return self.cfg.types[(c.name, name)]
        return infer_types(self.repo).get((ci.name, name))

    def getattr(self, v, name, node=None, default=None):
        o = self.obj(v)
        if isinstance(o, Inst):
            return self.inst_getattr(v, o, name, node, default)
        if isinstance(v, Cls):
            return self.cls_getattr(v, name, node, default)
        if isinstance(v, ModV):
            sub = v.mi.modname + "." + name
            r = self.repo.resolve_name(v.mi, name)
            if r is None and sub in self.repo.modules:
                return ModV(self.repo.modules[sub])
            if r is None:
                return Ext(sub)
            return self.global_name(v.mi, name, node)
        if isinstance(v, Ext) and name == "__name__" and v.path.startswith("builtins."):
            return Const(v.path.split(".")[-1])
        if isinstance(v, Ext):
            if v.path in ("numpy", "math") and name in NP_CONST:
                return Const(NP_CONST[name])
            return Ext(v.path + "." + name)
        if isinstance(o, LockO) and name == "locked":
            if self.held.get(untag(o.origin)):
                return TRUE
            if o.free:
                return FALSE
            # One question for all the locks that this path does not hold
            return Term("held_by_others", ())
        if isinstance(o, (ListO, DictO, SetO, DefO, LockO, TrackO, GenO)):
            if isinstance(o, DefO) and name in ("called", "result", "paused"):
                if name == "called" and o.called is not None:
                    return Const(o.called)
                return self.fresh("defattr", name, self.T(v))
            return Meth(v, name)
        if isinstance(o, NArr):
            r = narr.attribute(self, v, o, name)
            return Meth(v, name) if r is None else r
        if isinstance(o, ArrO):
            if name == "T":
                return self.alloc(ArrO(Term("arrattr", (o.term, name)), o.origin,
                                       self.root_of(v).oid))
            if name in ("shape", "size", "ndim", "dtype"):
                return Term("arrattr", (o.term, name))
            return Meth(v, name)
        if isinstance(v, Const):
            if v.v is None:
                self.emit("attr_none", node, name=name)
                raise PyRaise("AttributeError", v, node, implicit=True)
            return Meth(v, name)
        if isinstance(v, Tup):
            return Meth(v, name)
        if isinstance(v, Fun):
            return Term("fnattr", (Const(v.fi.qual), name))
        if isinstance(v, Term) and v.op == "exc" and name == "args":
            return Tup(v.args[1:])
        if name == "__name__" and isinstance(v, (Ext, Cls)):
            return Const(v.path.split(".")[-1] if isinstance(v, Ext) else v.ci.name)
        if isinstance(v, Term):
            return Term("tattr", (v, name))
        return Term("tattr", (self.T(v), name))

    def uid_next(self):
        self.uid += 1
        return self.uid

    def inst_getattr(self, v, o, name, node, default=None):
        pr = self.repo.find_prop(o.ci, name)
        if pr is not None and "get" in pr:
            return self.call_fun(Fun(pr["get"], None, v), [], {}, node)
        if name in o.fields:
            return o.fields[name]
        m = self.repo.find_method(o.ci, name)
        if m is not None:
            if m.kind == "staticmethod":
                return Fun(m)
            if m.kind == "classmethod":
                return Fun(m, None, Cls(o.ci))
            return Fun(m, None, v)
        if name == "__class__":
            return Cls(o.ci)
        if name == "__dict__":
            return self.alloc(DictO(FieldMap(self, v), None if o.origin is None else Term(
                "vars", (o.origin,))))
        ca = self.repo.find_attr(o.ci, name)
        if o.origin is not None:
            if ca is not None and (o.ci.name, name) in self.const_attrs:
                return self.const_attrs[(o.ci.name, name)]
            if ca is not None and self.is_container_literal(ca[1]):
                # e.g. a class-wide table
                return self.eval_class_attr(ca)
            return self.lazy_field(v, o, name)
        for c in self.repo.mro(o.ci):
            if ("cls", c.name, name) in self.globals_:
                return self.globals_[("cls", c.name, name)]
        if ca is not None:
            return self.eval_class_attr(ca)
        for c in self.repo.mro(o.ci):
            if name in c.inner:
                return Cls(c.inner[name])
        m = self.repo.find_method(o.ci, "__getattr__")
        if m is not None:
            return self.call_fun(Fun(m, None, v), [Const(name)], {}, node)
        if default is not None:
            return default
        if name in o.deleted or name in self.repo.assigned_attrs(o.ci):
            self.emit("noattr", node, obj=self.T(v), name=name)
            raise PyRaise("AttributeError", Const(name), node, implicit=True)
        return Term("fld", (self.T(v), name, ""))

    @staticmethod
    def is_container_literal(expr):
        try:
            return isinstance(ast.literal_eval(expr), (dict, tuple, list))
        except (ValueError, TypeError, SyntaxError):
            return False

    def eval_class_attr(self, ca):
        c, expr = ca
        key = ("clsattr", c.name, id(expr))
        if key in self.globals_:
            return self.globals_[key]
        try:
            r = self.from_literal(ast.literal_eval(expr))
        except (ValueError, TypeError, SyntaxError):
            nm = [k for k, e in c.attrs.items() if e is expr]
            r = self.class_call(c, expr) or Term("clsattr", (c.name, nm[0] if nm else "?"))
        self.globals_[key] = r
        return r

    def class_call(self, c, expr):
        """The result of a known function of literals, as in x = re.compile("...")."""
        if not isinstance(expr, ast.Call):
            return None
        f, path = expr.func, []
        while isinstance(f, ast.Attribute):
            path.insert(0, f.attr)
            f = f.value
        if not isinstance(f, ast.Name):
            return None
        v = self.global_name(c.module, f.id)
        for a in path:
            v = self.getattr(v, a)
        if not isinstance(v, Ext) or v.path not in self.cfg.ext:
            return None
        try:
            args = [self.from_literal(ast.literal_eval(a)) for a in expr.args]
            kw = {k.arg: self.from_literal(ast.literal_eval(k.value)) for k in expr.keywords}
        except (ValueError, TypeError, SyntaxError):
            return None
        return self.call(v, args, kw, None)

    def lazy_field(self, v, o, name):
        for c in self.repo.mro(o.ci):
            al = self.cfg.alias.get((c.name, name))
            if al is not None:
                val = al(self, v)
                if val is not None:
                    o.fields[name] = val
                    return val
        tag = ""
        if name in self.volatile and self.epoch:
            tag = "e%d" % self.epoch
        origin = Term("fld", (o.origin, name, tag))
        if (o.ci.name, name) in self.cfg.latch:
            was = self.latched.get((v, name))
            if was == FALSE:
                o.fields[name] = FALSE
                return FALSE
            if was is not None and was != origin:
                if self.lookup(Term("is", (was, FALSE))) is True:
                    o.fields[name] = FALSE
                    return FALSE
                if self.lookup(Term("truthy", (was,))) is False:
                    self.assume(Term("truthy", (origin,)), False)
            self.latched[(v, name)] = origin
        val = self.typed(self.field_type(o.ci, name), origin)
        o.fields[name] = val
        return val

    def cls_getattr(self, v, name, node, default=None):
        m = self.repo.find_method(v.ci, name)
        if m is not None:
            if m.kind == "classmethod":
                return Fun(m, None, v)
            return Fun(m)
        if ("cls", v.ci.name, name) in self.globals_:
            return self.globals_[("cls", v.ci.name, name)]
        ca = self.repo.find_attr(v.ci, name)
        for c in self.repo.mro(v.ci):
            if name in c.inner:
                return Cls(c.inner[name])
        if name == "__name__":
            return Const(v.ci.name)
        tp = self.field_type(v.ci, name)
        origin = Term("fld", (Term("class", (v.ci.name,)), name,
                              "e%d" % self.epoch if self.epoch else ""))
        if ca is not None and name not in self.volatile:
            return self.eval_class_attr(ca)
        return self.typed(tp, origin)

    def setattr(self, v, name, value, node=None):
        o = self.obj(v)
        if isinstance(o, Inst):
            pr = self.repo.find_prop(o.ci, name)
            if pr is not None:
                if "set" in pr:
                    self.call_fun(Fun(pr["set"], None, v), [value], {}, node)
                    return
                self.emit("noattr", node, obj=self.T(v), name=name)
                raise PyRaise("AttributeError", Const(name), node, implicit=True)
            old = o.fields.get(name)
            o.fields[name] = value
            if (o.ci.name, name) in self.cfg.latch:
                self.latched[(v, name)] = value
            o.deleted.discard(name)
            self.emit("setattr", node, obj=self.T(v), ref=v, cls=o.ci.name,
                      name=name, value=value, old=old, fresh=o.origin is None)
            return
        if isinstance(v, Cls):
            self.globals_[("cls", v.ci.name, name)] = value
            self.emit("setattr", node, obj=Term("class", (v.ci.name,)), ref=v,
                      cls=v.ci.name, name=name, value=value, old=None, fresh=False)
            return
        self.emit("setattr", node, obj=self.T(v), ref=v, cls=None, name=name,
                  value=value, old=None, fresh=False)

    def delattr(self, v, name, node=None):
        o = self.obj(v)
        if isinstance(o, Inst):
            pr = self.repo.find_prop(o.ci, name)
            if pr is not None:
                if "del" in pr:
                    self.call_fun(Fun(pr["del"], None, v), [], {}, node)
                    return
                raise PyRaise("AttributeError", Const(name), node, implicit=True)
            o.fields.pop(name, None)
            o.deleted.add(name)
            self.emit("delattr", node, obj=self.T(v), ref=v, cls=o.ci.name, name=name)
            return
        self.emit("delattr", node, obj=self.T(v), ref=v, cls=None, name=name)

    # -- subscripts -----------------------------------------------------------------
    def getitem(self, v, key, node=None):
        o = self.obj(v)
        if isinstance(o, Inst):
            m = self.repo.find_method(o.ci, "__getitem__")
            if m is not None:
                return self.call_fun(Fun(m, None, v), [key], {}, node)
            return self.fresh("item", self.T(v), self.T(key))
        if isinstance(v, Tup) or (isinstance(o, ListO) and o.items is not None):
            items = v.items if isinstance(v, Tup) else o.items
            if isinstance(key, Const) and isinstance(key.v, int):
                try:
                    return items[key.v]
                except IndexError:
                    self.emit("indexerror", node, obj=self.T(v))
                    raise PyRaise("IndexError", None, node, implicit=True)
            if isinstance(key, Slice):
                lo = self.const_int(key.lo)
                hi = self.const_int(key.hi)
                step = None if key.step is None else self.const_int(key.step)
                if lo is not False and hi is not False and step is not False and step != 0:
                    part = items[slice(lo, hi, step)]
                    return Tup(part) if isinstance(v, Tup) else self.alloc(
                        ListO(list(part)))
            return Term("item", (self.T(v), self.T(key)))
        if isinstance(o, ListO):
            k = self.T(key)
            if isinstance(key, Slice):
                return self.alloc(ListO(None, Term("slice", (self.T(v), k)), o.elem))
            if k in o.known:
                r = o.known[k]
            else:
                r = self.typed(o.elem, Term("item", (self.T(v), k)))
                o.known[k] = r
            self.emit("get", node, obj=self.T(v), ref=v, key=key, value=r,
                      origin=o.origin)
            return r
        if isinstance(o, DictO):
            k = self.T(key)
            for kk, x in o.items.items():
                if self.T(kk) == k:
                    return x
            if o.origin is None or k in o.gone:
                if o.missing is not None:
                    r = self.call(o.missing, [], {}, node)
                    o.items[key] = r
                    return r
                if isinstance(key, Const) or k in o.gone:
                    if all(isinstance(kk, Const) for kk in o.items):
                        self.emit("keyerror", node, obj=self.T(v), key=key)
                        raise PyRaise("KeyError", key, node, implicit=True)
                return Term("item", (self.T(v), k))
            self.assume(Term("in", (k, self.T(v))), True)
            r = self.typed(o.elem, Term("item", (self.T(v), k)))
            o.items[key] = r
            return r
        if isinstance(o, NArr):
            return narr.getitem(self, v, key, node)
        if isinstance(v, Ext) and self.cfg.known_arrays and v.path in (
                "numpy.r_", "numpy.c_", "numpy.s_", "numpy.mgrid", "numpy.ogrid"):
            r = narr.joined(self, v.path, key, node)
            if r is not None:
                return r
        if isinstance(o, ArrO):
            t = self.array_item(o.term, self.T(key))
            if isinstance(key, Slice) or (isinstance(key, Tup) and any(
                    isinstance(x, Slice) for x in key.items)) or (
                        self.cfg.rank is not None and self.cfg.rank(t) > 0):
                root = self.root_of(v).oid
                return self.alloc(ArrO(t, o.origin, root))
            return t
        if isinstance(v, Const) and isinstance(v.v, (str, bytes)):
            if isinstance(key, Const) and isinstance(key.v, int):
                try:
                    return Const(v.v[key.v])
                except IndexError:
                    raise PyRaise("IndexError", None, node, implicit=True)
            if isinstance(key, Slice):
                lo, hi = self.const_int(key.lo), self.const_int(key.hi)
                step = None if key.step is None else self.const_int(key.step)
                if lo is not False and hi is not False and step is not False and step != 0:
                    return Const(v.v[lo:hi:step])
        if isinstance(v, IterD) and v.kind == "range" and isinstance(key, (Const, Slice)):
            items = self.known_items(v)
            if items is not None:
                return self.getitem(Tup(items), key, node)
        if isinstance(v, Const) and v.v is None:
            self.emit("item_none", node)
            raise PyRaise("TypeError", v, node, implicit=True)
        return Term("item", (self.T(v), self.T(key)))

    @staticmethod
    def array_item(t, key):
        """An item of an array made of known parts."""
        if isinstance(key, Const) and isinstance(key.v, int) and key.v >= 0:
            while isinstance(t, Term) and t.op == "upd" and isinstance(t.args[1], Const) \
                    and isinstance(t.args[1].v, int) and t.args[1].v >= 0:
                if t.args[1] == key:
                    return t.args[2]
                t = t.args[0]
            if isinstance(t, Term) and t.op == "list" and key.v < len(t.args):
                return t.args[key.v]
        return Term("item", (t, key))

    @staticmethod
    def const_int(v):
        """None, an int, or False if not known."""
        if v is None:
            return None
        if isinstance(v, Const) and (v.v is None or isinstance(v.v, int)):
            return v.v
        return False

    def setitem(self, v, key, value, node=None):
        o = self.obj(v)
        if isinstance(o, Inst):
            m = self.repo.find_method(o.ci, "__setitem__")
            if m is not None:
                self.call_fun(Fun(m, None, v), [key, value], {}, node)
                return
        if isinstance(o, ListO):
            self.emit("mut", node, obj=self.T(v), ref=v, op="setitem",
                      args=(key, value), origin=o.origin)
            if o.items is not None:
                if isinstance(key, Const) and isinstance(key.v, int):
                    try:
                        o.items[key.v] = value
                        return
                    except IndexError:
                        raise PyRaise("IndexError", None, node, implicit=True)
                if isinstance(key, Slice):
                    ks = [self.const_int(x) for x in (key.lo, key.hi, key.step)]
                    items = self.all_items(value, node)
                    if False not in [x is not False for x in ks] and items is not None:
                        try:
                            o.items[slice(*ks)] = items
                            return
                        except ValueError:
                            raise PyRaise("ValueError", None, node, implicit=True)
                o.origin = o.origin or self.fresh("listx")
                o.items = None
                return
            o.known[self.T(key)] = value
            return
        if isinstance(o, DictO):
            self.emit("mut", node, obj=self.T(v), ref=v, op="setitem",
                      args=(key, value), origin=o.origin)
            k = self.T(key)
            for kk in list(o.items):
                if self.T(kk) == k:
                    o.items[kk] = value
                    return
            o.items[key] = value
            o.gone.discard(k)
            o.ver = self.uid_next()
            self.assume(Term("in", (k, self.T(v))), True)
            return
        if isinstance(o, NArr):
            narr.setitem(self, v, key, value, node)
            return
        if isinstance(o, ArrO):
            self.emit("arrset", node, ref=v, root=self.root_of(v), key=key,
                      value=value, how="item", fresh=self.obj(
                          self.root_of(v)).origin is None)
            o.term = Term("upd", (o.term, self.T(key), self.T(value)))
            return
        self.emit("termset", node, obj=self.T(v), key=key, value=value)

    def delitem(self, v, key, node=None):
        o = self.obj(v)
        if isinstance(o, ListO):
            self.emit("mut", node, obj=self.T(v), ref=v, op="delitem",
                      args=(key,), origin=o.origin)
            if o.items is not None and isinstance(key, Slice):
                lo, hi = self.const_int(key.lo), self.const_int(key.hi)
                if lo is not False and hi is not False:
                    del o.items[lo:hi]
                    return
            if o.items is not None and isinstance(key, Const) and isinstance(key.v, int):
                try:
                    del o.items[key.v]
                    return
                except IndexError:
                    raise PyRaise("IndexError", None, node, implicit=True)
            if isinstance(key, Slice) and key.lo is None and key.hi is None:
                o.items = []
                o.known = {}
                return
            o.ver = self.uid_next()
            o.known = {}
            return
        if isinstance(o, DictO):
            self.emit("mut", node, obj=self.T(v), ref=v, op="delitem",
                      args=(key,), origin=o.origin)
            k = self.T(key)
            for kk in list(o.items):
                if self.T(kk) == k:
                    del o.items[kk]
            o.gone.add(k)
            o.ver = self.uid_next()
            return
        i = self.inst(v)
        if i is not None:
            m = self.repo.find_method(i.ci, "__delitem__")
            if m is not None:
                self.call_fun(Fun(m, None, v), [key], {}, node)
                return
        self.emit("termset", node, obj=self.T(v), key=key, value=None)

    # -- operators ---------------------------------------------------------------------
    BIN = {ast.Add: ("+", "__add__", "__radd__"), ast.Sub: ("-", "__sub__", "__rsub__"),
           ast.Mult: ("*", "__mul__", "__rmul__"),
           ast.Div: ("/", "__truediv__", "__rtruediv__"),
           ast.FloorDiv: ("//", "__floordiv__", "__rfloordiv__"),
           ast.Mod: ("%", "__mod__", "__rmod__"), ast.Pow: ("**", "__pow__", "__rpow__"),
           ast.BitOr: ("|", "__or__", "__ror__"), ast.BitAnd: ("&", "__and__", "__rand__"),
           ast.BitXor: ("^", "__xor__", "__rxor__"),
           ast.LShift: ("<<", "__lshift__", "__rlshift__"),
           ast.RShift: (">>", "__rshift__", "__rrshift__"),
           ast.MatMult: ("@", "__matmul__", "__rmatmul__")}

    def binop(self, opnode, a, b, node=None):
        op, meth, rmeth = self.BIN[type(opnode)]
        for x, y, mname in ((a, b, meth), (b, a, rmeth)):
            i = self.inst(x)
            if i is not None:
                m = self.repo.find_method(i.ci, mname)
                if m is not None:
                    return self.call_fun(Fun(m, None, x), [y], {}, node)
        if isinstance(a, Const) and isinstance(b, Const):
            r = self.fold(op, a.v, b.v)
            if r is not None:
                return r
        if op == "%" and isinstance(a, Const) and isinstance(a.v, str):
            items = [b] if isinstance(b, Const) else list(b.items) if isinstance(b, Tup) else []
            if items and all(isinstance(x, Const) for x in items):
                try:
                    return Const(a.v % tuple(x.v for x in items))
                except (TypeError, ValueError):
                    pass
        oa, ob = self.obj(a), self.obj(b)
        if isinstance(oa, NArr) or isinstance(ob, NArr):
            if op in ("&", "|") :
                return narr.called(self, "logical_and" if op == "&" else "logical_or",
                                     [a, b], {}, node)
            if op == "@":
                r = narr.called(self, "dot", [a, b], {}, node)
            else:
                r = narr.elementwise(self, lambda x, y: self.binop(opnode, x, y, node), a, b)
            return self.alloc(ArrO(Term(op, (self.T(a), self.T(b))))) if r is None else r
        if isinstance(a, Const) and isinstance(b, Const) and type(opnode) in BITS and isinstance(
                a.v, int) and isinstance(b.v, int) and (not isinstance(
                    opnode, (ast.LShift, ast.RShift)) or 0 <= b.v < 200):
            return Const(BITS[type(opnode)](a.v, b.v))
        if op == "*":
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Tup) and isinstance(y, Const) and isinstance(
                        y.v, int) and y.v < 50:
                    return Tup(list(x.items) * y.v)
                ox = self.obj(x)
                if isinstance(ox, ListO) and ox.items is not None:
                    if isinstance(y, Const) and isinstance(y.v, int) and y.v < 50:
                        return self.alloc(ListO(list(ox.items) * y.v))
                    return self.alloc(ListO(None, Term("*", (self.T(x), self.T(y)))))
        if op == "+":
            la, lb = self.seq_items(a), self.seq_items(b)
            if la is not None and lb is not None and (
                    isinstance(oa, ListO) or isinstance(a, Tup)):
                if isinstance(a, Tup):
                    return Tup(la + lb)
                return self.alloc(ListO(la + lb))
        if op == "|" and isinstance(oa, DictO) and isinstance(ob, DictO):
            new = self.bi_dict([a], {}, node)
            self.dict_method(new, self.obj(new), "update", [b], {}, node)
            return new
        if isinstance(oa, SetO) or isinstance(ob, SetO):
            if op in ("-", "|", "&", "^") and (
                    isinstance(oa, SetO) and isinstance(ob, SetO)):
                if oa.origin is None and ob.origin is None:
                    ia, ib = oa.items, ob.items
                    if op == "|":
                        return self.alloc(SetO(ia + [x for x in ib if x not in ia]))
                    if all(isinstance(self.T(x), Const) for x in ia + ib):
                        if op == "-":
                            return self.alloc(SetO([x for x in ia if x not in ib]))
                        if op == "&":
                            return self.alloc(SetO([x for x in ia if x in ib]))
                        return self.alloc(SetO([x for x in ia if x not in ib] + [
                            x for x in ib if x not in ia]))
            return self.alloc(SetO([], Term("set" + op, (self.T(a), self.T(b)))))
        t = Term(op, (self.T(a), self.T(b)))
        if isinstance(oa, ArrO) or isinstance(ob, ArrO):
            return self.alloc(ArrO(t))
        if op in ("/", "//", "%") and isinstance(b, Const) and not isinstance(b.v, bool) \
           and b.v == 0 and not (isinstance(a, Const) and isinstance(a.v, str)):
            self.emit("zerodivision", node, a=a)
            raise PyRaise("ZeroDivisionError", None, node, implicit=True)
        return t

    @staticmethod
    def fold(op, a, b):
        try:
            if op == "+":
                return Const(a + b)
            if op == "-":
                return Const(a - b)
            if op == "*":
                if isinstance(a, (str, bytes)) and isinstance(b, int) and b > 1000:
                    return None
                return Const(a * b)
            if op == "/":
                return Const(a / b)
            if op == "//":
                return Const(a // b)
            if op == "%" and not isinstance(a, str):
                return Const(a % b)
            if op == "**" and abs(b) < 64:
                return Const(a ** b)
        except Exception:
            return None
        return None

    def seq_items(self, v):
        if isinstance(v, Tup):
            return list(v.items)
        o = self.obj(v)
        if isinstance(o, ListO) and o.items is not None:
            return list(o.items)
        return None

    def compare(self, op, a, b, node=None):
        """Returns a value."""
        if isinstance(op, ast.Is):
            return self.is_(a, b)
        if isinstance(op, ast.IsNot):
            return self.neg(self.is_(a, b))
        if isinstance(op, ast.Eq):
            return self.eq(a, b, node)
        if isinstance(op, ast.NotEq):
            i = self.inst(a)
            if i is not None:
                m = self.repo.find_method(i.ci, "__ne__")
                if m is not None:
                    return self.call_fun(Fun(m, None, a), [b], {}, node)
            return self.neg(self.eq(a, b, node))
        if isinstance(op, ast.In):
            return self.contains(b, a, node)
        if isinstance(op, ast.NotIn):
            return self.neg(self.contains(b, a, node))
        if isinstance(self.obj(a), NArr) or isinstance(self.obj(b), NArr):
            r = narr.elementwise(self, lambda x, y: self.compare(op, x, y, node), a, b)
            return self.alloc(ArrO(Term("cmp", (self.T(a), self.T(b))))) if r is None else r
        if isinstance(self.obj(a), SetO) and isinstance(self.obj(b), SetO):
            ca, cb = self.constants(a), self.constants(b)
            if ca is not None and cb is not None:
                ca, cb = set(ca), set(cb)
                return Const({ast.Lt: ca < cb, ast.LtE: ca <= cb, ast.Gt: ca > cb,
                              ast.GtE: ca >= cb}[type(op)])
        name, mirror = {ast.Lt: ("__lt__", "__gt__"), ast.Gt: ("__gt__", "__lt__"),
                        ast.LtE: ("__le__", "__ge__"), ast.GtE: ("__ge__", "__le__")}[type(op)]
        for x, y, mname in ((a, b, name), (b, a, mirror)):
            i = self.inst(x)
            if i is not None:
                m = self.repo.find_method(i.ci, mname)
                if m is not None:
                    return self.call_fun(Fun(m, None, x), [y], {}, node)
        for x in (a, b):
            if isinstance(x, (Fun, Meth, Cls)) or (
                    self.inst(x) is not None) or (isinstance(x, Const) and x.v is None):
                self.emit("badcompare", node, a=a, b=b)
                raise PyRaise("TypeError", None, node, implicit=True)
        if isinstance(a, Const) and isinstance(b, Const):
            try:
                return Const({ast.Lt: lambda: a.v < b.v, ast.Gt: lambda: a.v > b.v,
                              ast.LtE: lambda: a.v <= b.v,
                              ast.GtE: lambda: a.v >= b.v}[type(op)]())
            except TypeError:
                raise PyRaise("TypeError", None, node, implicit=True)
        xs, ys = self.seq_items(a), self.seq_items(b)
        if xs is not None and ys is not None and isinstance(a, Tup) == isinstance(b, Tup) and \
                self.cfg.known_arrays:
            for x, y in zip(xs, ys):
                if not self.truth(self.eq(x, y, node), node):
                    return self.compare(op, x, y, node)
            return self.compare(op, Const(len(xs)), Const(len(ys)), node)
        ta, tb = strip_float(self.T(a)), strip_float(self.T(b))
        # x - y < 0 and the like
        if isinstance(tb, Const) and tb.v == 0 and isinstance(ta, Term) and ta.op == "-" \
           and len(ta.args) == 2:
            ta, tb = ta.args
        elif isinstance(ta, Const) and ta.v == 0 and isinstance(tb, Term) and tb.op == "-" \
                and len(tb.args) == 2:
            tb, ta = tb.args
        if isinstance(op, ast.Lt):
            t = Term("lt", (ta, tb))
        elif isinstance(op, ast.Gt):
            t = Term("lt", (tb, ta))
        elif isinstance(op, ast.LtE):
            t = Term("le", (ta, tb))
        else:
            t = Term("le", (tb, ta))
        if isinstance(self.obj(a), ArrO) or isinstance(self.obj(b), ArrO):
            return self.alloc(ArrO(t))
        r = self.lookup(t)
        return t if r is None else Const(r)

    def neg(self, v):
        if isinstance(v, Const):
            return Const(not v.v)
        if isinstance(v, Term) and v.op == "not":
            return v.args[0]
        if isinstance(self.obj(v), NArr):
            return narr.elementwise(self, self.neg, v)
        if isinstance(v, Ref):
            return self.alloc(ArrO(Term("not", (self.T(v),)))) if isinstance(
                self.obj(v), ArrO) else Const(not self.truth(v))
        return Term("not", (v,))

    def is_(self, a, b):
        if isinstance(a, Const) and not isinstance(b, Const):
            a, b = b, a
        if isinstance(a, Const) and isinstance(b, Const):
            if a.v is None or b.v is None or isinstance(a.v, bool) or isinstance(b.v, bool):
                return Const(a.v is b.v)
            return Const(a == b)
        if a == b and not isinstance(a, Term):
            return TRUE
        if isinstance(b, Const):
            if not isinstance(a, Term):
                return FALSE
            t = Term("is", (a, b))
            r = self.lookup(t)
            return t if r is None else Const(r)
        if self.own_ext(a) and isinstance(b, Ext) or self.own_ext(b) and isinstance(a, Ext):
            return FALSE
        oa, ob = self.obj(a), self.obj(b)
        if oa is not None and ob is not None:
            na = getattr(oa, "origin", None) is None
            nb = getattr(ob, "origin", None) is None
            if na or nb or type(oa) is not type(ob):
                return FALSE
        ta, tb = self.T(a), self.T(b)
        if ta == tb:
            return TRUE
        x, y = sorted((ta, tb), key=repr)
        t = Term("is", (x, y))
        r = self.lookup(t)
        return t if r is None else Const(r)

    def own_ext(self, v):
        """An object outside of the package that stands for itself only."""
        return isinstance(v, Ext) and (v.path.startswith("user.") or v.path in self.cfg.own)

    def eq(self, a, b, node=None):
        for x, y in ((a, b), (b, a)):
            i = self.inst(x)
            if i is not None:
                m = self.repo.find_method(i.ci, "__eq__")
                if m is not None:
                    return self.call_fun(Fun(m, None, x), [y], {}, node)
        if isinstance(self.obj(a), NArr) or isinstance(self.obj(b), NArr):
            r = narr.elementwise(self, lambda x, y: self.eq(x, y, node), a, b)
            if r is not None:
                return r
        if isinstance(a, Const) and isinstance(b, Const):
            return Const(a.v == b.v)
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.items) != len(b.items):
                return FALSE
        if self.cfg.known_arrays and not isinstance(a, Const) and not isinstance(b, Const):
            r = self.eq_parts(a, b, node)
            if r is not None:
                return r
        ta, tb = strip_float(self.T(a)), strip_float(self.T(b))
        if isinstance(self.obj(a), ArrO) or isinstance(self.obj(b), ArrO):
            return self.alloc(ArrO(self._eq(ta, tb)))
        if ta == tb:
            return TRUE
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Const) and x.v is None and isinstance(
                    y, (Ref, Tup, Fun, Cls)):
                return FALSE
            if self.own_ext(x) and isinstance(y, (Const, Ext)):
                return FALSE
        if self.distinct(ta, tb):
            return FALSE
        t = self._eq(ta, tb)
        r = self.lookup(t)
        return t if r is None else Const(r)

    def eq_parts(self, a, b, node):
        """Equality of collections whose parts are known, part by part."""
        oa, ob = self.obj(a), self.obj(b)
        if isinstance(oa, DictO) and isinstance(ob, DictO) and oa.origin is None \
                and ob.origin is None:
            if set(oa.items) != set(ob.items):
                return FALSE if all(isinstance(k, Const) for k in list(oa.items) + list(
                    ob.items)) else None
            return Const(all(self.truth(self.eq(x, ob.items[k], node), node)
                             for k, x in oa.items.items()))
        if isinstance(oa, SetO) and isinstance(ob, SetO):
            ca, cb = self.constants(a), self.constants(b)
            return None if ca is None or cb is None else Const(set(ca) == set(cb))
        if isinstance(a, Tup) and isinstance(b, Tup) or isinstance(oa, ListO) and isinstance(
                ob, ListO):
            xs, ys = self.seq_items(a), self.seq_items(b)
            if xs is not None and ys is not None:
                return Const(len(xs) == len(ys) and all(
                    self.truth(self.eq(x, y, node), node) for x, y in zip(xs, ys)))
        return None

    def distinct(self, ta, tb):
        """Elements of the same duplicate-free sequence at different positions."""
        if isinstance(ta, Term) and isinstance(tb, Term) and ta.op == tb.op == "elem":
            if ta.args[0] == tb.args[0] and ta.args[1] != tb.args[1]:
                src = ta.args[0]
                if isinstance(src, Term) and src.op in ("range", "set", "setv"):
                    return True
        return False

    def contains(self, c, x, node=None):
        o = self.obj(c)
        if isinstance(o, Inst):
            m = self.repo.find_method(o.ci, "__contains__")
            if m is not None:
                return self.call_fun(Fun(m, None, c), [x], {}, node)
        items = None
        if isinstance(c, Tup):
            items = list(c.items)
        elif isinstance(o, ListO) and o.items is not None:
            items = o.items
        elif isinstance(o, NArr):
            items = o.items
        elif isinstance(c, IterD) and self.known_items(c) is not None:
            items = self.known_items(c)
        elif isinstance(o, GenO):
            items = self.collect(c, node)
        elif isinstance(o, SetO):
            tx = self.T(x)
            for k, val in o.known.items():
                if self.T(k) == tx:
                    return Const(val)
            if any(self.T(k) == tx for k in o.items):
                return TRUE
            if o.origin is None:
                items = o.items
        elif isinstance(o, DictO):
            tx = self.T(x)
            if any(self.T(k) == tx for k in o.items):
                return TRUE
            if tx in o.gone:
                return FALSE
            if o.origin is None:
                items = list(o.items)
        elif isinstance(c, Const) and isinstance(c.v, str) and isinstance(x, Const):
            try:
                return Const(x.v in c.v)
            except TypeError:
                return FALSE
        if items is not None:
            if all(isinstance(y, Const) for y in items) and isinstance(x, Const):
                return Const(any(y.v == x.v for y in items))
            for y in items:
                r = self.eq(x, y, node)
                if self.truth(r, node):
                    return TRUE
            return FALSE
        if isinstance(c, Const) and c.v is None:
            raise PyRaise("TypeError", c, node, implicit=True)
        if isinstance(o, SetO) and isinstance(o.origin, Term) and \
                o.origin.op == "setof" and not o.known and not o.ver:
            # membership in a set is membership in what it was made of
            t = Term("in", (self.T(x), o.origin.args[0]))
        else:
            t = Term("in", (self.T(x), self.T(c)))
        r = self.lookup(t)
        return t if r is None else Const(r)

    # -- expressions ---------------------------------------------------------------------
    def ev(self, node):
        self.node = node
        m = getattr(self, "ev_" + type(node).__name__, None)
        if m is None:
            return self.unknown(type(node).__name__, node)
        return m(node)

    def ev_Constant(self, node):
        return Const(node.value)

    def ev_Name(self, node):
        return self.lookup_name(node.id, node)

    def ev_Attribute(self, node):
        return self.getattr(self.ev(node.value), node.attr, node)

    def ev_Subscript(self, node):
        base = self.ev(node.value)
        return self.getitem(base, self.ev(node.slice), node)

    def ev_Slice(self, node):
        return Slice(*[None if x is None else self.ev(x)
                       for x in (node.lower, node.upper, node.step)])

    def ev_Tuple(self, node):
        return Tup(self.ev_seq(node.elts))

    def ev_List(self, node):
        return self.alloc(ListO(self.ev_seq(node.elts)))

    def ev_Set(self, node):
        return self.alloc(SetO(self.unique(self.ev_seq(node.elts))))

    @staticmethod
    def unique(items):
        out = []
        for x in items:
            if x not in out:
                out.append(x)
        return out

    def ev_seq(self, elts):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.ev(e.value)
                items = self.collect(v, e)
                out.extend(items)
            else:
                out.append(self.ev(e))
        return out

    def ev_Dict(self, node):
        d = DictO({})
        ref = self.alloc(d)
        for k, x in zip(node.keys, node.values):
            if k is None:
                src = self.ev(x)
                so = self.obj(src)
                if isinstance(so, DictO):
                    d.items.update(so.items)
                    if so.origin is not None:
                        d.origin = so.origin
                else:
                    d.origin = self.T(src)
            else:
                kv = self.ev(k)
                d.items[kv] = self.ev(x)
        return ref

    def ev_UnaryOp(self, node):
        if isinstance(node.op, ast.Not):
            v = self.ev(node.operand)
            if isinstance(v, Term):
                return self.neg(v)
            return Const(not self.truth(v, node))
        v = self.ev(node.operand)
        if isinstance(v, Const) and isinstance(v.v, (int, float)):
            if isinstance(node.op, ast.USub):
                return Const(-v.v)
            if isinstance(node.op, ast.UAdd):
                return v
            if isinstance(v.v, int):
                return Const(~v.v)
        if isinstance(node.op, ast.UAdd):
            return v
        op = {ast.USub: "neg", ast.Invert: "inv"}[type(node.op)]
        if isinstance(self.obj(v), NArr):
            if op == "inv":
                return narr.elementwise(self, self.neg, v)
            return narr.elementwise(self, lambda x: self.binop(
                ast.Mult(), Const(-1), x, node), v)
        t = Term(op, (self.T(v),))
        if isinstance(self.obj(v), ArrO):
            return self.alloc(ArrO(t))
        return t

    def ev_BinOp(self, node):
        a = self.ev(node.left)
        b = self.ev(node.right)
        return self.binop(node.op, a, b, node)

    def ev_BoolOp(self, node):
        is_and = isinstance(node.op, ast.And)
        v = None
        for k, e in enumerate(node.values):
            v = self.ev(e)
            if k == len(node.values) - 1:
                return v
            t = self.truth(v, e)
            if is_and and not t:
                return v if not isinstance(v, Term) else self.falsy(v)
            if not is_and and t:
                return v
        return v

    def falsy(self, v):
        """A value known to be false on this path."""
        if v.op in ("lt", "le", "eq", "is", "in", "not", "isinstance", "hasattr",
                    "ne", "callable"):
            return FALSE
        return v

    def ev_Compare(self, node):
        left = self.ev(node.left)
        result = TRUE
        for k, (op, r) in enumerate(zip(node.ops, node.comparators)):
            right = self.ev(r)
            result = self.compare(op, left, right, node)
            if k < len(node.ops) - 1:
                if not self.truth(result, node):
                    return FALSE
            left = right
        return result

    def ev_IfExp(self, node):
        if self.truth(self.ev(node.test), node.test):
            return self.ev(node.body)
        return self.ev(node.orelse)

    def ev_Lambda(self, node):
        fi = self.repo.child(self.stack[-1], node)
        f = Fun(fi, self.env)
        f.defaults = self.eval_defaults(node.args)
        return f

    def ev_JoinedStr(self, node):
        parts = []
        for p in node.values:
            if isinstance(p, ast.FormattedValue):
                parts.append(self.T(self.ev(p.value)))
            else:
                parts.append(Const(p.value))
        out = ""
        for p, x in zip(node.values, parts):
            spec = None
            if isinstance(p, ast.FormattedValue):
                spec = Const("") if p.format_spec is None else self.ev(p.format_spec)
            if not isinstance(x, Const) or spec is not None and not isinstance(spec, Const):
                out = None
                break
            if spec is None:
                out += x.v
                continue
            v = {-1: lambda y: y, 115: str, 114: repr, 97: ascii}[p.conversion](x.v)
            try:
                out += format(v, spec.v)
            except (ValueError, TypeError) as e:
                raise PyRaise(type(e).__name__, None, node, implicit=True)
        if out is not None:
            return Const(out)
        return Term("fmt", parts)

    def ev_FormattedValue(self, node):
        return Term("fmt", (self.T(self.ev(node.value)),))

    def ev_NamedExpr(self, node):
        v = self.ev(node.value)
        self.assign(node.target, v)
        return v

    def ev_Starred(self, node):
        return Star(self.ev(node.value))

    def ev_Await(self, node):
        return self.await_(self.ev(node.value), node)

    def ev_Yield(self, node):
        v = NONE if node.value is None else self.ev(node.value)
        fi = self.env_fi()
        if fi is not None and fi.inlinecb:
            return self.await_(v, node)
        if self.on_yield is not None:
            self.on_yield(v)
            return NONE
        self.emit("yield", node, value=v)
        return NONE

    def ev_YieldFrom(self, node):
        src = self.ev(node.value)
        fi = self.env_fi()
        if fi is not None and fi.inlinecb:
            return self.await_(src, node)
        cb = self.on_yield
        if cb is not None:
            self.iterate(src, cb, node)
        return NONE

    def env_fi(self):
        return self.env.fi if self.env is not None else None

    def ev_ListComp(self, node):
        out = []
        self.comp(node.generators, 0, lambda: out.append(self.ev(node.elt)))
        return self.alloc(ListO(out))

    def ev_SetComp(self, node):
        out = []
        self.comp(node.generators, 0, lambda: out.append(self.ev(node.elt)))
        return self.alloc(SetO(self.unique(out)))

    def ev_GeneratorExp(self, node):
        return self.alloc(GenO(node, self.env))

    def ev_DictComp(self, node):
        d = DictO({})

        def add():
            k = self.ev(node.key)
            d.items[k] = self.ev(node.value)
        self.comp(node.generators, 0, add)
        return self.alloc(d)

    def comp(self, gens, k, leaf):
        """Comprehensions have their own scope for the loop variables."""
        saved = self.env
        env = Env(None, saved)
        self.env = env
        try:
            self._comp(gens, k, leaf)
        finally:
            self.env = saved

    def _comp(self, gens, k, leaf):
        if k == len(gens):
            leaf()
            return
        g = gens[k]
        it = self.ev(g.iter)

        def body(elem):
            self.assign(g.target, elem)
            for cond in g.ifs:
                if not self.truth(self.ev(cond), cond):
                    return
            self._comp(gens, k + 1, leaf)
        self.iterate(it, body, g.iter)

    # -- iteration ------------------------------------------------------------------------
    def iterate(self, it, body, node=None):
        """Calls body for each element."""
        o = self.obj(it)
        if isinstance(it, Tup):
            for x in it.items:
                body(x)
            return
        if isinstance(o, ListO):
            if o.items is not None:
                k = 0
                while o.items is not None and k < len(o.items):
                    if k > self.cfg.unroll:
                        raise LoopCut()
                    body(o.items[k])
                    k += 1
                return
            src = self.T(it)
            self.iter_sym(src, lambda n: self.list_elem(it, o, src, n), body, node)
            return
        if isinstance(o, SetO):
            for x in list(o.items):
                body(x)
            if o.origin is not None:
                src = self.T(it)

                def mk(n):
                    e = Term("elem", (src, n))
                    self.assume(Term("in", (e, src)), True)
                    return e
                self.iter_sym(src, mk, body, node)
            return
        if isinstance(o, DictO):
            for x in list(o.items):
                body(x)
            if o.origin is not None:
                src = self.T(it)
                self.iter_sym(src, lambda n: Term("elem", (src, n)), body, node)
            return
        if isinstance(o, NArr):
            for k in range(o.shape[0]):
                body(self.getitem(it, Const(k), node))
            return
        if isinstance(o, ArrO):
            n = self.array_len(o)
            if n is not None:
                for k in range(n):
                    body(self.getitem(it, Const(k), node))
                return
            src = o.term
            self.iter_sym(src, lambda n: Term("elem", (src, n)), body, node)
            return
        if isinstance(o, GenO):
            self.run_generator(o, body, node)
            return
        if isinstance(o, Inst):
            m = self.repo.find_method(o.ci, "__iter__")
            if m is not None:
                g = self.call_fun(Fun(m, None, it), [], {}, node)
                step = self.repo.find_method(self.inst(g).ci, "__next__") \
                    if self.inst(g) is not None else None
                while step is not None:
                    try:
                        x = self.call_fun(Fun(step, None, g), [], {}, node)
                    except PyRaise as e:
                        if e.etype == "StopIteration":
                            return
                        raise
                    body(x)
                self.iterate(g, body, node)
                return
            src = self.T(it)
            self.iter_sym(src, lambda n: Term("elem", (src, n)), body, node)
            return
        if isinstance(it, Const) and isinstance(it.v, (str, bytes)):
            if len(it.v) <= self.cfg.unroll:
                for ch in it.v:
                    body(Const(ch))
                return
        if isinstance(it, IterD):
            self.iter_d(it, body, node)
            return
        if isinstance(it, Const) and it.v is None:
            self.emit("iter_none", node)
            raise PyRaise("TypeError", it, node, implicit=True)
        src = self.T(it)
        self.iter_sym(src, lambda n: Term("elem", (src, n)), body, node)

    def list_elem(self, ref, o, src, n):
        k = Term("idx", (src, n))
        if k in o.known:
            return o.known[k]
        r = self.typed(o.elem, Term("elem", (src, n)))
        o.known[k] = r
        return r

    def iter_sym(self, src, elem, body, node):
        n = 0
        while True:
            if n == 0:
                known = self.lookup(Term("truthy", (src,))) if isinstance(
                    src, Term) else None
            else:
                known = None
            if n >= self.cfg.max_loop:
                self.emit("loopend", node, src=src, n=n, cut=True)
                return
            if known is not None:
                more = known
            else:
                more = self.choose(2, node, lambda c: "round %d of the loop over %r: %s" % (
                    n + 1, src, "taken" if c == 0 else "loop ends")) == 0
                if n == 0 and isinstance(src, Term):
                    self.assume(Term("truthy", (src,)), more)
            if not more:
                self.emit("loopend", node, src=src, n=n, cut=False)
                return
            self.emit("loopround", node, src=src, n=n)
            body(elem(n))
            n += 1

    def iter_d(self, it, body, node):
        kind = it.kind
        if kind == "range":
            vals = [x.v if isinstance(x, Const) and isinstance(x.v, int) else None
                    for x in it.parts]
            if all(x is not None for x in vals):
                r = range(*vals)
                if len(r) <= self.cfg.unroll:
                    for x in r:
                        body(Const(x))
                    return
            src = Term("range", [self.T(x) for x in it.parts])
            stop = self.T(it.parts[0] if len(it.parts) == 1 else it.parts[1])
            start = None if len(it.parts) == 1 else self.T(it.parts[0])
            up = len(it.parts) < 3

            def mk(n):
                e = Term("elem", (src, n))
                if up:
                    self.assume(Term("lt", (e, stop)), True)
                    self.assume(Term("le", (start or Const(0), e)), True)
                return e
            self.iter_sym(src, mk, body, node)
            return
        if kind == "enumerate":
            n = [it.start if isinstance(it.start, int) else 0]

            def each(x):
                k = n[0]
                n[0] += 1
                body(Tup([Const(k), x]))
            self.iterate(it.parts[0], each, node)
            return
        if kind == "zip":
            lists = [self.known_items(p) for p in it.parts]
            if all(x is not None for x in lists):
                for group in zip(*lists):
                    body(Tup(group))
                return
            if all(x is not None or isinstance(self.obj(p), GenO) or isinstance(p, IterD)
                   and p.kind in ("map", "filter", "chain", "enumerate", "zip", "reversed")
                   for x, p in zip(lists, it.parts)):
                its = [self.obj(self.bi_iter([self.as_generator(p)], {}, node))
                       for p in it.parts]
                while its:
                    group = []
                    for o in its:
                        x = self.next_of(o, node)
                        if x is None:
                            return
                        group.append(x)
                    body(Tup(group))
                return
            src = Term("zip", [self.T(p) for p in it.parts])

            def mk(n):
                return Tup([self.nth(p, n) for p in it.parts])
            self.iter_sym(src, mk, body, node)
            return
        if kind in ("reversed", "iter", "sorted", "items", "values", "keys"):
            part = it.parts[0]
            o = self.obj(part)
            if kind in ("items", "values") and isinstance(o, DictO):
                for k, x in list(o.items.items()):
                    body(Tup([k, x]) if kind == "items" else x)
                if o.origin is not None:
                    src = Term(kind, (self.T(part),))

                    def mk(n):
                        k = Term("elem", (self.T(part), n))
                        x = self.typed(o.elem, Term("item", (self.T(part), k)))
                        return Tup([k, x]) if kind == "items" else x
                    self.iter_sym(src, mk, body, node)
                return
            if kind == "items":
                src = self.T(part)
                self.iter_sym(src, lambda n: Tup([
                    Term("elem", (src, n)),
                    Term("item", (src, Term("elem", (src, n))))]), body, node)
                return
            if kind == "reversed":
                items = self.known_items(part)
                if items is not None:
                    for x in reversed(items):
                        body(x)
                    return
            if kind == "values":
                src = Term("values", (self.T(part),))
                self.iter_sym(src, lambda n: Term("elem", (src, n)), body, node)
                return
            self.iterate(part, body, node)
            return
        if kind == "map" and len(it.parts) > 2:
            self.iterate(IterD("zip", it.parts[1:]), lambda x: body(
                self.call(it.parts[0], list(x.items), {}, node)), node)
            return
        if kind == "map":
            f = it.parts[0]

            def each(x):
                body(self.call(f, [x], {}, node))
            self.iterate(it.parts[1], each, node)
            return
        if kind == "filter":
            f = it.parts[0]

            def each(x):
                r = x if f == NONE else self.call(f, [x], {}, node)
                if self.truth(r, node):
                    body(x)
            self.iterate(it.parts[1], each, node)
            return
        if kind == "chain":
            for p in it.parts:
                self.iterate(p, body, node)
            return
        src = Term(kind, [self.T(p) for p in it.parts])
        self.iter_sym(src, lambda n: Term("elem", (src, n)), body, node)

    def array_len(self, o):
        """How many entries an array has, if that is known as a number."""
        n = self.cfg.arrlen(self, o.term) if self.cfg.arrlen is not None else None
        if isinstance(n, Const) and isinstance(n.v, int) and n.v <= self.cfg.unroll:
            return n.v

    def known_items(self, v):
        if isinstance(v, Tup):
            return list(v.items)
        o = self.obj(v)
        if isinstance(o, ListO) and o.items is not None:
            return list(o.items)
        if isinstance(o, SetO) and o.origin is None:
            return list(o.items)
        if isinstance(o, DictO) and o.origin is None:
            return list(o.items)
        if isinstance(o, NArr):
            return [self.getitem(v, Const(k)) for k in range(o.shape[0])]
        if isinstance(o, ArrO):
            n = self.array_len(o)
            if n is not None:
                return [self.getitem(v, Const(k)) for k in range(n)]
        if isinstance(v, IterD) and v.kind == "range":
            vals = [x.v if isinstance(x, Const) else None for x in v.parts]
            if all(isinstance(x, int) for x in vals):
                return [Const(x) for x in range(*vals)][:self.cfg.unroll]
        if isinstance(v, IterD) and v.kind in ("enumerate", "reversed", "iter"):
            items = self.known_items(v.parts[0])
            if items is not None and v.kind == "enumerate":
                first = v.start if isinstance(v.start, int) else 0
                return [Tup([Const(first + k), x]) for k, x in enumerate(items)]
            if items is not None:
                return items if v.kind == "iter" else items[::-1]
        if isinstance(v, IterD) and v.kind in ("keys", "values", "items"):
            o = self.obj(v.parts[0])
            if isinstance(o, DictO) and o.origin is None:
                if v.kind == "items":
                    return [Tup([k, x]) for k, x in o.items.items()]
                return list(o.items) if v.kind == "keys" else list(o.items.values())
        if isinstance(v, IterD) and v.kind == "zip":
            lists = [self.known_items(x) for x in v.parts]
            if all(x is not None for x in lists):
                return [Tup(g) for g in zip(*lists)]
        if isinstance(v, Const) and isinstance(v.v, str):
            return [Const(c) for c in v.v]
        return None

    def constants(self, v):
        """What a collection consists of, if that is known and constant."""
        items = self.known_items(v)
        if items is not None and all(isinstance(x, Const) for x in items):
            return list(items)
        return None

    def nth(self, v, n):
        items = self.known_items(v)
        if items is not None:
            if n < len(items):
                return items[n]
            return Term("elem", (self.T(v), n))
        o = self.obj(v)
        if isinstance(o, ListO):
            return self.list_elem(v, o, self.T(v), n)
        if isinstance(v, IterD):
            if v.kind == "enumerate":
                return Tup([Const(n), self.nth(v.parts[0], n)])
            if v.kind == "range":
                return Term("elem", (Term("range", [self.T(x) for x in v.parts]), n))
        return Term("elem", (self.T(v), n))

    def collect(self, v, node=None):
        out = []
        self.iterate(v, out.append, node)
        return out

    def as_generator(self, v):
        """An iteration without position as one with a position."""
        if not isinstance(v, IterD) or self.known_items(v) is not None:
            return v
        g = GenO(None, None)
        g.walk = v
        return self.alloc(g)

    def next_of(self, o, node):
        """The next value of a generator or iterator, or None."""
        if isinstance(o, IterO):
            if o.done:
                return None
            if o.stop is not None:
                x = self.call(o.src, [], {}, node)
                if self.truth(self.eq(x, o.stop, node), node):
                    o.done = True
                    return None
                return x
            lo = self.obj(o.src)
            items = lo.items if isinstance(lo, ListO) and lo.items is not None else o.items
            if o.at >= len(items):
                o.done = True
                return None
            o.at += 1
            return items[o.at - 1]
        if o.co is None:
            if o.done:
                return None
            o.co = Coroutine(self, o, node)
        r = o.co.resume()
        return r[1] if r[0] == "value" else None

    def run_generator(self, g, body, node):
        if isinstance(g, IterO) or g.co is not None and body != g.co.give:
            while True:
                x = self.next_of(g, node)
                if x is None:
                    return
                body(x)
        if g.done:
            return

        def outward(v):
            try:
                body(v)
            except (ReturnX, BreakX, ContinueX, PyRaise) as e:
                raise Outward(e)
        try:
            self.run_body(g, body if g.co is not None or getattr(
                body, "inside", False) else outward, node)
        except Outward as e:
            raise e.x
        finally:
            g.done = True

    def run_body(self, g, body, node):
        if g.fun is None:
            self.iterate(g.walk, body, node)
            return
        if isinstance(g.fun, ast.GeneratorExp):
            gexp = g.fun
            saved = self.env
            self.env = Env(None, g.env)
            inner = {"env": None}

            def leaf():
                v = self.ev(gexp.elt)
                inner["env"] = self.env
                self.env = saved
                try:
                    body(v)
                finally:
                    self.env = inner["env"]
            try:
                self._comp(gexp.generators, 0, leaf)
            finally:
                self.env = saved
            return
        outer_env, outer_stack, outer_y = self.env, list(self.stack), self.on_yield

        def on_yield(v):
            genv, gstack = self.env, list(self.stack)
            gy = self.on_yield
            self.env = outer_env
            self.stack = list(outer_stack)
            self.on_yield = outer_y
            try:
                body(v)
            finally:
                self.env = genv
                self.stack = gstack
                self.on_yield = gy
        self.env = g.env
        self.stack = outer_stack + [g.fun.fi]
        self.on_yield = on_yield
        try:
            self.exec_block(g.fun.fi.node.body)
        except ReturnX:
            pass
        finally:
            self.env, self.stack, self.on_yield = outer_env, outer_stack, outer_y

    # -- calls ----------------------------------------------------------------------------
    def ev_Call(self, node):
        f = node.func
        # super().meth(...)
        if (isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call)
                and isinstance(f.value.func, ast.Name) and f.value.func.id == "super"):
            fv = self.super_attr(f.attr, node)
        else:
            fv = self.ev(f)
        args, kwargs = self.ev_args(node)
        self.node = node
        return self.call(fv, args, kwargs, node)

    def super_attr(self, name, node):
        fi = self.stack[-1]
        selfv = None
        top = fi
        env = self.env
        while top.parent is not None:
            top = top.parent
        while env is not None:
            if env.fi is top:
                first = top.node.args.args[0].arg if top.node.args.args else None
                selfv = env.vars.get(first)
            env = env.parent
        if top.cls is not None:
            for c in self.repo.mro(top.cls)[1:]:
                if name in c.methods:
                    return Fun(c.methods[name], None, selfv)
        return Ext("super." + name)

    def ev_args(self, node):
        args = []
        for a in node.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value)
                items = self.known_items(v)
                if items is None and isinstance(self.obj(v), GenO):
                    items = self.collect(v, a)
                if items is not None:
                    args.extend(items)
                else:
                    args.append(Star(v))
            else:
                args.append(self.ev(a))
        kwargs = {}
        for kw in node.keywords:
            if kw.arg is None:
                v = self.ev(kw.value)
                o = self.obj(v)
                if isinstance(o, DictO) and o.origin is None and all(
                        isinstance(k, Const) for k in o.items):
                    for k, x in o.items.items():
                        kwargs[k.v] = x
                else:
                    kwargs["**"] = v
            else:
                kwargs[kw.arg] = self.ev(kw.value)
        return args, kwargs

    def call(self, f, args, kwargs, node=None):
        if isinstance(f, Fun):
            return self.call_fun(f, args, kwargs, node)
        if isinstance(f, Cls):
            return self.construct(f, args, kwargs, node)
        if isinstance(f, Ext):
            return self.call_ext(f, args, kwargs, node)
        if isinstance(f, Meth):
            return self.call_meth(f, args, kwargs, node)
        if isinstance(f, Ref):
            i = self.inst(f)
            if i is not None:
                m = self.repo.find_method(i.ci, "__call__")
                if m is not None:
                    return self.call_fun(Fun(m, None, f), args, kwargs, node)
        if isinstance(f, (Const, Tup)) or isinstance(self.obj(f), (ListO, DictO)):
            self.emit("badcall", node, f=f)
            raise PyRaise("TypeError", f, node, implicit=True)
        if isinstance(f, Term) and f.op == "partial":
            pf, pa = f.args[0], list(f.args[1].items)
            pk = {x.items[0].v: x.items[1] for x in f.args[2].items} if len(f.args) > 2 else {}
            return self.call(pf, pa + list(args), dict(pk, **kwargs), node)
        if isinstance(f, Term) and f.op == "tattr":
            return self.call_tattr(f.args[0], f.args[1], args, kwargs, node)
        # Something supplied from outside
        return self.call_user(f, args, kwargs, node)

    def call_user(self, f, args, kwargs, node):
        e = self.emit("user", node, f=self.T(f), args=tuple(args),
                      targs=tuple(self.T(a) for a in args), kwargs=dict(kwargs),
                      how="sync")
        self.maybe_raise(e, node)
        e.d["result"] = r = self.fresh("ucall", self.T(f), Tup([self.T(a) for a in args]))
        return r

    def maybe_raise(self, e, node):
        if self.cfg.may_raise is not None and self.cfg.may_raise(self, e):
            if self.choose(2, node, lambda c: "%s %s" % (
                    describe_event(e), "returns" if c == 0 else "raises")) == 1:
                self.emit("raised", node, at=e)
                e.d["failed"] = True
                raise PyRaise("Exception", None, node, implicit=True)

    def eval_defaults(self, a):
        """Default values, evaluated where the function is defined."""
        out = {}
        pos = a.posonlyargs + a.args
        for arg, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            out[arg.arg] = self.ev(d)
        for arg, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                out[arg.arg] = self.ev(d)
        return out

    def bind(self, fun, args, kwargs, node):
        fi = fun.fi
        a = fi.node.args
        env = Env(fi, fun.env)
        pos = [x.arg for x in a.posonlyargs + a.args]
        given = list(args)
        if fun.selfv is not None:
            given = [fun.selfv] + given
        vals = {}
        rest = []
        k = 0
        star = None
        for v in given:
            if isinstance(v, Star):
                star = v
                continue
            if k < len(pos):
                vals[pos[k]] = v
                k += 1
            else:
                rest.append(v)
        if star is not None:
            n = 0
            if a.vararg is None:
                while k < len(pos) and pos[k] not in kwargs:
                    vals[pos[k]] = self.nth(star.v, n)
                    n += 1
                    k += 1
        if rest and a.vararg is None:
            self.emit("badargs", node, f=fi.qual)
            raise PyRaise("TypeError", None, node, implicit=True)
        extra = {}
        kwstar = None
        for name, v in kwargs.items():
            if name == "**":
                kwstar = v
            elif name in pos or name in [x.arg for x in a.kwonlyargs]:
                vals[name] = v
            else:
                extra[name] = v
        if extra and a.kwarg is None:
            self.emit("badargs", node, f=fi.qual)
            raise PyRaise("TypeError", None, node, implicit=True)
        need = pos + [x.arg for x in a.kwonlyargs]
        missing = [n for n in need if n not in vals]
        if missing:
            defaults = fun.defaults
            if defaults is None:
                saved = (self.env, self.stack)
                self.env = fun.env
                self.stack = self.stack + [fi]
                try:
                    defaults = self.eval_defaults(a)
                finally:
                    self.env, self.stack = saved
            for n in missing:
                if n in defaults:
                    vals[n] = defaults[n]
                elif kwstar is not None:
                    vals[n] = Term("item", (self.T(kwstar), Const(n)))
                else:
                    self.emit("badargs", node, f=fi.qual)
                    raise PyRaise("TypeError", None, node, implicit=True)
        env.vars.update(vals)
        if a.vararg is not None:
            if star is not None:
                if rest:
                    env.vars[a.vararg.arg] = Term("args", (
                        Tup([self.T(x) for x in rest]), self.T(star.v)))
                else:
                    env.vars[a.vararg.arg] = star.v
            else:
                env.vars[a.vararg.arg] = Tup(rest)
        if a.kwarg is not None:
            d = DictO({Const(k): v for k, v in extra.items()})
            if kwstar is not None:
                ko = self.obj(kwstar)
                if isinstance(ko, DictO):
                    for k2, v2 in ko.items.items():
                        d.items.setdefault(k2, v2)
                    d.origin = ko.origin
                else:
                    d.origin = self.T(kwstar)
            env.vars[a.kwarg.arg] = self.alloc(d)
        return env

    #: Decorators that don't change what is returned
    PLAIN_DECORATORS = ("wraps", "lru_cache", "cache", "total_ordering", "contextmanager",
                        "cached_property", "abstractmethod", "wrapper")

    def decorated(self, fun, node):
        """A function with its decorators applied, or None if they make no difference."""
        fi = fun.fi
        g = raw = Fun(fi, fun.env)
        raw.defaults, raw.raw = fun.defaults, True
        saved = (self.env, self.stack)
        self.stack = self.stack + [fi]
        self.env = fun.env if fun.env is not None else Env(fi)
        try:
            for d in reversed(fi.node.decorator_list):
                text = ast.unparse(d)
                name = text.split("(")[0].split(".")[-1]
                if name in self.PLAIN_DECORATORS or text not in fi.unknown_decorators:
                    continue
                v = self.ev(d)
                if isinstance(v, (Ext, Term)) and not (
                        isinstance(v, Term) and v.op == "partial") and not (
                            isinstance(v, Ext) and v.path in self.cfg.ext):
                    self.unknown("decorator %s on %s" % (text, fi.qual), node)
                    continue
                g = self.call(v, [g], {}, node)
        finally:
            self.env, self.stack = saved
        return None if g is raw else g

    def call_fun(self, fun, args, kwargs, node=None):
        fi = fun.fi
        hook = self.cfg.opaque.get(fi.qual, False)
        if hook is False and fi.cls is not None and fun.selfv is not None:
            i = self.inst(fun.selfv)
            if i is not None and fi.parent is None:
                hook = self.cfg.opaque.get(i.ci.name + "." + fi.name, False) \
                    if fi.kind == "plain" else False
        if hook is False and fi.cls is None and fi.parent is None:
            hook = DEFAULT_OPAQUE_FUNCS.get(fi.module.modname + "." + fi.name, False)
        if hook is not False:
            return self.call_opaque(fun, hook, args, kwargs, node)
        if len(self.stack) > self.cfg.max_depth or \
           sum(1 for x in self.stack if x is fi) > (
               2 if any(isinstance(x, Term) for x in args) or not args else 20):
            self.unknown("recursion into " + fi.qual, node)
            self.emit("call", node, f=fi.qual, args=tuple(args), kwargs=dict(kwargs),
                      targs=tuple(self.T(a) for a in args), me=fun.selfv, result=None)
            return self.fresh("rec", fi.qual)
        env = self.bind(fun, args, kwargs, node)
        if fi.is_generator:
            f2 = Fun(fi, fun.env, fun.selfv)
            return self.alloc(GenO(f2, env))
        if fi.unknown_decorators and not fun.raw:
            g = self.decorated(fun, node)
            if g is not None:
                return self.call(g, list(args) if fun.selfv is None else [
                    fun.selfv] + list(args), kwargs, node)
        saved_env, saved_stack, saved_y = self.env, self.stack, self.on_yield
        self.env = env
        self.stack = saved_stack + [fi]
        self.on_yield = None
        saved_waits, self.waits = self.waits, []
        self.emit("enter", node, f=fi.qual, me=fun.selfv, model=fi.path.startswith("("))
        failed = None
        value = NONE
        try:
            try:
                if isinstance(fi.node, ast.Lambda):
                    value = self.ev(fi.node.body)
                else:
                    self.exec_block(fi.node.body)
            except ReturnX as r:
                value = r.value
            except PyRaise as e:
                if not fi.inlinecb:
                    self.emit("leave", node, f=fi.qual, me=fun.selfv, how="raise")
                    raise
                failed = e
            self.emit("leave", node, f=fi.qual, me=fun.selfv,
                      how="return" if failed is None else "raise")
        finally:
            self.env, self.stack, self.on_yield = saved_env, saved_stack, saved_y
            waits, self.waits = self.waits, saved_waits
        if fi.inlinecb:
            d = DefO(failed is None, value if failed is None else failed, fi.qual)
            d.waits = waits
            return self.alloc(d)
        return value

    def call_opaque(self, fun, hook, args, kwargs, node):
        fi = fun.fi
        e = self.emit("call", node, f=fi.qual, args=tuple(args), kwargs=dict(kwargs),
                      targs=tuple(self.T(a) for a in args), me=fun.selfv, result=None)
        if callable(hook):
            r = hook(self, fun, args, kwargs, node, e)
        elif hook == "pure":
            me = () if fun.selfv is None else (self.T(fun.selfv),)
            r = Term("call:" + fi.qual, me + e.d["targs"] + tuple(
                Tup([Const(k), self.T(v)]) for k, v in sorted(kwargs.items())))
        elif hook == "deferred":
            self.maybe_raise(e, node)
            r = self.alloc(DefO(True, self.fresh("result:" + fi.qual), fi.qual))
        elif hook == "none":
            r = NONE
        else:
            self.maybe_raise(e, node)
            r = self.fresh("result:" + fi.qual)
            if fi.inlinecb:
                r = self.alloc(DefO(True, r, fi.qual))
        e.d["result"] = r
        return r

    def construct(self, f, args, kwargs, node):
        ci = f.ci
        hook = self.cfg.opaque.get(ci.name + ".__init__", False)
        if hook == "opaque-class":
            self.emit("call", node, f=ci.name, args=tuple(args), kwargs=dict(kwargs),
                      targs=tuple(self.T(a) for a in args), me=None, result=None)
            return self.fresh("new:" + ci.name)
        ref = self.alloc(Inst(ci))
        m = self.repo.find_method(ci, "__init__")
        self.emit("construct", node, cls=ci.name, ref=ref, args=tuple(args))
        if m is not None:
            self.call_fun(Fun(m, None, ref), args, kwargs, node)
        elif any("dataclass" in ast.unparse(d) for d in ci.node.decorator_list):
            names = [x.target.id for x in ci.node.body if isinstance(x, ast.AnnAssign)]
            vals = dict(zip(names, args))
            vals.update(kwargs)
            for k in names:
                if k in vals:
                    self.obj(ref).fields[k] = vals[k]
                elif k not in ci.attrs:
                    raise PyRaise("TypeError", None, node, implicit=True)
        elif any(is_subclass(b, "BaseException") for c in self.repo.mro(ci) for b in c.bases):
            self.obj(ref).fields["args"] = Tup(args)
        return ref

    # -- Deferreds ---------------------------------------------------------------------------
    def pending(self, fire):
        """A Deferred that fires when something waits for it, or at the end."""
        o = DefO(True, NONE, "pending")
        o.fire = fire
        ref = self.alloc(o)
        self.unfired.append(ref)
        return ref

    def settle(self, ref):
        """Has a pending Deferred fire, with all that was added to it."""
        o = self.obj(ref)
        if not isinstance(o, DefO):
            return
        for x in o.waits if o.fire is None else ():
            self.settle(x)
        if o.fire is None:
            return
        fire, o.fire = o.fire, None
        if ref in self.unfired:
            self.unfired.remove(ref)
        fire(o)
        todo, o.todo = o.todo, []
        for name, args, kwargs, node in todo:
            self.def_method(ref, name, args, kwargs, node)

    def await_(self, v, node):
        self.emit("await", node, value=v)
        self.waits.append(v)
        o = self.obj(v)
        if isinstance(o, DefO) and o.fire is not None:
            self.settle(v)
        elif not self.exact_waits:
            self.suspend(node, v)
        if isinstance(o, DefO):
            if o.ok:
                r = o.value
                if isinstance(self.obj(r), DefO):
                    return self.await_(r, node)
                return r
            e = o.value
            raise e if isinstance(e, PyRaise) else PyRaise("Failure", e, node)
        if isinstance(v, Term):
            return Term("awaited", (v,))
        return v

    def waited_for(self, v, seen=None):
        """
        Everything (Refs of Deferreds) known to have fired once v has.
        """
        out = set() if seen is None else seen
        o = self.obj(v)
        if not isinstance(o, DefO) or v in out:
            return out
        out.add(v)
        for x in o.waits:
            self.waited_for(x, out)
        if isinstance(o.src, Event) and o.src.kind == "deferlist":
            kw = o.src.d["kwargs"]
            if not self.truth_const(kw.get("fireOnOneCallback")) \
               and not o.src.d.get("list_failed"):
                for x in o.src.d["items"]:
                    self.waited_for(x, out)
        if o.ok and isinstance(self.obj(o.value), DefO):
            self.waited_for(o.value, out)
        return out

    def run_chain(self, d, cb, args, kwargs, node, with_failure):
        """Runs a callback of a fired Deferred."""
        o = self.obj(d)
        first = o.value
        if with_failure:
            first = Term("failure", (self.uid_next(),))
            self.failures = getattr(self, "failures", {})
            self.failures[first] = o.value
        try:
            r = self.call(cb, [first] + list(args), kwargs, node)
        except PyRaise as e:
            o.ok = False
            o.value = e
            return
        ro = self.obj(r)
        if isinstance(ro, DefO):
            self.settle(r)
            o.ok, o.value = ro.ok, ro.value
            o.waits.append(r)
            return
        if with_failure and isinstance(r, Term) and r == first:
            return            # still failing
        o.ok = True
        o.value = r

    def def_method(self, d, name, args, kwargs, node):
        o = self.obj(d)
        kwargs = dict(kwargs)
        if o.fire is not None and name.startswith("add"):
            o.todo.append((name, list(args), kwargs, node))
            return d
        if name == "addCallback":
            if o.ok:
                self.run_chain(d, args[0], args[1:], kwargs, node, False)
            return d
        if name == "addErrback":
            if not o.ok:
                self.run_chain(d, args[0], args[1:], kwargs, node, True)
            return d
        if name == "addBoth":
            self.run_chain(d, args[0], args[1:], kwargs, node, not o.ok)
            return d
        if name == "addCallbacks":
            cb = args[0] if args else kwargs.get("callback")
            eb = args[1] if len(args) > 1 else kwargs.get("errback")

            def extra(key, pos):
                v = args[pos] if len(args) > pos else kwargs.get(key)
                return self.known_items(v) or [] if v is not None else []
            if o.ok:
                self.run_chain(d, cb, extra("callbackArgs", 2), {}, node, False)
            elif eb is not None:
                self.run_chain(d, eb, extra("errbackArgs", 4), {}, node, True)
            return d
        if name in ("callback", "errback", "cancel", "pause", "unpause", "chainDeferred"):
            self.emit("deffire", node, d=d, how=name, args=tuple(args))
            if name in ("callback", "errback"):
                if o.called:
                    raise PyRaise("AlreadyCalledError", NONE, node)
                if o.called is False:
                    o.called = True
            return NONE
        return self.fresh("defmeth", name)

    def maybe_deferred(self, args, kwargs, node):
        f, rest = args[0], args[1:]
        if isinstance(f, (Fun, Cls)) or self.inst(f) is not None or (
                isinstance(f, Meth)) or isinstance(f, Ext):
            try:
                r = self.call(f, rest, kwargs, node)
            except PyRaise as e:
                return self.alloc(DefO(False, e, "maybeDeferred"))
            if isinstance(self.obj(r), DefO):
                return r
            return self.alloc(DefO(True, r, "maybeDeferred"))
        e = self.emit("user", node, f=self.T(f), args=tuple(rest),
                      targs=tuple(self.T(a) for a in rest), kwargs=dict(kwargs),
                      how="maybeDeferred")
        if not self.cfg.user_sync:
            self.suspend(node, e)
        failed = self.cfg.defer_fail and self.choose(
            2, node, lambda c: "call of %r %s" % (
                self.T(f), "succeeds" if c == 0 else "fails")) == 1
        e.d["failed"] = bool(failed)
        if failed:
            return self.alloc(DefO(False, PyRaise("Failure", None, node), e))
        r = None
        if self.cfg.user_result is not None:
            r = self.cfg.user_result(self, e)
        if r is None:
            r = self.fresh("uresult", self.T(f), Tup([self.T(a) for a in rest]))
        e.d["result"] = r
        return self.alloc(DefO(True, r, e))

    # -- external functions --------------------------------------------------------------------
    def call_ext(self, f, args, kwargs, node):
        path = f.path
        h = self.cfg.ext.get(path)
        if h is not None:
            return h(self, args, kwargs, node)
        tail = path.split(".")[-1]
        if path.startswith("builtins."):
            m = getattr(self, "bi_" + tail, None)
            if m is not None:
                return m(args, kwargs, node)
        if path.startswith(("twisted.", "defer.")) or path.startswith("asynqueue"):
            r = self.call_twisted(path, tail, args, kwargs, node)
            if r is not None:
                return r
        if path.startswith("numpy"):
            return self.call_numpy(path, tail, args, kwargs, node)
        if path in ("copy.copy", "copy.deepcopy") and args:
            o = self.obj(args[0])
            if isinstance(o, ArrO):
                return self.alloc(ArrO(o.term))
            if isinstance(o, Inst):
                new = Inst(o.ci)
                new.fields = dict(o.fields)
                ref = self.alloc(new)
                if o.origin is not None:
                    for name in sorted(self.repo.assigned_attrs(o.ci)):
                        if name not in new.fields and not self.repo.find_prop(o.ci, name):
                            new.fields[name] = self.lazy_field(args[0], o, name)
                if path.endswith("deepcopy"):
                    for name, val in list(new.fields.items()):
                        vo = self.obj(val)
                        if isinstance(vo, ArrO):
                            new.fields[name] = self.alloc(ArrO(vo.term))
                return ref
            deep = path.endswith("deepcopy")

            def part(x):
                return self.call_ext(f, [x], {}, node) if deep and isinstance(
                    self.obj(x), (ListO, DictO, ArrO, NArr, SetO)) else x
            if isinstance(o, ListO) and o.items is not None:
                new = ListO([part(x) for x in o.items])
                new.maxlen = o.maxlen
                return self.alloc(new)
            if isinstance(o, DictO) and not isinstance(o.items, FieldMap):
                new = DictO({k: part(x) for k, x in o.items.items()}, o.origin, o.elem)
                new.gone, new.missing = set(o.gone), o.missing
                return self.alloc(new)
            if isinstance(o, SetO) and o.origin is None:
                return self.alloc(SetO(list(o.items)))
            if isinstance(args[0], (Const, Tup)):
                return args[0]
        if path == "functools.partial" and args:
            return Term("partial", (args[0], Tup(args[1:]), Tup([
                Tup([Const(k), x]) for k, x in kwargs.items()])))
        if path in stdlib_model.FOLDED and args and all(
                isinstance(x, Const) for x in list(args) + list(kwargs.values())):
            try:
                return self.from_literal(stdlib_model.FOLDED[path](
                    *[x.v for x in args], **{k: x.v for k, x in kwargs.items()}))
            except (ValueError, TypeError, OverflowError, ZeroDivisionError) as e:
                raise PyRaise(type(e).__name__, None, node, implicit=True)
        if args and path.split(".")[:1] == ["builtins"] and path.count(".") == 2 and path.split(
                ".")[1] in self.TYPES and tail != "fromkeys" and not isinstance(args[0], Term):
            return self.call(self.getattr(args[0], tail, node), list(args[1:]), kwargs, node)
        known = stdlib_model.KNOWN.get(path)
        if known is not None:
            m = stdlib_model.MODULE
            return self.call(Cls(m.classes[known]) if known in m.classes else Fun(
                m.functions[known]), args, kwargs, node)
        r = self.call_collections(path, args, kwargs, node)
        if r is not None:
            return r
        if path == "itertools.chain":
            return IterD("chain", args)
        e = self.emit("ext", node, f=path, args=tuple(args), kwargs=dict(kwargs),
                      targs=tuple(self.T(a) for a in args))
        self.maybe_raise(e, node)
        if path.startswith("builtins.") and tail and tail[0].isupper():
            return Term("exc", (tail,) + tuple(self.T(a) for a in args))
        if path in PURE_EXT or path.startswith(("os.path.", "math.")):
            if path in ("os.path.exists", "os.path.isfile", "os.path.isdir", "os.path.lexists"):
                return self.fresh("ext:" + path, *[self.T(a) for a in args])
            return Term("ext:" + path, [self.T(a) for a in args])
        r = self.fresh("ext:" + path, *([self.T(a) for a in args] + [
            Tup([Const(k), self.T(v)]) for k, v in sorted(kwargs.items())]))
        e.d["result"] = r
        return r

    def call_collections(self, path, args, kwargs, node):
        if path == "collections.OrderedDict":
            return self.bi_dict(args, kwargs, node)
        if path == "collections.defaultdict":
            ref = self.bi_dict(args[1:], kwargs, node)
            if args and args[0] != NONE:
                self.obj(ref).missing = args[0]
            return ref
        if path == "collections.Counter":
            d = DictO({})
            d.missing = Ext("builtins.int")
            for x in self.collect(args[0], node) if args else ():
                d.items[x] = self.binop(ast.Add(), d.items.get(x, Const(0)), Const(1), node)
            return self.alloc(d)
        if path == "collections.deque":
            n = args[1] if len(args) > 1 else kwargs.get("maxlen", NONE)
            ref = self.bi_list(args[:1], {}, node)
            o = self.obj(ref)
            if isinstance(n, Const) and n.v is not None:
                o.maxlen = n.v
                if o.items is not None and len(o.items) > n.v:
                    o.items = o.items[len(o.items) - n.v:]
            return ref
        if path in ("collections.namedtuple", "typing.NamedTuple") and len(args) >= 2:
            names = self.constants(args[1])
            if isinstance(args[1], Const) and isinstance(args[1].v, str):
                names = [Const(x) for x in args[1].v.replace(",", " ").split()]
            if names is not None and isinstance(args[0], Const):
                return Cls(stdlib_model.named_tuple(args[0].v, [x.v for x in names]))
        if path == "builtins.dict.fromkeys" and args:
            items = self.all_items(args[0], node)
            if items is not None:
                return self.alloc(DictO({
                    x: args[1] if len(args) > 1 else NONE for x in items}))
        return None

    def call_twisted(self, path, tail, args, kwargs, node):
        if tail == "maybeDeferred":
            return self.maybe_deferred(args, kwargs, node)
        if tail == "succeed":
            return self.alloc(DefO(True, args[0] if args else NONE, "succeed"))
        if tail == "fail":
            return self.alloc(DefO(False, PyRaise("Failure", args[0] if args else None,
                                                  node), "fail"))
        if tail == "returnValue":
            raise ReturnX(args[0] if args else NONE)
        if tail == "Deferred":
            return self.alloc(DefO(True, self.fresh("fired"), "Deferred"))
        if tail == "DeferredLock":
            return self.alloc(LockO(self.fresh("newlock")))
        if tail == "DeferredTracker":
            return self.alloc(TrackO(self.fresh("newtracker")))
        if tail in ("DeferredList", "gatherResults"):
            if tail == "gatherResults":
                kwargs = dict(kwargs, fireOnOneErrback=TRUE)
            for x in self.known_items(args[0]) or () if args else ():
                self.settle(x)
            e = self.emit("deferlist", node, args=tuple(args), kwargs=dict(kwargs),
                          items=tuple(self.known_items(args[0]) or ()) if args else ())
            can_fail = tail == "gatherResults" or self.truth_const(
                kwargs.get("fireOnOneErrback"))
            if can_fail:
                fails = [x for x in e.d["items"] if isinstance(self.obj(x), DefO)
                         and not self.obj(x).ok]
                if self.choose(2, node, lambda c: "all of the list %s" % (
                        "succeed" if c == 0 else "did not succeed")) == 1:
                    e.d["list_failed"] = True
                    return self.alloc(DefO(False, PyRaise("FirstError", None, node), e))
                if fails:
                    raise Infeasible()
            items = self.known_items(args[0]) if args else None
            if items is None:
                res = self.alloc(ListO(None, self.fresh("dlresult")))
            elif tail == "gatherResults":
                res = self.alloc(ListO([self.fresh("dlresult") for x in items]))
            else:
                res = self.alloc(ListO([Tup([self.fresh("dlsuccess"), self.fresh("dlresult")])
                                        for x in items]))
            return self.alloc(DefO(True, res, e))
        if tail == "cooperate":
            if args and isinstance(self.obj(args[0]), GenO):
                def each(_):
                    self.suspend(node, "cooperate")
                try:
                    self.iterate(args[0], each, node)
                except PyRaise as ex:
                    return Term("cooptask", (self.alloc(DefO(False, ex, "cooperate")),))
            return Term("cooptask", (self.alloc(DefO(True, NONE, "cooperate")),))
        return None

    @staticmethod
    def truth_const(v):
        return isinstance(v, Const) and bool(v.v)

    def call_numpy(self, path, tail, args, kwargs, node):
        short = path.split(".", 1)[1]
        targs = [self.T(a) for a in args]
        tkw = [Tup([Const(k), self.T(v)]) for k, v in sorted(kwargs.items())
               if k != "out"]
        out = kwargs.get("out")
        if short in FOLDED and len(args) == 1 and not kwargs and isinstance(args[0], Const) \
           and isinstance(args[0].v, (int, float)) and not isinstance(args[0].v, bool):
            try:
                return Const(FOLDED[short](args[0].v))
            except (ValueError, OverflowError):
                pass
        if self.cfg.known_arrays and not short.startswith("random."):
            r = narr.called(self, short, list(args), kwargs, node)
            if r is not None:
                return r
        if short.startswith("random."):
            e = self.emit("ext", node, f=path, args=tuple(args), kwargs=dict(kwargs),
                          targs=tuple(targs))
            r = self.fresh("np." + short, *(targs + tkw))
            e.d["result"] = r
            if short in ("random.uniform", "random.random", "random.rand",
                         "random.random_sample") and (args or kwargs):
                return self.alloc(ArrO(r))
            return r
        e = self.emit("np", node, f=short, args=tuple(args), kwargs=dict(kwargs),
                      targs=tuple(targs))
        self.maybe_raise(e, node)
        if short in ("isnan", "isinf", "isfinite"):
            targs = [strip_float(x) for x in targs]
        t = Term("np." + short, targs + tkw)
        if out is not None and isinstance(self.obj(out), ArrO):
            root = self.root_of(out)
            self.emit("arrset", node, ref=out, root=root, key=None, value=t,
                      how="out", fresh=self.obj(root).origin is None)
            self.obj(out).term = t
            return out
        if short in NP_ALIAS and args:
            o = self.obj(args[0])
            if isinstance(o, ArrO):
                return self.alloc(ArrO(o.term, o.origin, self.root_of(args[0]).oid))
            return self.alloc(ArrO(self.seq_term(args[0])))
        if short in ("array", "copy") and args:
            o = self.obj(args[0])
            if isinstance(o, ArrO):
                if self.is_false(kwargs.get("copy")):
                    return self.alloc(ArrO(o.term, o.origin, self.root_of(args[0]).oid))
                return self.alloc(ArrO(o.term))
            return self.alloc(ArrO(self.seq_term(args[0])))
        if short in ("put", "copyto", "place", "putmask", "fill_diagonal") and args:
            if isinstance(self.obj(args[0]), ArrO):
                root = self.root_of(args[0])
                self.emit("arrset", node, ref=args[0], root=root, key=None, value=t,
                          how=short, fresh=self.obj(root).origin is None)
                self.obj(args[0]).term = t
                return NONE
        if short in ("isnan", "isinf", "isfinite") and args and isinstance(args[0], Const):
            x = args[0].v
            if not isinstance(x, (int, float)):
                raise PyRaise("TypeError", None, node, implicit=True)
            return Const({"isnan": x != x, "isinf": x in (float("inf"), -float("inf")),
                          "isfinite": x == x and abs(x) != float("inf")}[short])
        if short in NP_ARRAY:
            return self.alloc(ArrO(t))
        if short in ("isnan", "isinf", "isfinite") and args and isinstance(
                self.obj(args[0]), ArrO):
            return self.alloc(ArrO(t))
        return t

    @staticmethod
    def is_false(v):
        return isinstance(v, Const) and v.v is False

    def seq_term(self, v):
        """Content of a sequence made into an array."""
        o = self.obj(v)
        if isinstance(o, ListO):
            if o.items is None and isinstance(o.origin, Term) and o.origin.op == "listof":
                return o.origin.args[0]
            return self.T(v)
        return self.T(v)

    # -- builtins ----------------------------------------------------------------------------------
    def bi_len(self, args, kwargs, node):
        v = args[0]
        o = self.obj(v)
        if isinstance(v, Tup):
            return Const(len(v.items))
        if isinstance(v, Const) and isinstance(v.v, (str, bytes)):
            return Const(len(v.v))
        if isinstance(o, ListO) and o.items is not None:
            return Const(len(o.items))
        if isinstance(o, NArr):
            return Const(o.shape[0])
        if isinstance(o, DictO) and o.origin is None:
            return Const(len(o.items))
        if isinstance(o, SetO) and o.origin is None and all(
                isinstance(x, Const) for x in o.items):
            return Const(len(set(o.items)))
        if isinstance(o, Inst):
            m = self.repo.find_method(o.ci, "__len__")
            if m is not None:
                return self.call_fun(Fun(m, None, v), [], {}, node)
        if isinstance(o, ListO) and self.cfg.listlen is not None:
            n = self.cfg.listlen(self, self.T(v))
            if n is not None:
                return n
        if isinstance(o, ArrO) and self.cfg.arrlen is not None:
            n = self.cfg.arrlen(self, o.term)
            if n is not None:
                return n
        if isinstance(v, IterD) and v.kind in ("range", "keys", "values", "items"):
            items = self.known_items(v)
            if items is not None and len(items) < self.cfg.unroll:
                return Const(len(items))
        return Term("len", (self.T(v),))

    def bi_bool(self, args, kwargs, node):
        if not args:
            return FALSE
        v = args[0]
        if isinstance(v, Term):
            return Term("bool", (v,))
        return Const(self.truth(v, node))

    def bi_float(self, args, kwargs, node):
        v = args[0] if args else Const(0.0)
        if isinstance(v, Const):
            if isinstance(v.v, str):
                try:
                    return Const(float(v.v))
                except ValueError:
                    raise PyRaise("ValueError", None, node, implicit=True)
            if isinstance(v.v, (int, float)):
                return Const(float(v.v))
            raise PyRaise("TypeError", None, node, implicit=True)
        if isinstance(self.obj(v), NArr) and len(self.obj(v).items) == 1:
            return self.bi_float([self.obj(v).items[0]], {}, node)
        i = self.inst(v)
        if i is not None:
            m = self.repo.find_method(i.ci, "__float__")
            if m is not None:
                return self.call_fun(Fun(m, None, v), [], {}, node)
        if isinstance(v, Term) and v.op in ("sse", "float", "time"):
            return v
        return Term("float", (self.T(v),))

    def bi_int(self, args, kwargs, node):
        v = args[0] if args else Const(0)
        base = args[1] if len(args) > 1 else kwargs.get("base")
        if isinstance(v, Const) and (base is None or isinstance(base, Const)):
            try:
                return Const(int(v.v) if base is None else int(v.v, base.v))
            except (TypeError, ValueError, OverflowError) as e:
                raise PyRaise(type(e).__name__, None, node, implicit=True)
        if isinstance(self.obj(v), NArr) and len(self.obj(v).items) == 1:
            return self.bi_int([self.obj(v).items[0]], {}, node)
        e = self.emit("ext", node, f="builtins.int", args=tuple(args), kwargs={},
                      targs=(self.T(v),))
        self.maybe_raise(e, node)
        return Term("int", (self.T(v),))

    def bi_str(self, args, kwargs, node):
        if args and isinstance(args[0], Const):
            return Const(str(args[0].v))
        if args and isinstance(args[0], Term) and args[0].op == "exc" and len(
                args[0].args) == 2 and isinstance(args[0].args[1], Const) and args[
                    0].args[0] != "KeyError":
            return Const(str(args[0].args[1].v))
        i = self.inst(args[0]) if args else None
        for name in ("__str__", "__repr__") if i is not None else ():
            m = self.repo.find_method(i.ci, name)
            if m is not None:
                return self.call_fun(Fun(m, None, args[0]), [], {}, node)
        v = self.as_literal(args[0]) if args else Const("")
        if v is not None:
            return Const(str(v.v))
        return Term("str", [self.T(a) for a in args])

    def as_literal(self, v):
        """A collection of constants as one, if it is that."""
        if isinstance(v, Const):
            return v
        o = self.obj(v)
        if isinstance(v, Tup) or isinstance(o, ListO) and o.items is not None:
            items = [self.as_literal(x) for x in self.known_items(v)]
            if all(x is not None for x in items):
                return Const((tuple if isinstance(v, Tup) else list)(x.v for x in items))
        if isinstance(o, DictO) and o.origin is None and not isinstance(o.items, FieldMap):
            items = [(self.as_literal(k), self.as_literal(x)) for k, x in o.items.items()]
            if all(k is not None and x is not None for k, x in items):
                return Const({k.v: x.v for k, x in items})
        return None

    def bi_repr(self, args, kwargs, node):
        v = self.as_literal(args[0])
        if v is not None:
            return Const(repr(v.v))
        if args and isinstance(args[0], Const):
            return Const(repr(args[0].v))
        i = self.inst(args[0]) if args else None
        m = self.repo.find_method(i.ci, "__repr__") if i is not None else None
        if m is not None:
            return self.call_fun(Fun(m, None, args[0]), [], {}, node)
        return Term("repr", [self.T(a) for a in args])

    def bi_range(self, args, kwargs, node):
        return IterD("range", args)

    def bi_enumerate(self, args, kwargs, node):
        st = args[1] if len(args) > 1 else kwargs.get("start", Const(0))
        return IterD("enumerate", args[:1], st.v if isinstance(st, Const) else 0)

    def bi_zip(self, args, kwargs, node):
        return IterD("zip", args)

    def bi_reversed(self, args, kwargs, node):
        return IterD("reversed", args)

    def bi_iter(self, args, kwargs, node):
        o = self.obj(args[0])
        if len(args) == 2:
            return self.alloc(IterO(args[0], stop=args[1]))
        if isinstance(o, GenO):
            return args[0]
        if isinstance(o, Inst):
            m = self.repo.find_method(o.ci, "__iter__")
            if m is not None:
                return self.call_fun(Fun(m, None, args[0]), [], {}, node)
        items = self.known_items(args[0])
        if items is not None:
            return self.alloc(IterO(args[0], items))
        return IterD("iter", args[:1])

    def bi_map(self, args, kwargs, node):
        return IterD("map", args)

    def bi_filter(self, args, kwargs, node):
        return IterD("filter", args)

    def bi_next(self, args, kwargs, node):
        """Next element; of what keeps no position, the first."""
        if isinstance(args[0], IterD):
            # From now on it has a position
            g, env = self.bi_iter([self.as_generator(args[0])], {}, node), self.env
            if self.obj(g) is not None:
                while env is not None:
                    for k, x in list(env.vars.items()):
                        if x is args[0]:
                            env.vars[k] = g
                    env = env.parent
                args = [g] + list(args[1:])
        o = self.obj(args[0])
        if isinstance(o, GenO):
            x = self.next_of(o, node)
            if x is not None:
                return x
            if len(args) > 1:
                return args[1]
            raise PyRaise("StopIteration", None, node, implicit=True)
        if isinstance(o, Inst):
            m = self.repo.find_method(o.ci, "__next__")
            if m is not None:
                try:
                    return self.call_fun(Fun(m, None, args[0]), [], {}, node)
                except PyRaise as e:
                    if e.etype == "StopIteration" and len(args) > 1:
                        return args[1]
                    raise

        class _Got(Exception):
            pass
        got = []

        def body(x):
            got.append(x)
            raise _Got()
        try:
            self.iterate(args[0], body, node)
        except _Got:
            return got[0]
        if len(args) > 1:
            return args[1]
        raise PyRaise("StopIteration", None, node, implicit=True)

    def bi_sorted(self, args, kwargs, node):
        v = args[0]
        if self.cfg.known_arrays:
            items = self.all_items(v, node)
            if items is not None:
                return self.alloc(ListO(self.sort_items(items, kwargs, node)))
        o = self.obj(v)
        items = self.known_items(v)
        if items is not None and "key" not in kwargs and all(
                isinstance(x, Const) for x in items):
            try:
                items = sorted(items, key=lambda x: x.v)
            except TypeError:
                raise PyRaise("TypeError", None, node, implicit=True)
            rev = kwargs.get("reverse", FALSE)
            if isinstance(rev, Const):
                return self.alloc(ListO(items[::-1] if rev.v else items))
        if isinstance(o, GenO) or (isinstance(v, IterD)):
            items = self.collect(v, node)
            return self.alloc(ListO(items, None)) if len(items) < 2 else self.alloc(
                ListO(None, Term("sorted", [self.T(x) for x in items])))
        if isinstance(o, ListO) and o.items is not None and len(o.items) < 2:
            return self.alloc(ListO(list(o.items)))
        return self.alloc(ListO(None, Term("sorted", [self.T(v)] + [
            Tup([Const(k), self.T(x)]) for k, x in sorted(kwargs.items())]),
            getattr(o, "elem", None)))

    def bi_list(self, args, kwargs, node):
        if not args:
            return self.alloc(ListO([]))
        v = args[0]
        items = self.known_items(v)
        if items is not None:
            return self.alloc(ListO(items))
        o = self.obj(v)
        if isinstance(o, (GenO,)) or isinstance(v, IterD) or (
                isinstance(o, Inst) and o.origin is None):
            return self.alloc(ListO(self.collect(v, node)))
        return self.alloc(ListO(None, Term("listof", (self.T(v),)),
                                getattr(o, "elem", None)))

    def bi_tuple(self, args, kwargs, node):
        if not args:
            return Tup(())
        items = self.known_items(args[0])
        if items is not None:
            return Tup(items)
        o = self.obj(args[0])
        if isinstance(o, GenO) or isinstance(args[0], IterD):
            return Tup(self.collect(args[0], node))
        return Term("tupleof", (self.T(args[0]),))

    def bi_set(self, args, kwargs, node):
        if not args:
            return self.alloc(SetO([]))
        items = self.known_items(args[0])
        if items is not None:
            out = []
            for x in items:
                if x not in out:
                    out.append(x)
            return self.alloc(SetO(out))
        o = self.obj(args[0])
        if isinstance(o, GenO) or isinstance(args[0], IterD):
            return self.alloc(SetO(self.unique(self.collect(args[0], node))))
        return self.alloc(SetO([], Term("setof", (self.T(args[0]),))))

    bi_frozenset = bi_set

    def bi_dict(self, args, kwargs, node):
        d = DictO({Const(k): v for k, v in kwargs.items() if k != "**"})
        if "**" in kwargs:
            d.origin = self.T(kwargs["**"])
        if args:
            o = self.obj(args[0])
            if isinstance(o, DictO):
                items = dict(o.items)
                items.update(d.items)
                d.items = items
                d.origin = o.origin
            else:
                for x in self.collect(args[0], node):
                    if isinstance(x, Tup) and len(x.items) == 2:
                        d.items[x.items[0]] = x.items[1]
                    else:
                        d.origin = Term("dictof", (self.T(args[0]),))
        return self.alloc(d)

    def bi_isinstance(self, args, kwargs, node):
        v, tp = args
        r = self.isinstance_(v, tp)
        if r is not None:
            return Const(r)
        t = Term("isinstance", (self.T(v), self.T(tp)))
        k = self.lookup(t)
        return t if k is None else Const(k)

    TYPES = {"list": list, "tuple": tuple, "dict": dict, "set": set, "str": str,
             "int": int, "float": float, "bool": bool, "bytes": bytes}

    def isinstance_(self, v, tp):
        if isinstance(tp, Tup):
            rs = [self.isinstance_(v, x) for x in tp.items]
            if any(r is True for r in rs):
                return True
            if all(r is False for r in rs):
                return False
            return None
        o = self.obj(v)
        if isinstance(tp, Cls):
            if isinstance(o, Inst):
                return any(c is tp.ci for c in self.repo.mro(o.ci))
            if isinstance(v, Term) or isinstance(v, Ext):
                if isinstance(v, Term) and v.op in ("list", "float", "int", "str"):
                    return False
                if isinstance(v, Term) and v.op in ("uresult", "awaited", "ucall"):
                    return False      # not something of ours
                return None
            return False
        name = tp.path.split(".")[-1] if isinstance(tp, Ext) else None
        if isinstance(v, Const):
            if name in self.TYPES and tp.path.startswith("builtins."):
                return isinstance(v.v, self.TYPES[name])
            if isinstance(tp, Ext) and (tp.path.startswith("numpy") or tp.path in (
                    "builtins.slice", "builtins.frozenset", "builtins.bytearray")):
                return False
        if isinstance(v, Slice):
            return name == "slice"
        if isinstance(v, Tup):
            return name == "tuple"
        if isinstance(o, ListO):
            return name == "list" if name in self.TYPES else False
        if isinstance(o, DictO):
            return name == "dict" if name in self.TYPES else False
        if isinstance(o, SetO):
            return name == "set" if name in self.TYPES else False
        if isinstance(o, (ArrO, NArr)):
            return name == "ndarray"
        if isinstance(o, Inst):
            return False if name in self.TYPES or (
                isinstance(tp, Ext) and tp.path.startswith("numpy")) else None
        if isinstance(o, DefO):
            return name == "Deferred"
        if isinstance(v, Term) and v.op == "failure":
            return name == "Failure"
        if isinstance(v, Term) and v.op == "exc" and isinstance(tp, Ext) and \
                tp.path.startswith("builtins."):
            return is_subclass(v.args[0], name)
        return None

    def bi_hasattr(self, args, kwargs, node):
        v, nm = args
        o = self.obj(v)
        if isinstance(nm, Const):
            name = nm.v
            if isinstance(o, Inst):
                if name in o.fields or self.repo.find_method(o.ci, name) or \
                   self.repo.find_prop(o.ci, name) or self.repo.find_attr(o.ci, name):
                    return TRUE
                if o.origin is not None and name in self.repo.assigned_attrs(o.ci):
                    return TRUE
                return FALSE
            if isinstance(v, Const) and isinstance(v.v, (int, float, bool, str)) or v == NONE:
                return Const(name in dir(type(v.v)))
            if self.own_ext(v):
                return Const("%s.%s" % (v.path, name) in self.cfg.ext or name in dir(object))
            if v in self.ranges:
                return Const(name in dir(float))
            if isinstance(v, Tup):
                return Const(name in dir(tuple))
            if isinstance(o, ListO):
                return Const(name in dir(list))
            if isinstance(o, (ArrO, NArr)):
                return Const(name in ("__iter__", "__len__", "shape", "dtype", "size",
                                      "tobytes", "copy", "__getitem__"))
        t = Term("hasattr", (self.T(v), self.T(nm)))
        k = self.lookup(t)
        return t if k is None else Const(k)

    def bi_getattr(self, args, kwargs, node):
        v, nm = args[0], args[1]
        default = args[2] if len(args) > 2 else None
        if isinstance(nm, Const) and isinstance(nm.v, str):
            o = self.inst(v)
            if default is not None and o is not None and o.origin is not None:
                if not (nm.v in o.fields or self.repo.find_prop(o.ci, nm.v)
                        or self.repo.find_method(o.ci, nm.v)
                        or self.repo.find_attr(o.ci, nm.v)
                        or nm.v in self.repo.assigned_attrs(o.ci)):
                    return default
            if default is not None and (isinstance(v, Const) or self.own_ext(v)):
                if self.bi_hasattr([v, nm], {}, node) == FALSE:
                    return default
            try:
                return self.getattr(v, nm.v, node, default)
            except PyRaise as e:
                if default is not None and e.etype == "AttributeError":
                    return default
                raise
        self.emit("getattr_dyn", node, obj=self.T(v), name=nm)
        return Term("getattr", [self.T(a) for a in args])

    def bi_setattr(self, args, kwargs, node):
        v, nm, x = args
        if isinstance(nm, Const) and isinstance(nm.v, str):
            self.setattr(v, nm.v, x, node)
            return NONE
        self.emit("setattr_dyn", node, obj=self.T(v), name=nm, value=x)
        return NONE

    def bi_delattr(self, args, kwargs, node):
        if isinstance(args[1], Const):
            self.delattr(args[0], args[1].v, node)
        return NONE

    def bi_callable(self, args, kwargs, node):
        v = args[0]
        if isinstance(v, (Fun, Cls, Meth)) or isinstance(v, Ext) and (
                v.path in self.cfg.ext or v.path.startswith("builtins.")):
            return TRUE
        if isinstance(v, (Const, Tup)):
            return FALSE
        i = self.inst(v)
        if i is not None:
            return Const(self.repo.find_method(i.ci, "__call__") is not None)
        t = Term("callable", (self.T(v),))
        k = self.lookup(t)
        return t if k is None else Const(k)

    def bi_all(self, args, kwargs, node):
        class _Stop(Exception):
            pass

        def body(x):
            if not self.truth(x, node):
                raise _Stop()
        o = self.obj(args[0])
        if isinstance(o, ArrO) or isinstance(args[0], Term):
            return Term("np.all", (self.T(args[0]),))
        try:
            self.iterate(args[0], body, node)
        except _Stop:
            return FALSE
        return TRUE

    def bi_any(self, args, kwargs, node):
        class _Stop(Exception):
            pass

        def body(x):
            if self.truth(x, node):
                raise _Stop()
        o = self.obj(args[0])
        if isinstance(o, ArrO) or isinstance(args[0], Term):
            return Term("np.any", (self.T(args[0]),))
        try:
            self.iterate(args[0], body, node)
        except _Stop:
            return TRUE
        return FALSE

    def minmax(self, name, args, node):
        items = None
        if len(args) == 1:
            items = self.known_items(args[0])
            if items is None and isinstance(self.obj(args[0]), GenO):
                items = self.collect(args[0], node)
        else:
            items = list(args)
        if items is not None:
            if items and all(isinstance(x, Const) and isinstance(
                    x.v, (int, float)) for x in items):
                return Const((min if name == "min" else max)(x.v for x in items))
            if len(items) == 1:
                return items[0]
            ts = sorted({self.T(x) for x in items}, key=repr)
            return ts[0] if len(ts) == 1 else Term(name, ts)
        return Term(name + "of", [self.T(a) for a in args])

    def bi_min(self, args, kwargs, node):
        return self.minmax_key("min", args, kwargs, node)

    def bi_max(self, args, kwargs, node):
        return self.minmax_key("max", args, kwargs, node)

    def minmax_key(self, name, args, kwargs, node):
        key = kwargs.get("key", NONE)
        if key == NONE and not self.cfg.known_arrays:
            return self.minmax(name, args, node)
        items = list(args) if len(args) > 1 else self.all_items(args[0], node)
        if items is None:
            if key == NONE:
                return self.minmax(name, args, node)
            return Term(name + "by", [self.T(a) for a in args] + [self.T(key)])
        if not items:
            if "default" in kwargs:
                return kwargs["default"]
            raise PyRaise("ValueError", None, node, implicit=True)
        if key == NONE:
            return narr.pick(self, items, node, name == "min")
        keys = [self.call(key, [x], {}, node) for x in items]
        best = 0
        for k in range(1, len(items)):
            x, y = (keys[k], keys[best]) if name == "min" else (keys[best], keys[k])
            if narr.less(self, x, y, node):
                best = k
        return items[best]

    def all_items(self, v, node):
        items = self.known_items(v)
        if items is None and (isinstance(self.obj(v), GenO) or isinstance(v, IterD)):
            items = self.collect(v, node)
            if any(isinstance(x, Star) for x in items):
                return None
        return items

    def sort_items(self, items, kwargs, node):
        key = kwargs.get("key", NONE)
        keys = items if key == NONE else [self.call(key, [x], {}, node) for x in items]
        rev = self.truth(kwargs.get("reverse", FALSE), node)
        if rev:
            n = len(items)
            return [items[n - 1 - k] for k in narr.order(self, keys[::-1], node)][::-1]
        return [items[k] for k in narr.order(self, keys, node)]

    def bi_sum(self, args, kwargs, node):
        items = self.constants(args[0])
        if items is None and (isinstance(self.obj(args[0]), GenO) or isinstance(
                args[0], IterD)):
            items = self.collect(args[0], node)
            args = [self.alloc(ListO(items))] + list(args[1:])
        if items is not None and all(isinstance(x, Const) for x in items):
            start = args[1] if len(args) > 1 else kwargs.get("start", Const(0))
            if isinstance(start, Const) and all(
                    isinstance(x.v, (int, float)) for x in items + [start]):
                return Const(sum((x.v for x in items), start.v))
        items = self.known_items(args[0])
        if items is not None and self.cfg.known_arrays:
            total = args[1] if len(args) > 1 else kwargs.get("start", Const(0))
            for x in items:
                total = self.binop(ast.Add(), total, x, node)
            return total
        return Term("ext:builtins.sum", [self.T(a) for a in args])

    def bi_abs(self, args, kwargs, node):
        if isinstance(args[0], Const):
            return Const(abs(args[0].v))
        if isinstance(self.obj(args[0]), NArr):
            return narr.called(self, "abs", list(args), {}, node)
        return Term("abs", (self.T(args[0]),))

    def bi_type(self, args, kwargs, node):
        i = self.inst(args[0])
        if i is not None:
            return Cls(i.ci)
        if len(args) == 1 and isinstance(args[0], Const) and args[0].v is not None:
            return Ext("builtins." + type(args[0].v).__name__)
        o = self.obj(args[0])
        for c, name in ((ListO, "list"), (DictO, "dict"), (SetO, "set")):
            if isinstance(o, c):
                return Ext("builtins." + name)
        if isinstance(o, NArr):
            return Ext("numpy.ndarray")
        if isinstance(args[0], Tup):
            return Ext("builtins.tuple")
        if isinstance(args[0], Term) and args[0].op == "exc":
            return Ext("builtins." + args[0].args[0])
        return Term("type", (self.T(args[0]),))

    def bi_issubclass(self, args, kwargs, node):
        kinds = args[1].items if isinstance(args[1], Tup) else [args[1]]
        out = []
        for b in kinds:
            r = None
            if isinstance(args[0], Cls):
                if isinstance(b, Cls):
                    r = any(c is b.ci for c in self.repo.mro(args[0].ci))
                else:
                    names = {x for c in self.repo.mro(args[0].ci) for x in c.bases}
                    r = isinstance(b, Ext) and any(
                        is_subclass(x.split(".")[-1], b.path.split(".")[-1]) for x in names)
            elif isinstance(args[0], Ext) and isinstance(b, Ext):
                r = args[0] == b or is_subclass(args[0].path.split(".")[-1],
                                                b.path.split(".")[-1])
            elif isinstance(args[0], Ext) and isinstance(b, Cls):
                r = False
            out.append(r)
        if any(out):
            return TRUE
        if all(x is not None for x in out):
            return FALSE
        return self.fresh("issubclass", *[self.T(a) for a in args])

    def bi_hash(self, args, kwargs, node):
        i = self.inst(args[0])
        if i is not None:
            m = self.repo.find_method(i.ci, "__hash__")
            if m is not None:
                return self.call_fun(Fun(m, None, args[0]), [], {}, node)
        self.emit("hash", node, arg=args[0], targ=self.T(args[0]))
        return Term("hash", (self.T(args[0]),))

    def bi_print(self, args, kwargs, node):
        self.emit("print", node)
        return NONE

    def bi_id(self, args, kwargs, node):
        return Term("id", (self.T(args[0]),))

    def bi_vars(self, args, kwargs, node):
        if args and self.inst(args[0]) is not None:
            return self.getattr(args[0], "__dict__", node)
        return self.fresh("vars", self.T(args[0])) if args else self.fresh("vars")

    def bi_super(self, args, kwargs, node):
        return Ext("super")

    # -- methods of containers, Deferreds, locks -------------------------------------------------
    def call_meth(self, f, args, kwargs, node):
        base, name = f.base, f.name
        o = self.obj(base)
        if isinstance(o, DefO):
            return self.def_method(base, name, args, kwargs, node)
        if isinstance(o, LockO):
            return self.lock_method(base, o, name, args, kwargs, node)
        if isinstance(o, TrackO):
            self.emit("track", node, tracker=o.origin, op=name, args=tuple(args))
            if name == "put":
                return args[0] if args else NONE
            if name.startswith("defer"):
                return self.alloc(DefO(True, TRUE, ("track", name)))
            return NONE
        if name == "__contains__" and len(args) == 1:
            return self.contains(base, args[0], node)
        if name == "__getitem__" and len(args) == 1:
            return self.getitem(base, args[0], node)
        if name == "__len__" and not args:
            return self.bi_len([base], {}, node)
        if isinstance(o, ListO):
            return self.list_method(base, o, name, args, kwargs, node)
        if isinstance(o, DictO):
            return self.dict_method(base, o, name, args, kwargs, node)
        if isinstance(o, SetO):
            return self.set_method(base, o, name, args, kwargs, node)
        if self.cfg.known_arrays and name in ("item", "tolist") and not args and isinstance(
                base, Const) and isinstance(base.v, (int, float)):
            return base               # a number out of an array
        if self.cfg.known_arrays and name == "tobytes" and isinstance(
                base, Const) and isinstance(base.v, (int, float)):
            return narr.as_bytes(self, NArr((), [base]))
        if isinstance(o, NArr):
            r = narr.method(self, base, o, name, list(args), kwargs, node)
            return self.fresh("arrmeth", name, self.T(base)) if r is None else r
        if isinstance(o, ArrO):
            return self.arr_method(base, o, name, args, kwargs, node)
        if isinstance(base, Tup):
            if name == "count" and args:
                n = 0
                for x in base.items:
                    if x == args[0]:
                        n += 1
                        continue
                    if self.truth(self.eq(x, args[0], node), node):
                        n += 1
                return Const(n)
            if name == "index":
                for k, x in enumerate(base.items):
                    if x == args[0]:
                        return Const(k)
        if isinstance(base, Const) and isinstance(base.v, (str, bytes)):
            plain = [tuple(x.v for x in a.items) if isinstance(a, Tup) and all(
                isinstance(x, Const) for x in a.items) else a.v if isinstance(a, Const)
                else None for a in args]
            if all(isinstance(a, Const) or x is not None for a, x in zip(args, plain)) and all(
                    isinstance(x, Const) for x in kwargs.values()):
                f = getattr(base.v, name, None)
                if f is None:
                    raise PyRaise("AttributeError", None, node, implicit=True)
                try:
                    return self.from_literal(f(*plain, **{k: x.v for k, x in kwargs.items()}))
                except (ValueError, TypeError, IndexError, KeyError, UnicodeError) as e:
                    raise PyRaise(type(e).__name__, None, node, implicit=True)
            if name == "join" and len(args) == 1:
                if isinstance(self.obj(args[0]), GenO) or isinstance(args[0], IterD):
                    args = [self.alloc(ListO(self.collect(args[0], node)))]
                items = self.constants(args[0])
                if items is not None and all(isinstance(x.v, str) for x in items):
                    return Const(base.v.join(x.v for x in items))
            if name == "join":
                return Term("join", [base] + [self.T(a) for a in args])
            return Term("strmeth", [base, name] + [self.T(a) for a in args])
        return self.call_tattr(self.T(base), name, args, kwargs, node)

    def call_tattr(self, base, name, args, kwargs, node):
        e = self.emit("mcall", node, base=base, name=name, args=tuple(args),
                      targs=tuple(self.T(a) for a in args), kwargs=dict(kwargs))
        self.maybe_raise(e, node)
        if name in ("append", "add", "insert", "write", "close", "flush"):
            return NONE
        if isinstance(base, Term) and base.op == "cooptask" and name == "whenDone":
            return base.args[0]
        return self.fresh("mcall", base, name, *[self.T(a) for a in args])

    def lock_method(self, base, o, name, args, kwargs, node):
        key = untag(o.origin)
        if name == "acquire":
            self.emit("acquire", node, lock=o.origin, ref=base)
            self.held[key] = self.held.get(key, 0) + 1
            return self.alloc(DefO(True, base, ("lock", o.origin)))
        if name == "release":
            self.emit("release", node, lock=o.origin, ref=base)
            self.nrel += 1
            self.held[key] = max(0, self.held.get(key, 0) - 1)
            return NONE
        if name == "run":
            def run():
                self.emit("acquire", node, lock=o.origin, ref=base, run=True)
                self.suspend(node, "lock.run")
                try:
                    return self.maybe_deferred(args, kwargs, node)
                finally:
                    self.emit("release", node, lock=o.origin, ref=base, run=True)
            if self.queued is not None:
                self.queued.append(run)
                return self.alloc(DefO(True, self.fresh("later"), "queued"))
            return run()
        return self.fresh("lockmeth", name)

    def list_method(self, base, o, name, args, kwargs, node):
        if name in ("append", "insert", "extend", "pop", "remove", "clear", "sort",
                    "reverse"):
            self.emit("mut", node, obj=self.T(base), ref=base, op=name,
                      args=tuple(args), origin=o.origin)
        if o.items is not None and name in ("appendleft", "popleft", "extendleft", "rotate"):
            if name == "popleft":
                return self.list_method(base, o, "pop", [Const(0)], {}, node)
            if name == "rotate":
                k = args[0].v if args and isinstance(args[0], Const) else 1
                n = len(o.items)
                o.items = [o.items[(j - k) % n] for j in range(n)]
                return NONE
            for x in args if name == "appendleft" else self.collect(args[0], node):
                o.items.insert(0, x)
                if o.maxlen is not None and len(o.items) > o.maxlen:
                    o.items.pop()
            return NONE
        if o.items is not None:
            if name == "append":
                o.items.append(args[0])
                if o.maxlen is not None and len(o.items) > o.maxlen:
                    o.items.pop(0)
                return NONE
            if name == "extend":
                items = self.known_items(args[0])
                if items is None and isinstance(self.obj(args[0]), GenO):
                    items = self.collect(args[0], node)
                if items is not None:
                    o.items.extend(items)
                    return NONE
                o.origin = self.fresh("extended", self.T(args[0]))
                o.items = None
                return NONE
            if name == "insert" and isinstance(args[0], Const):
                o.items.insert(args[0].v, args[1])
                return NONE
            if name == "pop":
                k = args[0].v if args and isinstance(args[0], Const) else -1
                try:
                    return o.items.pop(k)
                except IndexError:
                    self.emit("indexerror", node, obj=self.T(base))
                    raise PyRaise("IndexError", None, node, implicit=True)
            if name == "clear":
                o.items = []
                return NONE
            if name in ("remove", "index") and len(args) == 1:
                for k, x in enumerate(o.items):
                    if x == args[0] or self.truth(self.eq(x, args[0], node), node):
                        if name == "index":
                            return Const(k)
                        del o.items[k]
                        return NONE
                raise PyRaise("ValueError", None, node, implicit=True)
            if name == "count":
                n = 0
                for x in o.items:
                    if x == args[0] or self.truth(self.eq(x, args[0], node), node):
                        n += 1
                return Const(n)
            if name == "copy":
                return self.alloc(ListO(list(o.items)))
            if name == "reverse":
                o.items.reverse()
                return NONE
            if name == "sort" and self.cfg.known_arrays:
                o.items = self.sort_items(o.items, kwargs, node)
                return NONE
            if name == "insert" and len(args) == 2 and isinstance(args[0], Const) \
                    and isinstance(args[0].v, int):
                o.items.insert(args[0].v, args[1])
                return NONE
            if name in ("sort",):
                if len(o.items) > 1:
                    o.origin = Term("sortedlist", [self.T(x) for x in o.items])
                    o.items = None
                return NONE
            if name == "insert":
                o.origin = self.fresh("inserted")
                o.items = None
                return NONE
            return self.call_tattr(self.T(base), name, args, kwargs, node)
        before = self.T(base)
        if name == "pop":
            o.ver = self.uid_next()
            k = self.T(args[0]) if args else Const(-1)
            o.known = {}
            return self.typed(o.elem, Term("popped", (before, k, o.ver)))
        if name == "clear":
            o.items = []
            o.known = {}
            return NONE
        if name in ("append", "insert", "extend", "remove", "sort", "reverse"):
            o.ver = self.uid_next()
            if name != "append":
                o.known = {}
            x = args[1] if name == "insert" and len(args) > 1 else (
                args[0] if args else None)
            if name in ("append", "insert"):
                self.assume(Term("in", (self.T(x), self.T(base))), True)
                self.assume(Term("truthy", (self.T(base),)), True)
            return NONE
        if name == "copy":
            return self.alloc(ListO(None, Term("listof", (before,)), o.elem))
        if name == "index":
            return Term("indexof", (before,) + tuple(self.T(a) for a in args))
        if name == "count":
            return Term("count", (before,) + tuple(self.T(a) for a in args))
        return self.call_tattr(before, name, args, kwargs, node)

    def dict_method(self, base, o, name, args, kwargs, node):
        if name in ("items", "values", "keys"):
            return IterD(name, (base,))
        if name == "get":
            default = args[1] if len(args) > 1 else NONE
            c = self.contains(base, args[0], node)
            if self.truth(c, node):
                return self.getitem(base, args[0], node)
            return default
        if name in ("pop", "setdefault", "update", "clear", "popitem"):
            self.emit("mut", node, obj=self.T(base), ref=base, op=name,
                      args=tuple(args), origin=o.origin)
        if name == "pop":
            k = self.T(args[0])
            for kk in list(o.items):
                if self.T(kk) == k:
                    r = o.items.pop(kk)
                    o.gone.add(k)
                    o.ver = self.uid_next()
                    return r
            if o.origin is None or k in o.gone:
                if len(args) > 1:
                    return args[1]
                raise PyRaise("KeyError", args[0], node, implicit=True)
            atom = Term("in", (k, self.T(base)))
            if len(args) > 1:
                present = self.decide(atom, node)
            else:
                present = self.lookup(atom)
                if present is False:
                    raise PyRaise("KeyError", args[0], node, implicit=True)
                present = True
            if not present:
                return args[1]
            r = Term("item", (self.T(base), k))
            o.gone.add(k)
            o.ver = self.uid_next()
            return r
        if name == "popitem" and o.origin is None and not isinstance(o.items, FieldMap):
            if not o.items:
                raise PyRaise("KeyError", None, node, implicit=True)
            last = not args or args[0] == TRUE
            k = list(o.items)[-1 if last else 0]
            return Tup([k, o.items.pop(k)])
        if name == "setdefault":
            c = self.contains(base, args[0], node)
            if self.truth(c, node):
                return self.getitem(base, args[0], node)
            default = args[1] if len(args) > 1 else NONE
            o.items[args[0]] = default
            o.gone.discard(self.T(args[0]))
            o.ver = self.uid_next()
            return default
        if name == "update":
            for src in args:
                so = self.obj(src)
                if isinstance(so, DictO):
                    o.items.update(so.items)
                    if so.origin is not None and o.origin is None:
                        o.origin = so.origin
                elif isinstance(so, GenO) or isinstance(src, IterD):
                    for x in self.collect(src, node):
                        if isinstance(x, Tup) and len(x.items) == 2:
                            o.items[x.items[0]] = x.items[1]
                else:
                    o.origin = Term("updated", (self.T(src),))
            for k, v in kwargs.items():
                if k == "**":
                    o.origin = self.T(v)
                else:
                    o.items[Const(k)] = v
            o.ver = self.uid_next()
            return NONE
        if name == "clear":
            if isinstance(o.items, FieldMap):
                o.items.clear()
            else:
                o.items = {}
            o.origin = None
            o.gone = set()
            return NONE
        if name == "copy":
            d = DictO(dict(o.items), o.origin, o.elem)
            d.gone = set(o.gone)
            return self.alloc(d)
        return self.call_tattr(self.T(base), name, args, kwargs, node)

    def set_method(self, base, o, name, args, kwargs, node):
        if name in ("add", "discard", "remove", "pop", "clear", "update",
                    "difference_update", "intersection_update"):
            self.emit("mut", node, obj=self.T(base), ref=base, op=name,
                      args=tuple(args), origin=o.origin)
        if name == "add":
            tx = self.T(args[0])
            for k in list(o.known):
                if self.T(k) == tx:
                    del o.known[k]
            if o.origin is None:
                if not any(self.T(x) == tx for x in o.items):
                    o.items.append(args[0])
            else:
                o.known[args[0]] = True
                o.ver = self.uid_next()
            return NONE
        if name in ("discard", "remove"):
            tx = self.T(args[0])
            if name == "remove" and o.origin is None and isinstance(tx, Const) and all(
                    isinstance(x, Const) and x != tx for x in o.items):
                raise PyRaise("KeyError", None, node, implicit=True)
            o.items = [x for x in o.items if self.T(x) != tx]
            if o.origin is not None:
                for k in list(o.known):
                    if self.T(k) == tx:
                        del o.known[k]
                o.known[args[0]] = False
                o.ver = self.uid_next()
            return NONE
        if name == "pop":
            if o.origin is None and o.items:
                return o.items.pop(0)
            before = self.T(base)
            o.ver = self.uid_next()
            r = Term("popped", (before, o.ver))
            o.known[r] = False
            return r
        if name == "clear":
            o.items = []
            o.known = {}
            o.origin = None
            return NONE
        if name in ("update", "difference_update", "intersection_update") and o.origin is None:
            more = [self.known_items(a) for a in args]
            if all(x is not None for x in more):
                for xs in more:
                    ts = [self.T(x) for x in xs]
                    if name == "update":
                        mine = [self.T(x) for x in o.items]
                        for x in xs:
                            if self.T(x) not in mine:
                                mine.append(self.T(x))
                                o.items.append(x)
                    else:
                        o.items = [x for x in o.items if (self.T(x) in ts) == (
                            name == "intersection_update")]
                return NONE
        if name in ("update", "difference_update", "intersection_update"):
            o.origin = o.origin or self.fresh("setx")
            o.ver = self.uid_next()
            return NONE
        if name == "copy":
            s = SetO(list(o.items), o.origin)
            s.known = dict(o.known)
            s.ver = o.ver
            return self.alloc(s)
        if name in ("union", "difference", "intersection", "issubset", "issuperset",
                    "isdisjoint"):
            mine, more = self.constants(base), [self.constants(a) for a in args]
            if mine is not None and all(x is not None for x in more):
                if name.startswith("is"):
                    a, b = set(mine), set(more[0])
                    return Const({"issubset": a <= b, "issuperset": a >= b,
                                  "isdisjoint": not a & b}[name])
                for xs in more:
                    if name == "union":
                        mine = mine + [x for x in xs if x not in mine]
                    else:
                        mine = [x for x in mine if (x in xs) == (name == "intersection")]
                return self.alloc(SetO(mine))
        if name in ("union", "difference", "intersection"):
            op = {"union": "|", "difference": "-", "intersection": "&"}[name]
            return self.alloc(SetO([], Term("set" + op, [self.T(base)] + [
                self.T(a) for a in args])))
        if name == "issubset":
            return Term("issubset", (self.T(base), self.T(args[0])))
        return self.call_tattr(self.T(base), name, args, kwargs, node)

    ARR_INPLACE = {"sort", "fill", "put", "itemset", "resize", "partition", "clip_"}

    def arr_method(self, base, o, name, args, kwargs, node):
        targs = [self.T(a) for a in args]
        if name in self.ARR_INPLACE:
            root = self.root_of(base)
            self.emit("arrset", node, ref=base, root=root, key=None,
                      value=Term("arr." + name, targs), how=name,
                      fresh=self.obj(root).origin is None)
            o.term = Term("arr." + name, [o.term] + targs)
            return NONE
        if name in ("copy",):
            return self.alloc(ArrO(o.term))
        if name == "clip":
            lo = args[0] if args else kwargs.get("min", NONE)
            hi = args[1] if len(args) > 1 else kwargs.get("max", NONE)
            return self.alloc(ArrO(Term("np.clip", (o.term, self.T(lo), self.T(hi)))))
        if name in ("view", "ravel", "reshape", "squeeze"):
            return self.alloc(ArrO(o.term, o.origin, self.root_of(base).oid))
        if name in ("astype", "flatten"):
            return self.alloc(ArrO(o.term))
        if name == "tolist":
            return self.alloc(ListO(None, Term("listof", (o.term,))))
        return Term("arr." + name, [o.term] + targs)

    # -- statements --------------------------------------------------------------------------------
    def exec_block(self, stmts):
        for st in stmts:
            self.node = st
            self.exec_(st)

    def exec_(self, st):
        m = getattr(self, "st_" + type(st).__name__, None)
        if m is None:
            self.unknown(type(st).__name__, st)
            return
        m(st)

    def st_Expr(self, st):
        self.ev(st.value)

    def st_Pass(self, st):
        pass

    def st_Global(self, st):
        pass

    st_Nonlocal = st_Global

    def st_Assign(self, st):
        v = self.ev(st.value)
        for t in st.targets:
            self.assign(t, v)

    def st_AnnAssign(self, st):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value))

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t, v)
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value)
            self.setattr(base, t.attr, v, t)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value)
            self.setitem(base, self.ev(t.slice), v, t)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)

    def unpack(self, t, v):
        n = len(t.elts)
        items = self.known_items(v)
        if items is None and (isinstance(self.obj(v), GenO) or isinstance(v, IterD) or (
                self.inst(v) is not None and self.inst(v).origin is None
                and self.repo.find_method(self.inst(v).ci, "__iter__"))):
            items = self.collect(v, t)
        stars = [k for k, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
        if items is not None:
            if stars:
                k = stars[0]
                tail = n - k - 1
                if len(items) < n - 1:
                    raise PyRaise("ValueError", None, t, implicit=True)
                mid = items[k:len(items) - tail]
                items = items[:k] + [self.alloc(ListO(list(mid)))] + (
                    items[len(items) - tail:] if tail else [])
            if len(items) != n:
                self.emit("unpackerror", t)
                raise PyRaise("ValueError", None, t, implicit=True)
            for e, x in zip(t.elts, items):
                self.assign(e, x)
            return
        if isinstance(v, Const):
            self.emit("unpackerror", t)
            raise PyRaise("TypeError", v, t, implicit=True)
        o = self.obj(v)
        for k, e in enumerate(t.elts):
            if isinstance(o, (ListO, ArrO, NArr)):
                self.assign(e, self.getitem(v, Const(k), t))
            else:
                self.assign(e, Term("item", (self.T(v), Const(k))))

    def st_AugAssign(self, st):
        t = st.target
        if isinstance(t, ast.Name):
            old = self.lookup_name(t.id, t)
            self.store_name(t.id, self.aug(st, old, self.ev(st.value)))
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value)
            old = self.getattr(base, t.attr, t)
            new = self.aug(st, old, self.ev(st.value))
            self.setattr(base, t.attr, new, t)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value)
            key = self.ev(t.slice)
            old = self.getitem(base, key, t)
            new = self.aug(st, old, self.ev(st.value))
            self.setitem(base, key, new, t)

    IMETH = {"+": "__iadd__", "-": "__isub__", "*": "__imul__", "/": "__itruediv__"}

    def aug(self, st, old, val):
        o = self.obj(old)
        sym = self.BIN[type(st.op)][0]
        if isinstance(o, Inst):
            m = self.repo.find_method(o.ci, self.IMETH.get(sym, "?"))
            if m is not None:
                return self.call_fun(Fun(m, None, old), [val], {}, st)
        if isinstance(o, NArr):
            r = self.binop(st.op, old, val, st)
            if isinstance(self.obj(r), NArr):
                self.emit("arrset", st, ref=old, root=old, key=None, value=val,
                          how="aug" + sym, fresh=True)
                o.shape, o.items = self.obj(r).shape, self.obj(r).items
                return old
            return r
        if isinstance(o, ArrO):
            root = self.root_of(old)
            self.emit("arrset", st, ref=old, root=root, key=None, value=val,
                      how="aug" + sym, fresh=self.obj(root).origin is None)
            o.term = Term(sym, (o.term, self.T(val)))
            return old
        if isinstance(o, ListO) and sym == "+":
            self.list_method(old, o, "extend", [val], {}, st)
            return old
        if isinstance(o, DictO) and sym == "|":
            self.dict_method(old, o, "update", [val], {}, st)
            return old
        if isinstance(o, SetO) and sym in ("|", "-", "&"):
            r = self.binop(st.op, old, val, st)
            self.emit("mut", st, obj=self.T(old), ref=old, op="aug" + sym,
                      args=(val,), origin=o.origin)
            new = self.obj(r)
            if o.origin is None and isinstance(new, SetO) and new.origin is None:
                o.items = list(new.items)
                return old
            return r
        return self.binop(st.op, old, val, st)

    def st_Delete(self, st):
        for t in st.targets:
            if isinstance(t, ast.Name):
                self.env.vars.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                self.delattr(self.ev(t.value), t.attr, t)
            elif isinstance(t, ast.Subscript):
                base = self.ev(t.value)
                self.delitem(base, self.ev(t.slice), t)

    def st_If(self, st):
        if self.truth(self.ev(st.test), st.test):
            self.exec_block(st.body)
        else:
            self.exec_block(st.orelse)

    def st_For(self, st):
        it = self.ev(st.iter)

        def body(elem):
            self.assign(st.target, elem)
            try:
                self.exec_block(st.body)
            except ContinueX:
                pass
        try:
            self.iterate(it, body, st)
        except BreakX:
            return
        self.exec_block(st.orelse)

    def st_While(self, st):
        # A round that nothing had to be guessed for is a round of a
        # known number of rounds, and doesn't count
        n = counted = 0
        # The last time around may only be to find the end
        limit = self.cfg.max_while + isinstance(st.test, ast.Constant)
        # Where the test is in the body
        head = 0
        if isinstance(st.test, ast.Constant):
            head = 1 + next((k for k, x in enumerate(st.body) if leaves_loop(x)), -1)
        while True:
            pos = self.pos
            if not self.truth(self.ev(st.test), st.test):
                break
            if counted >= limit or n >= self.cfg.unroll:
                raise LoopCut()
            free = self.pos == pos and not isinstance(st.test, ast.Constant)
            n += 1
            self.emit("loopround", st, src=None, n=n - 1)
            try:
                if head:
                    self.exec_block(st.body[:head])
                    free = self.pos == pos
                self.exec_block(st.body[head:])
            except ContinueX:
                pass
            except BreakX:
                return
            if not free and self.pos != pos:
                counted += 1
        self.exec_block(st.orelse)

    def st_Break(self, st):
        raise BreakX()

    def st_Continue(self, st):
        raise ContinueX()

    def st_Return(self, st):
        v = NONE if st.value is None else self.ev(st.value)
        self.emit("returns", st, value=v)
        raise ReturnX(v)

    def st_Raise(self, st):
        if st.exc is None:
            cur = getattr(self, "current_exc", None)
            raise cur if cur is not None else PyRaise("Exception", None, st)
        v = self.ev(st.exc)
        name = "Exception"
        if isinstance(v, Term) and v.op == "exc":
            name = v.args[0]
        elif isinstance(v, Ext):
            name = v.path.split(".")[-1]
        elif isinstance(v, Cls):
            name = v.ci.name
        elif self.inst(v) is not None:
            name = self.inst(v).ci.name
        elif isinstance(v, Term) and v.op.startswith("ext:"):
            name = v.op.split(".")[-1]
        self.emit("raise", st, etype=name)
        raise PyRaise(name, v, st)

    def st_Assert(self, st):
        if not self.truth(self.ev(st.test), st.test):
            raise PyRaise("AssertionError", None, st)

    def st_FunctionDef(self, st):
        fi = self.repo.child(self.stack[-1], st)
        f = Fun(fi, self.env)
        f.defaults = self.eval_defaults(st.args)
        if fi.unknown_decorators:
            f = self.decorated(f, st) or f
        self.env.vars[st.name] = f

    def st_ClassDef(self, st):
        self.env.vars[st.name] = Cls(self.repo.local_class(self.stack[-1].module, st))

    def st_Import(self, st):
        for a in st.names:
            if a.asname:
                self.env.vars[a.asname] = Ext(a.name)
            else:
                root = a.name.split(".")[0]
                self.env.vars[root] = Ext(root)

    def st_ImportFrom(self, st):
        mod = self.stack[-1].module
        base = mod.resolve_from(st)
        for a in st.names:
            if a.name == "*":
                continue
            if base in self.repo.modules:
                v = self.global_name(self.repo.modules[base], a.name, st)
                full = base + "." + a.name
                if isinstance(v, Ext) and full in self.repo.modules:
                    v = ModV(self.repo.modules[full])
            else:
                v = Ext(base + "." + a.name)
            self.env.vars[a.asname or a.name] = v

    CATCH_ALL = {"Exception", "BaseException"}
    SUPER = {"KeyError": "LookupError", "IndexError": "LookupError",
             "UnboundLocalError": "NameError", "FileNotFoundError": "OSError",
             "IOError": "OSError"}

    def exception_names(self, e):
        """Names of the class of an exception and of its bases."""
        i = self.inst(e.value) if e.value is not None else None
        ci = i.ci if i is not None else e.value.ci if isinstance(e.value, Cls) else None
        out = {e.etype}
        for c in self.repo.mro(ci) if ci is not None else ():
            out.add(c.name)
            out.update(b.split(".")[-1] for b in c.bases)
        return out

    def handler_matches(self, h, e):
        if h.type is None:
            return True
        types = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        names = [ast.unparse(x).split(".")[-1] for x in types]
        mine = self.exception_names(e)
        for n in names:
            if n in self.CATCH_ALL or n in mine or any(
                    self.SUPER.get(x) == n or is_subclass(x, n) for x in mine):
                return True
        if e.etype in ("Exception", "Failure", "FirstError"):
            # Unknown kind: may or may not match
            return self.choose(2, h, lambda c: "exception %s %s" % (
                "is" if c == 0 else "is not", "/".join(names))) == 0
        return False

    def st_Try(self, st):
        try:
            try:
                self.exec_block(st.body)
            except PyRaise as e:
                for h in st.handlers:
                    if self.handler_matches(h, e):
                        self.emit("caught", h, etype=e.etype)
                        if h.name:
                            self.env.vars[h.name] = e.value if e.value is not None \
                                else Term("exc", (e.etype,))
                        saved = getattr(self, "current_exc", None)
                        self.current_exc = e
                        try:
                            self.exec_block(h.body)
                        finally:
                            self.current_exc = saved
                        break
                else:
                    raise
            else:
                self.exec_block(st.orelse)
        except (Infeasible, LoopCut):
            raise
        except (ReturnX, BreakX, ContinueX, PyRaise, Outward):
            self.exec_block(st.finalbody)
            raise
        self.exec_block(st.finalbody)

    st_TryStar = st_Try

    def st_With(self, st):
        self.with_items(st, list(st.items))

    def with_items(self, st, items):
        if not items:
            self.exec_block(st.body)
            return
        item = items.pop(0)
        v = self.ev(item.context_expr)
        self.emit("with", item.context_expr, value=v)
        o = self.obj(v)
        if isinstance(o, GenO) and getattr(o.fun, "fi", None) is not None:
            # A function decorated as a context manager
            def body(x):
                if item.optional_vars is not None:
                    self.assign(item.optional_vars, x)
                try:
                    self.with_items(st, items)
                except (ReturnX, BreakX, ContinueX) as e:
                    raise Outward(e)
            body.inside = True
            self.run_generator(o, body, st)
            self.emit("withexit", st, value=v, how="end")
            return
        bound, leave = v, None
        if isinstance(o, Inst):
            m = self.repo.find_method(o.ci, "__enter__")
            if m is not None:
                bound = self.call_fun(Fun(m, None, v), [], {}, st)
            leave = self.repo.find_method(o.ci, "__exit__")
        if item.optional_vars is not None:
            self.assign(item.optional_vars, bound)

        def exit(how, *args):
            r = FALSE
            if leave is not None:
                r = self.call_fun(Fun(leave, None, v), list(args) or [NONE, NONE, NONE], {}, st)
            self.emit("withexit", st, value=v, how=how)
            return r
        try:
            self.with_items(st, items)
        except PyRaise as e:
            kind = Ext("builtins." + e.etype)
            i = self.inst(e.value) if e.value is not None else None
            if i is not None:
                kind = Cls(i.ci)
            elif isinstance(e.value, Cls):
                kind = e.value
            r = exit("raise", kind, e.value if e.value is not None else Term("exc", (e.etype,)),
                     self.fresh("traceback"))
            if self.truth(r, st):
                return
            raise
        except (ReturnX, BreakX, ContinueX, Outward):
            exit("leave")
            raise
        exit("end")

    def st_Match(self, st):
        v = self.ev(st.subject)
        for case in st.cases:
            if self.matches(case.pattern, v) and (
                    case.guard is None or self.truth(self.ev(case.guard), case.guard)):
                self.exec_block(case.body)
                return

    def matches(self, p, v):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.eq(v, self.ev(p.value), p), p)
        if isinstance(p, ast.MatchSingleton):
            return self.truth(self.is_(v, Const(p.value)), p)
        if isinstance(p, ast.MatchOr):
            return any(self.matches(x, v) for x in p.patterns)
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.matches(p.pattern, v):
                return False
            if p.name is not None:
                self.store_name(p.name, v)
            return True
        if isinstance(p, ast.MatchSequence):
            items = self.seq_items(v)
            if items is not None and not any(isinstance(x, ast.MatchStar) for x in p.patterns):
                return len(items) == len(p.patterns) and all(
                    self.matches(x, y) for x, y in zip(p.patterns, items))
        self.unknown("pattern of a match statement", p)
        return self.choose(2, p, lambda c: "the pattern matches" if c == 0 else
                           "the pattern does not match") == 0


def describe_event(e):
    if e.kind == "user":
        return "call of %r" % (e.d["f"],)
    if e.kind in ("ext", "call"):
        return "call of %s" % e.d["f"]
    if e.kind == "np":
        return "call of np.%s" % e.d["f"]
    if e.kind == "mcall":
        return "call of .%s()" % e.d["name"]
    return e.kind


#: Functions that only format or log.
DEFAULT_OPAQUE_FUNCS = {
    "ade.util.sub": "pure",
    "ade.util.oops": "none",
}


_types_cache = {}


def infer_types(repo):
    """
    Types of attributes, from what the package assigns to them
    (self.x = Class(...), [], set(), {}, defer.DeferredLock() ...).
    """
    key = id(repo)
    if key in _types_cache:
        return _types_cache[key]
    out = {}

    def note(cname, attr, tp):
        k = (cname, attr)
        if k in out and out[k] != tp:
            if out[k] is not None and tp is not None and not (
                    out[k].split(":")[0] == tp.split(":")[0]):
                out[k] = None
            return
        out[k] = tp

    for fi in repo.all_functions():
        if fi.cls is None:
            continue
        for n in own_nodes(fi.node):
            if not isinstance(n, ast.Assign):
                continue
            for t in n.targets:
                if not (isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name)
                        and t.value.id in ("self", "cls")):
                    continue
                v = n.value
                if isinstance(v, ast.Call):
                    name = ast.unparse(v.func).split(".")[-1]
                    if name == "DeferredLock":
                        note(fi.cls.name, t.attr, "lock")
                    elif name == "DeferredTracker":
                        note(fi.cls.name, t.attr, "tracker")
                    elif name == "set":
                        note(fi.cls.name, t.attr, "set")
                    elif name in ("list",):
                        note(fi.cls.name, t.attr, "list")
                    elif repo.has_cls(name):
                        note(fi.cls.name, t.attr, name)
                elif isinstance(v, (ast.List, ast.ListComp)):
                    note(fi.cls.name, t.attr, "list")
                elif isinstance(v, ast.Dict):
                    note(fi.cls.name, t.attr, "dict")
                elif isinstance(v, ast.Set):
                    note(fi.cls.name, t.attr, "set")
    base = {
        ("DifferentialEvolution", "p"): "Population",
        ("Individual", "p"): "Population",
        ("Reporter", "p"): "Population",
        ("Reporter", "pm"): "ParameterManager",
        ("Population", "iList"): "list:Individual",
        ("Population", "dLocks"): "list:lock",
        ("Individual", "values"): "array",
        ("History", "X"): "array",
        ("ClosestPairFinder", "X"): "array",
        ("ParameterManager", "mins"): "array",
        ("ParameterManager", "maxs"): "array",
        ("ParameterManager", "scales"): "array",
        ("ParameterManager", "mids"): "array",
        ("Reporter", "iBest"): "Individual",
        ("Reporter", "iLastReported"): "Individual",
        ("KeyboardHolder", "KB"): "Keyboard",
        ("FManager", "F"): None,
        ("FManager", "scales"): None,
    }
    out.update(base)
    _types_cache.clear()
    _types_cache[key] = out
    return out


class Analysis:
    """The set of paths of one entry point."""

    def __init__(self, paths, cut, infeasible, partial=False):
        self.paths = paths
        self.partial = partial
        self.cut = cut
        self.infeasible = infeasible

    def __iter__(self):
        return iter(self.paths)

    def __len__(self):
        return len(self.paths)

    def stats(self):
        fns = set()
        for p in self.paths:
            for e in p.events:
                if e.kind == "enter" and not e.d.get("model"):
                    fns.add(e.d["f"])
        return {
            "paths": len(self.paths), "loop_cut": self.cut,
            "events": sum(len(p.events) for p in self.paths),
            "functions": sorted(fns),
        }


STARTED = time.time()


def explore(repo, cfg, driver):
    """
    Analyses every abstract path of driver(it), a function that builds
    the initial abstract state and makes the call to be analysed.
    """
    paths = []
    n = {"cut": 0, "infeasible": 0}

    def follow(script, rng=None):
        it = Interp(repo, cfg, script)
        it.rng = rng
        try:
            v = driver(it)
            paths.append(Path(it, "return", v))
        except ReturnX as r:
            paths.append(Path(it, "return", r.value))
        except PyRaise as e:
            paths.append(Path(it, "raise", e))
        except LoopCut:
            n["cut"] += 1
        except Infeasible:
            n["infeasible"] += 1
        for c in it.coroutines:
            c.close()
        del script[it.pos:]

    script = []
    t0 = time.time()
    seconds = cfg.max_seconds if t0 - STARTED < 400 else 5
    while True:
        follow(script)
        while script and script[-1][0] >= script[-1][1] - 1:
            script.pop()
        if not script:
            return Analysis(paths, n["cut"], n["infeasible"])
        script[-1][0] += 1
        if len(paths) + n["cut"] + n["infeasible"] > cfg.max_paths or \
                time.time() - t0 > seconds:
            break
    # More paths than can be gone through one by one: those gone through
    # are all from one corner, so add some from everywhere
    rng = random.Random(int(os.environ.get("VERIF_SEED", "1") or 1))
    t0 = time.time()
    for _ in range(cfg.max_paths):
        follow([], rng)
        if time.time() - t0 > seconds:
            break
    return Analysis(paths, n["cut"], n["infeasible"], partial=True)


from . import narr  # noqa: E402  (needs the above)
