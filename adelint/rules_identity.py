"""
The identity of an individual (C20).
"""

import hashlib
import zlib

from . import narr, saved_model
from .absint import Cls, Const, Ext, ListO, NONE, PyRaise, Ref, Term, Tup
from .core import check
from .hist_model import Hist
from .intervals import INF
from .rules_history import failure
from .rules_run import where
from .source import AnalysisBroken
from .user_model import user_class

C20 = {
    "same": "individuals with equal SSE and equal values have the same identity, whatever the "
            "types of the numbers",
    "process": "the identity is made of the SSE and the values by functions that give the same in "
               "every process",
    "every-SSE": "there is an identity for every SSE",
    "distinct": "it depends on the SSE and on every value",
    "kept": "the identity is the same after saving and loading",
    "found": "the history finds the record of a member that was saved and loaded with it",
}

DIGEST = '''
import hashing

class Digest(object):
    def __init__(self, name, data):
        self.name, self.data = name, data
    def update(self, data): self.data = hashing.both(self.data, data)
    def digest(self): return hashing.digest(self.name, self.data, False)
    def hexdigest(self): return hashing.digest(self.name, self.data, True)
    def copy(self): return Digest(self.name, self.data)
'''
#: what differs from one process to another
VARIES = ("salted", "hash", "id", "ext:os.getpid", "ext:time.", "ext:random.", "ext:numpy.random",
          "ext:uuid.", "ext:os.urandom", "ext:secrets.", "rnd", "random", "ext:builtins.id",
          "ext:builtins.hash", "ext:socket.", "ext:threading.", "ext:datetime.", "ext:sys.",
          "ext:builtins.object.", "address")


def ext():
    cls = user_class(DIGEST, "Digest")
    out = {}

    def known(v):
        return isinstance(v, Const) and isinstance(v.v, bytes)

    def maker(name):
        def f(it, args, kw, node):
            data = args[0] if args else kw.get("data", kw.get("string", Const(b"")))
            if isinstance(data, Const) and not isinstance(data.v, bytes):
                raise PyRaise("TypeError", None, node, implicit=True)
            o = it.obj(data)
            if o is not None:
                if not hasattr(o, "shape"):
                    raise PyRaise("TypeError", None, node, implicit=True)
                data = narr.as_bytes(it, o)
            return it.call(cls, [Const(name), data], {}, node)
        return f
    for name in ("md5", "sha1", "sha224", "sha256", "sha384", "sha512", "blake2b", "blake2s"):
        out["hashlib." + name] = maker(name)
    out["hashlib.new"] = lambda it, args, kw, node: maker(args[0].v)(it, args[1:], kw, node)

    def digest(it, args, kw, node):
        name, data, text = args[0].v, args[1], args[2].v
        if known(data):
            h = hashlib.new(name, data.v)
            return Const(h.hexdigest() if text else h.digest())
        return Term("digest", (args[0], it.T(data)))
    out["hashing.digest"] = digest

    def both(it, args, kw, node):
        if known(args[0]) and known(args[1]):
            return Const(args[0].v + args[1].v)
        return Term("joined", tuple(it.T(x) for x in args))
    out["hashing.both"] = both

    def summed(f, name):
        def run(it, args, kw, node):
            o = it.obj(args[0])
            data = narr.as_bytes(it, o) if hasattr(o, "shape") else args[0]
            if known(data) and all(isinstance(x, Const) for x in args[1:]):
                return Const(f(data.v, *[x.v for x in args[1:]]))
            return Term("digest", (Const(name),) + tuple(it.T(x) for x in args))
        return run
    for mod in ("zlib", "binascii"):
        out[mod + ".crc32"] = summed(zlib.crc32, "crc32")
    out["zlib.adler32"] = summed(zlib.adler32, "adler32")

    def from_bytes(it, args, kw, node):
        order = args[1] if len(args) > 1 else kw.get("byteorder", Const("big"))
        if known(args[0]) and isinstance(order, Const):
            return Const(int.from_bytes(args[0].v, order.v))
        return Term("from_bytes", tuple(it.T(x) for x in args))
    out["builtins.int.from_bytes"] = from_bytes

    def built_in(it, args, kw, node):
        """hash(): only numbers hash the same in every process."""
        v = args[0]
        i = it.inst(v)
        if i is not None:
            if it.repo.find_method(i.ci, "__hash__") is None:
                return Term("address", (it.T(v),))
            return it.call(it.getattr(v, "__hash__"), [], {}, node)
        if isinstance(v, Ref):
            raise PyRaise("TypeError", None, node, implicit=True)

        def number(x):
            return isinstance(x, Const) and isinstance(x.v, (int, float)) or isinstance(
                x, Tup) and all(number(y) for y in x.items)

        def plain(x):
            return tuple(plain(y) for y in x.items) if isinstance(x, Tup) else x.v
        if number(v):
            return Const(hash(plain(v)))
        t = it.T(v)
        if isinstance(v, Tup) and part(v, lambda x: isinstance(x, Const) and not isinstance(
                x.v, (int, float))) is not None:
            return Term("salted", (t,))
        if isinstance(v, Tup) or isinstance(v, Term) and v.op in ("sym", "value", "float", "tuple"):
            if not varying(t):
                return Term("numhash", (t,))
        return Term("salted", (t,))
    out["builtins.hash"] = built_in
    return out


def varying(t):
    """The part of a term that is another one in another process, if any."""
    if isinstance(t, Const) and isinstance(t.v, (str, bytes)) or t == NONE:
        return t
    return part(t, lambda x: isinstance(x, Term) and any(
        x.op == v or v.endswith(".") and x.op.startswith(v) or x.op.startswith(v + "(")
        for v in VARIES))


def part(t, f):
    todo = [t]
    while todo:
        x = todo.pop()
        if f(x):
            return x
        if isinstance(x, Term):
            todo.extend(x.args)
        elif isinstance(x, Tup):
            todo.extend(x.items)
        elif isinstance(x, tuple):
            todo.extend(x)
    return None


class Numbers:
    """Arrays of numbers of some type."""

    def __init__(self, name, convert=float, width=8, kind=None):
        self.name, self.convert, self.width, self.kind = name, convert, width, kind

    def array(self, it, xs):
        v = narr.make(it, (len(xs),), [Const(self.convert(x)) for x in xs], self.kind)
        o = it.obj(v)
        o.width, o.real = self.width, self.convert is float
        return v


FLOATS = Numbers("floats")
SINGLE = Numbers("single-precision floats", width=4)
INTS = Numbers("integers", int, kind="i")

#: (SSE, values, type of the values): those of a group are equal
GROUPS = [
    [(5, (1, 2), INTS), (5.0, (1, 2), FLOATS), (5, (1, 2), FLOATS), (5.0, (1, 2), INTS),
     (5.0, (1, 2), SINGLE), (5, (1, 2), SINGLE)],
    [(5.0, (0.5, 0.25), FLOATS), (5, (0.5, 0.25), SINGLE), (5, (0.5, 0.25), FLOATS)],
    [(0.0, (0.5, 0.25), FLOATS), (0, (0.5, 0.25), FLOATS), (-0.0, (0.5, 0.25), FLOATS),
     (False, (0.5, 0.25), SINGLE)],
    [(5.0, (0.0, 0.25), FLOATS), (5.0, (-0.0, 0.25), FLOATS), (5, (0.0, 0.25), SINGLE),
     (5, (-0.0, 0.25), SINGLE)],
    [(1.0, (0.0, 0.0), FLOATS), (True, (0, 0), INTS), (1, (-0.0, -0.0), FLOATS)],
    [(5.25, (0.5, 0.25), FLOATS)],
    [(5.0, (0.25, 0.5), FLOATS)],
    [(5.0, (0.5, 0.75), FLOATS)],
    [(5.0, (-0.5, 0.25), FLOATS)],
    [(0.5, (5.0, 0.25), FLOATS)],
    [(INF, (0.5, 0.25), FLOATS), (None, (0.5, 0.25), FLOATS), (-1, (0.5, 0.25), FLOATS),
     (-2.0, (0.5, 0.25), FLOATS)],
    [(INF, (0.5, 0.75), FLOATS), (None, (0.5, 0.75), SINGLE)],
    [(1e300, (0.5, 0.25), FLOATS)],
    [(10 ** 30, (0.5, 0.25), FLOATS), (1e30, (0.5, 0.25), FLOATS)],
    [(2 ** 40, (1, 2), INTS), (float(2 ** 40), (1, 2), FLOATS)],
    [(1e-300, (0.5, 0.25), FLOATS)],
    [(5.0, (1e12, -1e12), FLOATS), (5, (10 ** 12, -10 ** 12), INTS)],
    [(5.0, (0.5,), FLOATS)],
    [(5.0, (0.5, 0.25, 0.0), FLOATS)],
]


def population(it, n):
    it.pop = it.sym_inst("Population", "p")
    it.inst(it.pop).fields["Nd"] = Const(n)


def individual(it, sse, values):
    i = it.call(Cls(it.repo.cls("Individual")), [it.pop, values], {}, None)
    it.setattr(i, "SSE", sse, None)
    return i


def identity(it, i):
    return it.call_ext(Ext("builtins.hash"), [i], {}, None)


def told(sse, values, numbers):
    return "SSE %r and values %s (%s)" % (sse, values, numbers.name)


@check("C20", C20)
def c20(ctx):
    here = where(ctx.repo.method("Individual", "__hash__"))
    ex = ext()
    ex.update(saved_model.ext())
    hm = Hist(ctx, opaque={"Individual.__hash__": None}, ext=ex)
    hm.cfg.opaque = {k: v for k, v in hm.cfg.opaque.items() if v is not None}
    constants(ctx, hm, here)
    unknown(ctx, hm, here)
    records(ctx, hm, here)


def constants(ctx, hm, here):
    """Known numbers of all types."""
    found = {}
    for g, group in enumerate(GROUPS):
        for sse, values, numbers in group:
            name = told(sse, values, numbers)

            def driver(it):
                saved_model.Vault(it)
                population(it, len(values))
                i = individual(it, Const(sse), numbers.array(it, values))
                it.v = identity(it, i)
                it.again = identity(it, i)
                j = saved_model.loads(it, saved_model.dumps(it, i, None), None)
                it.loaded = identity(it, j)
                return NONE
            for p in hm.explore(name, driver).paths:
                it = p.it
                if p.outcome != "return":
                    ctx.ob("every-SSE", name, False, here, "there is no identity for %s: %s" % (
                        name, failure(p)), p)
                    continue
                why = None if isinstance(it.v, Const) else varying(it.T(it.v))
                if why is None and not isinstance(it.v, Const):
                    raise AnalysisBroken("an identity that is not known: %r" % (it.v,))
                ctx.ob("process", name, why is None and it.v == it.again, here,
                       "the identity is another one in another process: %s" % (why,), p)
                if why is not None:
                    continue
                ctx.ob("every-SSE", name, isinstance(it.v.v, int), here,
                       "the identity of %s is no number" % name, p)
                ctx.ob("kept", name, it.v == it.loaded, here, "the identity of %s is another one "
                       "after saving and loading" % name, p)
                found.setdefault(g, {})[name] = it.v
    for g, ids in found.items():
        first = next(iter(ids))
        for name, v in ids.items():
            ctx.ob("same", name, v == ids[first], here, "%s has another identity than %s" % (
                name, first))
        for h, others in found.items():
            if h < g:
                a, b = next(iter(ids)), next(iter(others))
                ctx.ob("distinct", a, ids[a] != others[b], here, "%s has the identity of %s" % (
                    a, b))


def unknown(ctx, hm, here):
    """Numbers that are not known: what the identity is made of."""
    sse = Term("sym", ("SSE",))
    vals = [Term("value", ("i", k)) for k in range(3)]

    def driver(it):
        population(it, 3)
        it.ranges[sse] = (1.0, 2.0)
        for v in vals:
            it.ranges[v] = (0.5, 1.0)
        i = individual(it, sse, narr.make(it, (3,), list(vals)))
        it.v = it.T(identity(it, i))
        return NONE
    for p in hm.explore("unknown numbers", driver).paths:
        if p.outcome != "return":
            ctx.ob("every-SSE", "unknown numbers", False, here, "there is no identity: %s" % (
                failure(p),), p)
            continue
        t = p.it.v
        why = varying(t)
        ctx.ob("process", "unknown numbers", why is None, here,
               "the identity is another one in another process: %s" % (why,), p)
        for x in [sse] + vals:
            ctx.ob("distinct", "unknown numbers", why is not None or part(t, lambda y: y == x)
                   is not None, here, "the identity does not depend on %r" % (x,), p)


def records(ctx, hm, here):
    """A history with real identities, saved and loaded with its members."""
    rows = ((5.0, (0.5, 0.25)), (7, (1, 2)), (6.0, (-0.0, 0.75)))

    def driver(it):
        saved_model.Vault(it)
        population(it, 2)
        names = it.alloc(ListO([Const("a"), Const("b")]))
        h = it.call(Cls(it.repo.cls("History")), [names], {"N_max": Const(3)}, None)
        members = []
        for sse, values in rows:
            i = individual(it, Const(sse), FLOATS.array(it, values))
            it.call(it.getattr(h, "add"), [i], {}, None)
            members.append(i)
        both = saved_model.loads(it, saved_model.dumps(it, Tup([h] + members), None), None)
        h, members = both.items[0], list(both.items[1:])
        for m in members:
            it.setattr(m, "p", it.pop, None)
        it.before = listed(it, h)
        it.call(it.getattr(h, "notInPop"), [members[it.which]], {}, None)
        i = individual(it, Const(1.0), FLOATS.array(it, (0.125, 0.375)))
        it.call(it.getattr(h, "add"), [i], {}, None)
        it.after = listed(it, h)
        return NONE
    for which in range(len(rows)):
        def one(it):
            it.which = which
            return driver(it)
        name = "member %d of %d leaves" % (which + 1, len(rows))
        for p in hm.explore(name, one).paths:
            if p.outcome != "return":
                ctx.ob("found", name, False, here, "the loaded history cannot be used: %s" % (
                    failure(p),), p)
                continue
            gone = [r for r in p.it.before if r not in p.it.after]
            ctx.ob("found", name, len(p.it.before) == 3 and [r[0] for r in gone] == [
                float(rows[which][0])], here, "when a loaded member leaves and another one comes, "
                "the records %s are given up" % (gone,), p)


def listed(it, h):
    out = []
    for k in range(it.bi_len([h], {}, None).v):
        out.append([float(x.v) if isinstance(x, Const) else x for x in it.known_items(
            it.getitem(h, Const(k)))])
    return out
