"""
What the libraries do that put objects into files and get them back: pickle,
numpy.save, the compressing file types, given by what comes back.
"""

import re

from .absint import (ArrO, Cls, Const, DefO, DictO, Ext, Fun, GenO, Inst, ListO, LockO, NArr, NONE,
                     PyRaise, Ref, SetO, Slice, Term, TrackO, Tup)
from . import narr
from .files_model import PURE, text
from .source import AnalysisBroken
from .user_model import user_class

HANDLE = '''
import vault

class Handle(object):
    def __init__(self, path, mode, kind, chunks=None):
        self.path, self.mode, self.kind = path, mode, kind
        self.at, self.closed = 0, False
        if chunks is not None:
            self.chunks = chunks
        elif "r" in mode or "a" in mode:
            self.chunks = vault.get(path, kind, "a" in mode)
        else:
            self.chunks = []
            vault.put(path, kind, self.chunks)
    def usable(self, writing):
        if self.closed:
            raise ValueError("I/O operation on closed file")
        if self.path is not None and "+" not in self.mode and writing != ("r" not in self.mode):
            raise OSError("not readable or not writable")
    def write(self, x):
        self.usable(True)
        vault.kind(self.mode, x)
        self.chunks.append(x)
        if self.path is not None:
            vault.put(self.path, self.kind, self.chunks)
        return 1
    def writelines(self, xs):
        for x in xs: self.write(x)
    def next_one(self):
        self.usable(False)
        if self.at >= len(self.chunks):
            raise EOFError("Ran out of input")
        x = self.chunks[self.at]
        self.at += 1
        return x
    def read(self, size=-1):
        self.usable(False)
        xs = self.chunks[self.at:]
        self.at = len(self.chunks)
        return vault.join(xs)
    def getvalue(self):
        if self.closed:
            raise ValueError("I/O operation on closed file")
        return vault.join(self.chunks)
    def getbuffer(self): return self.getvalue()
    def seek(self, at, whence=0):
        self.at = len(self.chunks) if whence == 2 else at
        return self.at
    def tell(self): return self.at
    def flush(self): pass
    def close(self): self.closed = True
    def readable(self): return "r" in self.mode
    def writable(self): return "r" not in self.mode
    def __enter__(self): return self
    def __exit__(self, *args): self.close()
'''

EMPTY = Const(b"")


class Vault:
    """The files there are: path -> (kind, chunks)."""

    def __init__(self, it, unpicklable=()):
        self.files = {}
        self.unpicklable = set(unpicklable)
        self.tokens = []
        it.vault = self

    def token(self, kind, what):
        self.tokens.append(what)
        return Const(b"<%s %d>" % (kind.encode(), len(self.tokens) - 1))

    def content(self, t):
        return self.tokens[int(t.v.split()[1][:-1])]


def is_token(t, kind):
    return isinstance(t, Const) and isinstance(t.v, bytes) and bool(
        re.fullmatch(b"<%s \\d+>" % kind.encode(), t.v))


def join(xs):
    return Const(b"".join(x.v for x in xs))


def parts(x):
    if not isinstance(x, Const) or not isinstance(x.v, bytes):
        raise AnalysisBroken("bytes that are not known")
    return [Const(y) for y in re.findall(b"<\\w+ \\d+>|[^<]+|<", x.v)]


# -- pickling ----------------------------------------------------------------------

SPECIAL = ("__reduce__", "__reduce_ex__", "__getnewargs__", "__getnewargs_ex__", "__copyreg__")


def freeze(it, v, seen, node):
    def go(x):
        return freeze(it, x, seen, node)

    def refuse(why="PicklingError"):
        raise PyRaise(why, None, node, implicit=True)
    if isinstance(v, Tup):
        return ("tup", [go(x) for x in v.items])
    if isinstance(v, Fun):
        if v.selfv is not None:
            return ("bound", v, go(v.selfv))
        if v.env is not None or v.fi.name == "<lambda>":
            refuse()
        return ("same", v)
    if isinstance(v, Ext):
        if v.path in it.vault.unpicklable:
            refuse()
        return ("same", v)
    if isinstance(v, Term) and v.op == "partial":
        return ("partial", [go(x) for x in v.args])
    if v in it.vault.unpicklable:
        refuse()
    if isinstance(v, (Const, Cls, Term, Slice)):
        return ("same", v)
    if not isinstance(v, Ref):
        raise AnalysisBroken("saving of %r" % (v,))
    if v.oid in seen:
        return ("again", v.oid)
    seen.add(v.oid)
    o = it.obj(v)
    if isinstance(o, ListO) and o.items is not None:
        return ("list", v.oid, [go(x) for x in o.items], o.maxlen)
    if isinstance(o, DictO) and o.origin is None:
        if isinstance(o.missing, Fun):
            go(o.missing)
        return ("dict", v.oid, [(go(k), go(x)) for k, x in list(o.items.items())], o.missing)
    if isinstance(o, SetO) and o.origin is None:
        return ("set", v.oid, [go(x) for x in o.items])
    if isinstance(o, NArr):
        return ("array", v.oid, o.shape, [go(x) for x in o.items], o.kind, o.width)
    if isinstance(o, LockO):
        return ("lock", v.oid, it.held.get(o.origin, 0))
    if isinstance(o, TrackO):
        return ("tracker", v.oid)
    if isinstance(o, (GenO, DefO)):
        refuse("TypeError")
    if isinstance(o, Inst):
        for name in SPECIAL:
            if it.repo.find_method(o.ci, name) is not None:
                raise AnalysisBroken("saving with " + name)
        if o.ci.name == "Handle":
            refuse("TypeError")
        if it.repo.find_method(o.ci, "__getstate__") is not None:
            state = it.call(it.getattr(v, "__getstate__"), [], {}, node)
            return ("inst", v.oid, o.ci, go(state))
        if o.origin is not None:
            raise AnalysisBroken("saving of an unknown " + o.ci.name)
        return ("inst", v.oid, o.ci, ("fields", [(k, go(x)) for k, x in list(o.fields.items())]))
    raise AnalysisBroken("saving of %r" % (o,))


def thaw(it, f, made, node):
    def go(x):
        return thaw(it, x, made, node)
    kind = f[0]
    if kind == "same":
        return f[1]
    if kind == "tup":
        return Tup([go(x) for x in f[1]])
    if kind == "partial":
        return Term("partial", [go(x) for x in f[1]])
    if kind == "bound":
        return it.getattr(go(f[2]), f[1].fi.name)
    if kind == "again":
        return made[f[1]]
    oid = f[1]
    if kind == "list":
        o = ListO([])
        o.maxlen = f[3]
        ref = made[oid] = it.alloc(o)
        for x in f[2]:
            o.items.append(go(x))
        return ref
    if kind == "dict":
        o = DictO({})
        o.missing = f[3]
        ref = made[oid] = it.alloc(o)
        for k, x in f[2]:
            k = go(k)
            o.items[k] = go(x)
        return ref
    if kind == "set":
        o = SetO([])
        ref = made[oid] = it.alloc(o)
        o.items.extend(go(x) for x in f[2])
        return ref
    if kind == "array":
        o = NArr(f[2], [], None, f[4])
        ref = made[oid] = it.alloc(o)
        o.own, o.width = [go(x) for x in f[3]], f[5]
        return ref
    if kind == "lock":
        o = LockO(it.fresh("newlock"), free=True)
        if f[2]:
            it.held[o.origin] = f[2]
        made[oid] = it.alloc(o)
        return made[oid]
    if kind == "tracker":
        made[oid] = it.alloc(TrackO(it.fresh("newtracker")))
        return made[oid]
    assert kind == "inst"
    o = Inst(f[2])
    ref = made[oid] = it.alloc(o)
    if f[3][0] == "fields":
        for k, x in f[3][1]:
            o.fields[k] = go(x)
        return ref
    state = go(f[3])
    if it.repo.find_method(o.ci, "__setstate__") is not None:
        it.call(it.getattr(ref, "__setstate__"), [state], {}, node)
        return ref
    d = it.obj(state)
    if isinstance(d, DictO):
        for k, x in d.items.items():
            o.fields[k.v] = x
    elif state != NONE:
        raise AnalysisBroken("state of unknown kind")
    return ref


def dumps(it, v, node):
    return it.vault.token("pickled", freeze(it, v, set(), node))


def loads(it, t, node):
    t = parts(t)[0] if parts(t) else EMPTY
    if t == EMPTY:
        raise PyRaise("EOFError", None, node, implicit=True)
    if not is_token(t, "pickled"):
        raise PyRaise("UnpicklingError", None, node, implicit=True)
    return thaw(it, it.vault.content(t), {}, node)


# -- arrays ------------------------------------------------------------------------

def array_bytes(it, v, node):
    o = narr.as_arr(it, v)
    if o is None:
        raise AnalysisBroken("saving of an array that is not known")
    return it.vault.token("array", (o.shape, list(o.items), o.kind, o.width))


def array_of(it, t, node):
    t = parts(t)[0] if parts(t) else EMPTY
    if t == EMPTY:
        raise PyRaise("EOFError", None, node, implicit=True)
    if not is_token(t, "array"):
        raise PyRaise("ValueError", None, node, implicit=True)
    shape, items, kind, width = it.vault.content(t)
    o = NArr(shape, list(items), None, kind)
    o.width = width
    return it.alloc(o)


# -- the functions -----------------------------------------------------------------

def pack(kind):
    def f(it, args, kw, node):
        return it.vault.token("packed", (kind, args[0]))
    return f


def unpack(kind):
    def f(it, args, kw, node):
        return unpacked(it, kind, args[0], node)
    return f


def unpacked(it, kind, t, node):
    if not is_token(t, "packed") or it.vault.content(t)[0] != kind:
        raise PyRaise("OSError", None, node, implicit=True)
    return it.vault.content(t)[1]


def ext(shorten=True):
    cls = user_class(HANDLE, "Handle")
    out = {}

    def pure(f):
        def run(it, args, kw, node):
            p = [text(it, x) for x in args]
            if kw or None in p:
                raise AnalysisBroken("a path that is not known")
            return it.from_literal(f(*p))
        return run
    for name, f in PURE.items():
        out[name] = pure(f)

    def exists(it, args, kw, node):
        return Const(text(it, args[0]) in it.vault.files)
    for name in ("exists", "isfile", "lexists"):
        out["os.path." + name] = exists
    out["os.path.isdir"] = lambda it, args, kw, node: Const(False)

    def move(it, args, kw, node):
        a, b = text(it, args[0]), text(it, args[1])
        if a not in it.vault.files:
            raise PyRaise("FileNotFoundError", None, node, implicit=True)
        it.vault.files[b] = it.vault.files.pop(a)
        return NONE
    for name in ("os.rename", "os.replace", "shutil.move"):
        out[name] = move

    def remove(it, args, kw, node):
        if it.vault.files.pop(text(it, args[0]), None) is None:
            raise PyRaise("FileNotFoundError", None, node, implicit=True)
        return NONE
    out["os.remove"] = out["os.unlink"] = remove

    def get(it, args, kw, node):
        path, kind = text(it, args[0]), args[1].v
        if path not in it.vault.files:
            if it.truth_const(args[2]):
                return it.alloc(ListO([]))
            raise PyRaise("FileNotFoundError", None, node, implicit=True)
        was, chunks = it.vault.files[path]
        if was == kind:
            return it.alloc(ListO(list(chunks)))
        if was == "raw":
            return it.alloc(ListO(parts(unpacked(it, kind, join(chunks), node))))
        if kind == "raw":
            return it.alloc(ListO([it.vault.token("packed", (was, join(chunks)))]))
        raise PyRaise("OSError", None, node, implicit=True)
    out["vault.get"] = get

    def put(it, args, kw, node):
        it.vault.files[text(it, args[0])] = args[1].v, list(it.obj(args[2]).items)
        return NONE
    out["vault.put"] = put
    out["vault.join"] = lambda it, args, kw, node: join(it.obj(args[0]).items)

    def kind(it, args, kw, node):
        if not isinstance(args[1], Const):
            raise AnalysisBroken("something unknown is written")
        binary = isinstance(args[1].v, bytes)
        if binary == ("t" in args[0].v):
            raise PyRaise("TypeError", None, node, implicit=True)
        return NONE
    out["vault.kind"] = kind

    def opener(kind, plain):
        def f(it, args, kw, node):
            args = list(args)
            name = args[0] if args else kw.get("filename", kw.get("file"))
            mode = args[1] if len(args) > 1 else kw.get("mode", Const("r"))
            if not isinstance(mode, Const):
                raise AnalysisBroken("a file opened in an unknown way")
            mode = mode.v.replace("U", "")
            if plain and "b" not in mode:
                mode += "t"          # text, unless said otherwise
            if it.inst(name) is not None and it.repo.find_method(it.inst(name).ci, "next_one"):
                # On top of another file
                raise AnalysisBroken("a file in a file")
            if text(it, name) is None:
                raise AnalysisBroken("a file of unknown name")
            if "x" in mode and text(it, name) in it.vault.files:
                raise PyRaise("FileExistsError", None, node, implicit=True)
            return it.call(cls, [Const(text(it, name)), Const(mode), Const(kind)], {}, node)
        return f
    for mod, names in (("bz2", ("BZ2File", "open")), ("gzip", ("GzipFile", "open")),
                       ("lzma", ("LZMAFile", "open"))):
        for name in names:
            out["%s.%s" % (mod, name)] = opener(mod, False)
        out[mod + ".compress"] = pack(mod)
        out[mod + ".decompress"] = unpack(mod)
    out["zlib.compress"], out["zlib.decompress"] = pack("zlib"), unpack("zlib")
    out["builtins.open"] = out["io.open"] = out["open"] = opener("raw", True)

    def buffer(it, args, kw, node):
        chunks = parts(args[0]) if args else []
        return it.call(cls, [NONE, Const("w+b"), Const("memory"), it.alloc(ListO(chunks))], {},
                       node)
    out["io.BytesIO"] = buffer

    def dump(it, args, kw, node):
        it.call(it.getattr(args[1] if len(args) > 1 else kw["file"], "write"),
                [dumps(it, args[0], node)], {}, node)
        return NONE

    def load(it, args, kw, node):
        fh = args[0] if args else kw["file"]
        if "t" in it.getattr(fh, "mode").v:
            raise PyRaise("TypeError", None, node, implicit=True)
        return loads(it, it.call(it.getattr(fh, "next_one"), [], {}, node), node)
    for mod in ("pickle", "cPickle", "_pickle", "dill", "cloudpickle"):
        out[mod + ".dump"] = dump
        out[mod + ".load"] = load
        out[mod + ".dumps"] = lambda it, args, kw, node: dumps(it, args[0], node)
        out[mod + ".loads"] = lambda it, args, kw, node: loads(it, args[0], node)
        out[mod + ".HIGHEST_PROTOCOL"] = lambda it, args, kw, node: Const(5)

    def save(it, args, kw, node):
        fh = args[0]
        t = array_bytes(it, args[1], node)
        if text(it, fh) is not None:
            p = text(it, fh)
            it.vault.files[p if p.endswith(".npy") else p + ".npy"] = "raw", [t]
        else:
            it.call(it.getattr(fh, "write"), [t], {}, node)
        return NONE

    def read(it, args, kw, node):
        fh = args[0]
        if text(it, fh) is not None:
            if text(it, fh) not in it.vault.files:
                raise PyRaise("FileNotFoundError", None, node, implicit=True)
            return array_of(it, join(it.vault.files[text(it, fh)][1]), node)
        return array_of(it, it.call(it.getattr(fh, "next_one"), [], {}, node), node)
    out["numpy.save"], out["numpy.load"] = save, read
    return out
