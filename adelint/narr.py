"""
Arrays of known shape with known entries (numbers or terms for them).
Entries are compared through the analysis' facts and intervals.
"""

import ast
import struct

from . import numpy_model
from .absint import (ArrO, Cls, Const, DictO, Ext, FALSE, FOLDED_MORE, Fun, IterD, ListO, NArr, NONE,
                     PyRaise, Ref, SetO, Slice, Term, Tup, TRUE)

ELEMENTWISE = {"isnan", "isinf", "isfinite", "abs", "absolute", "fabs", "square", "sqrt", "exp",
               "log", "log10", "floor", "ceil", "round", "around", "rint", "negative", "sign",
               "float64", "float32", "trunc", "fix", "tan", "sin", "cos", "log2", "log1p", "expm1",
               "positive", "reciprocal", "cbrt", "deg2rad", "radians", "int64", "int32", "int_"}
BINARY = {"add": ast.Add(), "subtract": ast.Sub(), "multiply": ast.Mult(), "divide": ast.Div(),
          "true_divide": ast.Div(), "power": ast.Pow()}
COMPARE = {"less": ast.Lt(), "less_equal": ast.LtE(), "greater": ast.Gt(),
           "greater_equal": ast.GtE(), "equal": ast.Eq(), "not_equal": ast.NotEq()}
DUNDER = {"__add__": ast.Add(), "__sub__": ast.Sub(), "__mul__": ast.Mult(),
          "__truediv__": ast.Div(), "__pow__": ast.Pow()}
REDUCE = {"sum", "mean", "var", "std", "prod", "median"}


def size(shape):
    n = 1
    for k in shape:
        n *= k
    return n


def make(it, shape, items, kind=None):
    shape = tuple(shape)
    assert size(shape) == len(items), (shape, len(items))
    if kind is not None:
        items = [convert(it, x, kind) for x in items]
    o = NArr(shape, list(items), None, kind if kind in ("i", "b") else None)
    o.real = kind == "f"
    return it.alloc(o)


KINDS = {"float": "f", "double": "f", "f": "f", "d": "f", "int": "i", "i": "i", "uint": "i",
         "intp": "i", "bool": "b", "bool_": "b", "?": "b", "b": "b", "float_": "f", "int_": "i",
         "longlong": "i"}


def kind_of(it, v):
    """"f", "i" or "b" for a dtype, None for others."""
    name = v.path.rsplit(".", 1)[-1] if isinstance(v, Ext) else v.v if isinstance(
        v, Const) and isinstance(v.v, str) else None
    return None if name is None else KINDS.get(name, KINDS.get(name.rstrip("0123456789")))


def convert(it, x, kind):
    """An entry as one of an array of that kind."""
    if isinstance(x, Const):
        if not isinstance(x.v, (int, float)) or kind == "i" and x.v - x.v != 0:
            return x
        return Const({"f": float, "i": int, "b": bool}[kind](x.v))
    if kind == "b":
        return x if is_bool(x) else Const(it.truth(x))
    if is_bool(x):
        return Const((float if kind == "f" else int)(it.truth(x)))
    return Term("int", (it.T(x),)) if kind == "i" else x


def width_of(v):
    """The bytes of the entries of an array of small floating-point numbers."""
    name = v.path.rsplit(".", 1)[-1] if isinstance(v, Ext) else v.v if isinstance(
        v, Const) and isinstance(v.v, str) else ""
    return {"f2": 2, "float16": 2, "half": 2, "e": 2, "f4": 4, "float32": 4, "single": 4,
            "f": 4}.get(name.lstrip("<>=|"))


def narrowed(it, o, dtype, kind):
    """A copy of an array as one of the given type."""
    items, width = o.items, width_of(dtype)
    if it.rounding is not None and dtype != NONE:
        items = it.rounding(it, dtype, items, width is not None and width < o.width)
    a = make(it, o.shape, items, kind)
    it.obj(a).width = width or (8 if dtype != NONE else o.width)
    return a


def unwrap(v):
    """A plain number for a 0-dimensional result."""
    return v


def as_arr(it, v):
    """The NArr that a sequence of known content amounts to, or None."""
    o = it.obj(v)
    if isinstance(o, NArr):
        return o
    if isinstance(o, (SetO, DictO, ArrO)):
        return None
    if isinstance(v, IterD) and v.kind != "range":
        return None
    items = it.known_items(v)
    if items is None:
        return None
    subs = []
    for x in items:
        if isinstance(it.obj(x), (ListO, NArr)) or isinstance(x, Tup):
            subs.append(as_arr(it, x))
        elif isinstance(it.obj(x), ArrO):
            return None
        else:
            subs.append(False)
    if items and all(subs) and all(s is not None for s in subs):
        if len({s.shape for s in subs}) != 1:
            return None
        return NArr((len(items),) + subs[0].shape, [y for s in subs for y in s.items])
    if any(s is not False for s in subs):
        return None
    return NArr((len(items),), list(items))


def shape_of(it, v):
    """A shape given as a number or a sequence of numbers."""
    if isinstance(v, Const) and isinstance(v.v, int):
        return (v.v,)
    items = it.known_items(v)
    if items is not None and all(isinstance(x, Const) and isinstance(x.v, int) for x in items):
        return tuple(x.v for x in items)
    return None


def number(it, v):
    """The int that an index is, or None."""
    if isinstance(v, Const) and isinstance(v.v, (int, float)) and not isinstance(v.v, bool) \
       and v.v == int(v.v):
        return int(v.v)
    if isinstance(v, Term) and v.op in ("int", "float") and len(v.args) == 1:
        return number(it, v.args[0])
    return None


def axis_index(it, key, n, node):
    """('int', k), ('list', [k...]) for a basic index, ('fancy', [k...], shape) or None."""
    if isinstance(key, Const) and isinstance(key.v, int) and not isinstance(key.v, bool):
        k = key.v
        if not -n <= k < n:
            it.emit("indexerror", node, obj=NONE)
            raise PyRaise("IndexError", None, node, implicit=True)
        return "int", k % n
    if isinstance(key, Const) and isinstance(key.v, float):
        raise PyRaise("IndexError", None, node, implicit=True)
    if isinstance(key, Slice):
        lo, hi, st = (it.const_int(x) for x in (key.lo, key.hi, key.step))
        if False in (lo is False, hi is False, st is False) and (
                lo is not False and hi is not False and st is not False):
            return "list", list(range(n))[slice(lo, hi, st)]
        return None
    o = it.obj(key)
    if isinstance(o, (NArr, ListO)) or isinstance(key, IterD):
        a = as_arr(it, key)
        if a is None:
            return None
        if a.items and all(is_bool(x) for x in a.items):
            if len(a.shape) == 1 and len(a.items) == n:
                return "fancy", [k for k in range(n) if it.truth(a.items[k], node)], None
            return None
        ks = [number(it, x) for x in a.items]
        if any(k is None for k in ks):
            return None
        for k in ks:
            if not -n <= k < n:
                it.emit("indexerror", node, obj=NONE)
                raise PyRaise("IndexError", None, node, implicit=True)
        return "fancy", [k % n for k in ks], a.shape
    return None


def is_bool(x):
    return (isinstance(x, Const) and isinstance(x.v, bool)) or (isinstance(x, Term) and x.op in (
        "lt", "le", "eq", "is", "in", "not", "bool", "np.isfinite", "np.isnan", "np.isinf",
        "and", "or"))


def is_none(k):
    return k == NONE or isinstance(k, Ext) and k.path == "numpy.newaxis"


def is_dots(k):
    return k == Term("ellipsis", ()) or isinstance(k, Const) and k.v is Ellipsis or isinstance(
        k, Ext) and k.path == "builtins.Ellipsis"


def resolve(it, a, key, node):
    """(shape, flat positions) that an index selects, or None if not known."""
    keys = list(key.items) if isinstance(key, Tup) else [key]
    if len(keys) == 1 and isinstance(it.obj(keys[0]), NArr):
        mask = it.obj(keys[0])
        if len(mask.shape) > 1 and mask.shape == a.shape and all(is_bool(x) for x in mask.items):
            at = [k for k, x in enumerate(mask.items) if it.truth(x, node)]
            return (len(at),), at
    real = sum(not is_none(k) and not is_dots(k) for k in keys)
    if real > len(a.shape):
        it.emit("indexerror", node, obj=NONE)
        raise PyRaise("IndexError", None, node, implicit=True)
    rest = [Slice(None, None, None)] * (len(a.shape) - real)
    dots = [j for j, k in enumerate(keys) if is_dots(k)]
    if dots:
        keys[dots[0]:dots[0] + 1] = rest
    else:
        keys += rest
    strides, s = [], 1
    for n in reversed(a.shape):
        strides.insert(0, s)
        s *= n
    ax, j = [], 0                   # (kind, offsets, shape)
    for k in keys:
        if is_none(k):
            ax.append(("list", [0], (1,)))
            continue
        r = axis_index(it, k, a.shape[j], node)
        if r is None:
            return None
        if r[0] == "int":
            ax.append(("int", [r[1] * strides[j]], ()))
        else:
            ax.append((r[0], [x * strides[j] for x in r[1]],
                       (len(r[1]),) if len(r) < 3 or r[2] is None else r[2]))
        j += 1
    fancy = [k for k, r in enumerate(ax) if r[0] == "fancy"]
    if len(fancy) > 1:
        shape = ()
        for k in fancy:
            shape = common(shape, ax[k][2])
        parts = [spread(NArr(ax[k][2], ax[k][1]), shape) for k in fancy]
        joint = ("fancy", [sum(p) for p in zip(*parts)], shape)
        first = fancy[0] if fancy == list(range(fancy[0], fancy[-1] + 1)) else 0
        others = [r for k, r in enumerate(ax) if k not in fancy]
        ax = others[:first] + [joint] + others[first:]
    shape, pos = (), [0]
    for kind, offsets, part in ax:
        shape += tuple(part)
        pos = [p + x for p in pos for x in offsets]
    return shape, pos


def common(a, b):
    """The shape two shapes are broadcast to."""
    n = max(len(a), len(b))
    out = []
    for x, y in zip((1,) * (n - len(a)) + tuple(a), (1,) * (n - len(b)) + tuple(b)):
        if x != y and 1 not in (x, y):
            raise PyRaise("ValueError", None, None, implicit=True)
        out.append(y if x == 1 else x)
    return tuple(out)


def getitem(it, v, key, node):
    a = it.obj(v)
    r = resolve(it, a, key, node)
    if r is None:
        return it.fresh("item", it.T(v), it.T(key))
    shape, pos = r
    items = a.items
    if not shape:
        return items[pos[0]]
    if basic(it, key):
        return it.alloc(NArr(shape, None, (a, pos)))
    return make(it, shape, [items[k] for k in pos])


def basic(it, key):
    """Whether indexing this way gives a view."""
    keys = key.items if isinstance(key, Tup) else [key]
    return all(isinstance(k, (Const, Slice)) or is_none(k) or is_dots(k) for k in keys)


def broadcast(it, shape, value):
    """The flat entries of a value for a shape, or None."""
    o = as_arr(it, value) if isinstance(it.obj(value), (NArr, ListO)) or isinstance(
        value, (Tup, IterD)) else None
    if o is None:
        if isinstance(it.obj(value), ArrO):
            t = it.obj(value).term
            if len(shape) == 1:
                return [it.array_item(t, Const(k)) for k in range(shape[0])]
            return None
        return [value] * size(shape)
    return spread(o, shape)


def spread(o, shape):
    s = (1,) * (len(shape) - len(o.shape)) + o.shape
    if len(s) != len(shape) or any(x not in (1, y) for x, y in zip(s, shape)):
        return None
    out = []
    for k in range(size(shape)):
        idx, rest = [], k
        for n in reversed(shape):
            idx.insert(0, rest % n)
            rest //= n
        p = 0
        for i, n in zip(idx, s):
            p = p * n + (0 if n == 1 else i)
        out.append(o.items[p])
    return out


def setitem(it, v, key, value, node):
    a = it.obj(v)
    it.emit("arrset", node, ref=v, root=v, key=key, value=value, how="item", fresh=True)
    r = resolve(it, a, key, node)
    items = None if r is None else broadcast(it, r[0], value)
    if r is not None and items is None and not isinstance(it.obj(value), ArrO):
        raise PyRaise("ValueError", None, node, implicit=True)
    if items is None:
        a.items = [it.fresh("entry") for _ in a.items]
        return
    for k, x in zip(r[1], items):
        a.put(k, x)


def elementwise(it, f, a, b=None):
    """f applied to the entries; None if a shape is not known."""
    if b is None:
        o = as_arr(it, a)
        return make(it, o.shape, [f(x) for x in o.items])
    oa = as_arr(it, a) if seq(it, a) else NArr((), [a])
    ob = as_arr(it, b) if seq(it, b) else NArr((), [b])
    if oa is None or ob is None:
        return None
    shape = common(oa.shape, ob.shape)
    xs, ys = spread(oa, shape), spread(ob, shape)
    if not shape:
        return f(xs[0], ys[0])
    return make(it, shape, [f(x, y) for x, y in zip(xs, ys)])


def seq(it, v):
    return isinstance(it.obj(v), (NArr, ListO)) or isinstance(v, Tup)


# -- order ---------------------------------------------------------------------

def is_nan(x):
    return isinstance(x, Const) and x.v != x.v


def less(it, x, y, node):
    """Whether x sorts before y."""
    if isinstance(x, Tup) and isinstance(y, Tup):
        for a, b in zip(x.items, y.items):
            if a == b or it.truth(it.eq(a, b, node), node):
                continue
            return less(it, a, b, node)
        return len(x.items) < len(y.items)
    if is_nan(x):
        return False
    if is_nan(y):
        return True
    return it.truth(it.compare(ast.Lt(), x, y, node), node)


def known_less(it, x, y):
    if is_nan(x):
        return False
    if is_nan(y):
        return True
    r = it.compare(ast.Lt(), x, y)
    return bool(r.v) if isinstance(r, Const) else None


def order(it, keys, node=None):
    """Positions in (stable) increasing order of the keys."""
    out = []
    for k in range(len(keys)):
        j = len(out)
        while j > 0 and less(it, keys[k], keys[out[j - 1]], node):
            j -= 1
        out.insert(j, k)
    return out


def extreme(it, items, node, low):
    """The position of the least (greatest) entry: any, if that is not known."""
    best = 0
    for k in range(1, len(items)):
        x, y = (items[k], items[best]) if low else (items[best], items[k])
        r = known_less(it, x, y)
        if r is None:
            return it.choose(len(items), node)
        if r:
            best = k
    return best


def along(it, o, axis, f, node, keep=False):
    """A reduction, over everything or an axis."""
    if axis is None or len(o.shape) == 1:
        r = f(o.items)
        return make(it, (1,) * len(o.shape), [r]) if keep else r
    if not -len(o.shape) <= axis < len(o.shape):
        raise PyRaise("ValueError", None, node, implicit=True)
    axis %= len(o.shape)
    before, n, after = size(o.shape[:axis]), o.shape[axis], size(o.shape[axis + 1:])
    shape = o.shape[:axis] + ((1,) if keep else ()) + o.shape[axis + 1:]
    return make(it, shape, [f([o.items[(p * n + k) * after + q] for k in range(n)])
                            for p in range(before) for q in range(after)])


def all_any(it, items, node, every):
    for x in items:
        t = it.truth(x, node)
        if t != every:
            return Const(not every)
    return Const(every)


# -- numpy functions -------------------------------------------------------------

def function(it, short, args, kwargs, node):
    """The value of a numpy function of known arrays, or None."""
    a0 = args[0] if args else None
    if short in ("zeros", "empty", "ones", "full"):
        s = shape_of(it, a0 if a0 is not None else kwargs.get("shape", NONE))
        if s is None or size(s) > 400:
            return None
        if short == "full":
            fill = args[1] if len(args) > 1 else kwargs.get("fill_value", NONE)
        else:
            fill = {"zeros": Const(0.0), "ones": Const(1.0)}.get(short)
        at = 2 if short == "full" else 1
        dtype = kwargs.get("dtype", args[at] if len(args) > at else NONE)
        kind = kind_of(it, dtype)
        if width_of(dtype) is not None:
            a = make(it, s, [fill if fill is not None else it.fresh("unset")
                             for _ in range(size(s))], kind)
            it.obj(a).width = width_of(dtype)
            return a
        if short == "empty" and kind in ("i", "b"):
            a = make(it, s, [it.fresh("unset") for _ in range(size(s))])
            it.obj(a).kind = kind
            return a
        a = make(it, s, [fill if fill is not None else it.fresh("unset")
                         for _ in range(size(s))], kind)
        it.obj(a).real = kind == "f" or dtype == NONE and short != "full"
        return a
    if short == "arange":
        vals = [it.const_int(x) for x in args]
        if vals and not any(x is False or x is None for x in vals):
            r = list(range(*vals))
            return make(it, (len(r),), [Const(x) for x in r], kind_of(it, kwargs.get("dtype")))
        if vals and all(isinstance(x, Const) and isinstance(x.v, (int, float)) for x in args):
            lo, hi, st = ([0] + [x.v for x in args] + [1])[len(args) == 1 and 0 or 1:][:3] \
                if len(args) < 3 else [x.v for x in args]
            n = max(0, -int(-(hi - lo) // st)) if st else 0
            return make(it, (n,), [Const(lo + k * st) for k in range(n)])
        return None
    if a0 is None:
        return None
    if short in ("array", "asarray", "copy", "asanyarray", "ascontiguousarray", "atleast_1d"):
        dtype = kwargs.get("dtype", args[1] if len(args) > 1 else NONE)
        kind = kind_of(it, dtype)
        if isinstance(it.obj(a0), NArr) and short in ("asarray", "asanyarray") and (
                kind in (None, "f") and it.rounding is None):
            return a0
        if number_of(a0):
            return make(it, (1,) if short in ("ascontiguousarray", "atleast_1d") else (),
                        [a0], kind)
        o = as_arr(it, a0)
        return None if o is None else narrowed(it, o, dtype, kind)
    if short in ("ndim", "shape", "size"):
        o = as_arr(it, a0) if seq(it, a0) else None
        if o is not None:
            return attribute(it, None, o, short)
        if not isinstance(it.obj(a0), ArrO) and not seq(it, a0):
            return {"ndim": Const(0), "shape": Tup([]), "size": Const(1)}[short]
        return None
    if short == "ravel" and (number_of(a0) or is_bool(a0)):
        return make2(it, [a0])
    if short in ("column_stack", "row_stack", "vstack", "hstack", "concatenate", "stack"):
        return stack(it, short, a0, kwargs, args[1:])
    if short == "where" and len(args) == 3:
        os = [as_arr(it, x) if seq(it, x) else NArr((), [x]) for x in args]
        if any(o is None or o.items and isinstance(it.obj(o.items[0]), ArrO) for o in os):
            return None
        shape = ()
        for o in os:
            shape = common(shape, o.shape)
        c, x, y = (spread(o, shape) for o in os)
        r = [u if it.truth(b, node) else w for b, u, w in zip(c, x, y)]
        return make(it, shape, r) if shape else r[0]
    if short == "meshgrid" and len(args) == 2:
        x, y = as_arr(it, a0), as_arr(it, args[1])
        if x is None or y is None:
            return None
        n, m = len(x.items), len(y.items)
        if kwargs.get("indexing") == Const("ij"):
            return it.alloc(ListO([
                make(it, (n, m), [x.items[r] for r in range(n) for c in range(m)]),
                make(it, (n, m), [y.items[c] for r in range(n) for c in range(m)])]))
        return it.alloc(ListO([
            make(it, (m, n), [x.items[c] for r in range(m) for c in range(n)]),
            make(it, (m, n), [y.items[r] for r in range(m) for c in range(n)])]))
    if short in BINARY and len(args) == 2 and entries(it, args):
        return elementwise(it, lambda x, y: it.binop(BINARY[short], x, y, node), a0, args[1])
    if short in COMPARE and len(args) == 2 and entries(it, args):
        return elementwise(it, lambda x, y: it.compare(COMPARE[short], x, y, node), a0, args[1])
    if short in ("minimum", "maximum") and len(args) == 2 and entries(it, args):
        return elementwise(it, lambda x, y: it.minmax(short[:3], [x, y], node), a0, args[1])
    if short in ("logical_and", "logical_or", "logical_xor") and len(args) == 2 and entries(it, args):
        def both(x, y):
            t = it.truth(x, node)
            if short == "logical_xor":
                return Const(t != it.truth(y, node))
            if short == "logical_and":
                return Const(t and it.truth(y, node))
            return Const(t or it.truth(y, node))
        return elementwise(it, both, a0, args[1])
    if short in ("setdiff1d", "intersect1d", "union1d", "in1d", "isin") and len(args) > 1:
        x = as_arr(it, a0)
        y = as_arr(it, args[1]) or NArr((0,), []) if seq(it, args[1]) else None
        if x is None or y is None:
            return None

        def inside(u, o):
            return any(it.truth(it.eq(u, w, node), node) for w in o.items)
        if short in ("in1d", "isin"):
            return make(it, x.shape, [Const(inside(u, y)) for u in x.items])
        if short == "setdiff1d":
            keep = [u for u in x.items if not inside(u, y)]
        elif short == "intersect1d":
            keep = [u for u in x.items if inside(u, y)]
        else:
            keep = x.items + y.items
        return unique(it, keep, node)
    if not seq(it, a0):
        return None
    o = as_arr(it, a0)
    if o is None:
        return None
    if short in ("round", "around") and len(args) > 1:
        return elementwise(it, lambda x: rounded(it, x, args[1], node), a0)
    if short in ELEMENTWISE:
        return elementwise(it, lambda x: it.call_numpy("numpy." + short, short, [x], {}, node), a0)
    return reduce_(it, o, short, args[1:], kwargs, node)


def rounded(it, x, digits, node):
    if isinstance(x, Const) and isinstance(digits, Const):
        return Const(round(x.v, digits.v))
    return Term("np.round", (it.T(x), it.T(digits)))


def number_of(v):
    return isinstance(v, Const) and isinstance(v.v, (int, float))


def entries(it, args):
    """Whether the arguments are numbers and arrays of known entries."""
    return not any(isinstance(it.obj(x), ArrO) for x in args) and (
        any(seq(it, x) for x in args) or all(number_of(x) or is_bool(x) for x in args))


def called(it, short, args, kwargs, node):
    """The value of a numpy function, or None."""
    kwargs = dict(kwargs)
    out = kwargs.pop("out", NONE)
    if isinstance(out, Tup) and len(out.items) == 1:
        out = out.items[0]
    if len(args) == 3 and (short in BINARY or short in COMPARE or short in (
            "minimum", "maximum", "fmin", "fmax", "logical_and", "logical_or")):
        out = args.pop()
    elif len(args) == 2 and short in ELEMENTWISE and arr(it, args[1]):
        out = args.pop()
    if out != NONE:
        if not isinstance(it.obj(out), NArr):
            return None
        where = kwargs.pop("where", Const(True))
        r = called(it, short, args, kwargs, node)
        if r is None:
            return None
        if where != Const(True):
            r = called(it, "where", [where, r, out], {}, node)
        setitem(it, out, Slice(None, None, None), r, node)
        return out
    base, _, how = short.rpartition(".")
    if base and how in ("reduce", "accumulate", "outer") and args:
        return of_ufunc(it, base, how, args, kwargs, node)
    if short in FOLDED_MORE and len(args) == 1 and not kwargs and number_of(args[0]) and not (
            isinstance(args[0].v, bool) and short[:5] not in ("float", "doubl", "int64", "int32")):
        try:
            return Const(FOLDED_MORE[short](args[0].v))
        except (ValueError, OverflowError, ZeroDivisionError):
            return None
    if short in ("round", "around") and len(args) == 2 and number_of(args[0]):
        return rounded(it, args[0], args[1], node)
    if short == "divmod" and len(args) == 2:
        return Tup([it.binop(ast.FloorDiv(), args[0], args[1], node),
                    it.binop(ast.Mod(), args[0], args[1], node)])
    r = function(it, short, args, kwargs, node)
    if r is not None:
        return r
    m = numpy_model.find(short)
    if m is None or any(isinstance(it.obj(x), ArrO) for x in args):
        return None
    if not modelled(it, short, args):
        return None
    if short in numpy_model.MODULE.classes:
        return it.call(Cls(m), args, kwargs, node)
    return it.call(Fun(m), args, kwargs, node)


def modelled(it, short, args):
    """Whether the first arguments are such as the models of functions are written for."""
    if short in ("vectorize", "apply_along_axis", "finfo", "iinfo", "fromiter", "lexsort",
                 "einsum", "ndindex", "select", "block", "dstack", "isscalar", "iterable"):
        return True
    first = args[:1] if short not in ("compress", "extract") else args[:2]
    return all(number_of(x) or is_bool(x) or seq(it, x) and as_arr(it, x) is not None
               for x in first) or short in ("clip", "linspace", "atleast_1d", "isclose",
                                            "fmin", "fmax", "interp", "hypot")


def of_ufunc(it, base, how, args, kwargs, node):
    """add.reduce(...) and the like."""
    def f(x, y):
        return called(it, base, [x, y], {}, node)
    o = as_arr(it, args[0]) if seq(it, args[0]) else None
    if o is None:
        return None
    if how == "outer":
        y = as_arr(it, args[1])
        return None if y is None else called(it, base, [
            make(it, o.shape + (1,) * len(y.shape), o.items), args[1]], {}, node)
    axis = number(it, kwargs.get("axis", args[1] if len(args) > 1 else Const(0)))

    def run(xs):
        out = xs[:1]
        for x in xs[1:]:
            out.append(f(out[-1], x))
        return out
    if how == "reduce":
        if not o.items:
            return {"add": Const(0), "multiply": Const(1), "logical_and": TRUE,
                    "logical_or": FALSE}.get(base)
        return along(it, o, axis, lambda xs: run(xs)[-1], node)
    return make2(it, run(o.items)) if len(o.shape) == 1 else None


def arr(it, v):
    return isinstance(it.obj(v), NArr)


def unique(it, items, node):
    out = []
    for k in order(it, items, node):
        if not out or not it.truth(it.eq(out[-1], items[k], node), node):
            out.append(items[k])
    return make(it, (len(out),), out)


def stack(it, short, v, kwargs, args=()):
    parts = it.known_items(v)
    if parts is None:
        return None
    os = [as_arr(it, x) if seq(it, x) or not number_of(x) and not isinstance(x, Term)
          else NArr((1,), [x]) if short == "hstack" else None for x in parts]
    if not os or any(o is None for o in os):
        return None
    axis = kwargs.get("axis", args[0] if args else Const(0))
    if short == "column_stack":
        if len({o.shape[0] for o in os}) != 1:
            return None
        n = os[0].shape[0]
        cols = []
        for o in os:
            m = o.shape[1] if len(o.shape) == 2 else 1
            cols += [[o.items[r * m + c] for r in range(n)] for c in range(m)]
        return make(it, (n, len(cols)), [c[r] for r in range(n) for c in cols])
    if short in ("row_stack", "vstack"):
        os = [o if len(o.shape) > 1 else NArr((1,) + o.shape, o.items) for o in os]
        axis = Const(0)
    if short == "hstack":
        axis = Const(0 if len(os[0].shape) == 1 else 1)
    if axis == NONE:
        os, axis = [NArr((len(o.items),), o.items) for o in os], Const(0)
    k = number(it, axis)
    if k is None:
        return None
    if short == "stack":
        if len({o.shape for o in os}) != 1:
            raise PyRaise("ValueError", None, None, implicit=True)
        k %= len(os[0].shape) + 1
        os = [NArr(o.shape[:k] + (1,) + o.shape[k:], o.items) for o in os]
    k %= len(os[0].shape)
    if len({o.shape[:k] + o.shape[k + 1:] for o in os}) != 1 or len(
            {len(o.shape) for o in os}) != 1:
        raise PyRaise("ValueError", None, None, implicit=True)
    n = sum(o.shape[k] for o in os)
    before = size(os[0].shape[:k])
    items = []
    for p in range(before):
        for o in os:
            w = len(o.items) // before
            items += o.items[p * w:(p + 1) * w]
    return make(it, os[0].shape[:k] + (n,) + os[0].shape[k + 1:], items)


def reduce_(it, o, short, args, kwargs, node):
    axis = kwargs.get("axis", args[0] if args and short in REDUCE | {
        "any", "all", "min", "max", "amin", "amax", "argmin", "argmax", "sort"} else NONE)
    ax = axis.v if isinstance(axis, Const) and isinstance(axis.v, int) else None
    keep = kwargs.get("keepdims") == TRUE
    if short in ("all", "any"):
        return along(it, o, ax, lambda xs: all_any(it, xs, node, short == "all"), node, keep)
    if short == "flatnonzero":
        return make2(it, [Const(k) for k, x in enumerate(o.items) if it.truth(x, node)])
    if short in ("nonzero", "where"):
        at = [k for k, x in enumerate(o.items) if it.truth(x, node)]
        out = []
        for j, n in enumerate(o.shape):
            w = size(o.shape[j + 1:])
            out.append(make2(it, [Const(k // w % n) for k in at]))
        return Tup(out)
    if short == "searchsorted":
        x = args[0] if args else kwargs.get("v")
        if x is None:
            return None
        if seq(it, x):
            v = as_arr(it, x)
            return None if v is None else make(it, v.shape, [
                reduce_(it, o, short, [y] + args[1:], {
                    k: z for k, z in kwargs.items() if k != "v"}, node) for y in v.items])
        side = kwargs.get("side", args[1] if len(args) > 1 else Const("left"))
        k = 0
        for y in o.items:
            before = less(it, y, x, node) if side == Const("left") else not less(it, x, y, node)
            if not before:
                break
            k += 1
        return Const(k)
    if short in ("argsort", "sort"):
        if len(o.shape) == 2 and (axis == NONE or ax in (1, -1)):
            n, m = o.shape
            rows = [o.items[r * m:(r + 1) * m] for r in range(n)]
            return make(it, o.shape, [
                Const(k) if short == "argsort" else r[k] for r in rows for k in order(it, r, node)])
        if len(o.shape) == 2 and ax == 0:
            r = reduce_(it, it.obj(transpose(it, o)), short, [], {}, node)
            return transpose(it, it.obj(r))
        if len(o.shape) != 1:
            return None
        ks = order(it, o.items, node)
        return make2(it, [Const(k) if short == "argsort" else o.items[k] for k in ks])
    if short in ("argmin", "argmax"):
        if not o.items:
            raise PyRaise("ValueError", None, node, implicit=True)
        return along(it, o, ax, lambda xs: Const(extreme(it, xs, node, short == "argmin")), node)
    if short in ("min", "max", "amin", "amax"):
        if not o.items:
            raise PyRaise("ValueError", None, node, implicit=True)
        return along(it, o, ax, lambda xs: pick(it, xs, node, short.endswith("min")), node, keep)
    if short in REDUCE:
        return along(it, o, ax, lambda xs: total(it, short, xs, node), node, keep)
    if short == "unique":
        if len(o.shape) > 1 and axis != NONE:
            return None
        r = unique(it, o.items, node)
        more = [k for k in ("return_index", "return_inverse", "return_counts")
                if kwargs.get(k) == TRUE]
        if not more:
            return r
        new = it.obj(r).items
        at = [[j for j, x in enumerate(o.items) if it.truth(it.eq(x, y, node), node)]
              for y in new]
        out = [r]
        for k in more:
            out.append(make2(it, [Const(x[0]) for x in at] if k == "return_index" else
                             [Const(len(x)) for x in at] if k == "return_counts" else
                             [Const(j) for k2 in range(len(o.items))
                              for j, x in enumerate(at) if k2 in x]))
        return Tup(out)
    if short in ("ravel", "flatten"):
        return make2(it, o.items)
    if short == "squeeze":
        shape = [n for n in o.shape if n != 1]
        return make(it, shape, o.items) if shape else o.items[0]
    if short == "transpose":
        return transpose(it, o)
    if short in ("size", "shape", "ndim"):
        return attribute(it, None, o, short)
    if short in ("diff",) and len(o.shape) == 1:
        return make2(it, [it.binop(ast.Sub(), y, x, node) for x, y in zip(o.items, o.items[1:])])
    return None


def pick(it, xs, node, low):
    if len(xs) == 1:
        return xs[0]
    for k in range(len(xs)):
        if all(j == k or known_less(it, *((xs[j], xs[k]) if low else (xs[k], xs[j]))) is False
               for j in range(len(xs))):
            return xs[k]
    return it.minmax("min" if low else "max", xs, node)


def total(it, short, xs, node):
    if short == "sum":
        t = Const(0)
        for x in xs:
            t = it.binop(ast.Add(), t, as_number(it, x), node) if t != Const(0) else as_number(
                it, x)
        return t
    if short == "prod":
        t = Const(1)
        for x in xs:
            t = it.binop(ast.Mult(), t, as_number(it, x), node) if t != Const(1) else as_number(
                it, x)
        return t
    if not xs:
        return Const(float("nan"))
    if all(number_of(x) for x in xs):
        vs = [x.v for x in xs]
        mean = sum(vs) / len(vs)
        if short == "mean":
            return Const(mean)
        if short == "median":
            vs, n = sorted(vs), len(vs)
            return Const((vs[(n - 1) // 2] + vs[n // 2]) / 2)
        if short in ("var", "std"):
            v = sum((x - mean) ** 2 for x in vs) / len(vs)
            return Const(v if short == "var" else v ** 0.5)
    return Term("np." + short, tuple(it.T(x) for x in xs))


def as_number(it, x):
    if is_bool(x) and isinstance(x, Term):
        return Const(int(it.truth(x)))
    if isinstance(x, Const) and isinstance(x.v, bool):
        return Const(int(x.v))
    return x


def make2(it, items):
    return make(it, (len(items),), items)


def transpose(it, o):
    if len(o.shape) == 1:
        return make(it, o.shape, o.items)
    n, m = o.shape
    return make(it, (m, n), [o.items[r * m + c] for c in range(m) for r in range(n)])


# -- attributes and methods --------------------------------------------------------

def attribute(it, v, o, name):
    if name == "shape":
        return Tup([Const(n) for n in o.shape])
    if name == "size":
        return Const(len(o.items))
    if name == "ndim":
        return Const(len(o.shape))
    if name == "T":
        return transpose(it, o)
    if name == "flat":
        return make2(it, o.items)
    if name == "dtype":
        return Term("dtype", ())
    if name == "base":
        return NONE if o.base is None else it.fresh("base")
    return None


def nested(it, o):
    if len(o.shape) <= 1:
        return it.alloc(ListO(list(o.items)))
    n, m = o.shape[0], size(o.shape[1:])
    return it.alloc(ListO([nested(it, NArr(o.shape[1:], o.items[k * m:(k + 1) * m]))
                           for k in range(n)]))


def method(it, v, o, name, args, kwargs, node):
    if name == "view" and not args:
        return it.alloc(NArr(o.shape, None, (o, list(range(len(o.items))))))
    if name in ("copy", "astype", "view", "newbyteorder"):
        dtype = kwargs.get("dtype", args[0] if args and name == "astype" else NONE)
        return narrowed(it, o, dtype, kind_of(it, dtype))
    if name == "round":
        return called(it, "round", [v] + args + [kwargs[k] for k in ("decimals",) if k in kwargs],
                      {}, node)
    if name == "tolist":
        return nested(it, o)
    if name == "item" and not args and len(o.items) == 1:
        return o.items[0]
    if name == "item" and args:
        k = args[0] if len(args) == 1 else Tup(args)
        return getitem(it, v, k, node) if isinstance(k, Tup) else getitem(
            it, make2(it, o.items), k, node)
    if name == "sort":
        it.emit("arrset", node, ref=v, root=v, key=None, value=NONE, how="sort", fresh=True)
        o.items = [o.items[k] for k in order(it, o.items, node)]
        return NONE
    if name == "fill":
        it.emit("arrset", node, ref=v, root=v, key=None, value=args[0], how="fill", fresh=True)
        o.items = [args[0]] * len(o.items)
        return NONE
    if name == "reshape":
        s = shape_of(it, args[0] if len(args) == 1 else Tup(args))
        if s is not None and -1 in s:
            rest = size([x for x in s if x != -1])
            s = tuple(len(o.items) // rest if x == -1 else x for x in s)
        if s is not None and size(s) == len(o.items):
            return it.alloc(NArr(s, None, (o, list(range(len(o.items))))))
        return None
    if name in ("tobytes", "tostring"):
        return as_bytes(it, o)
    if name in DUNDER and args:
        return it.binop(DUNDER[name], v, args[0], node)
    if name in numpy_model.METHODS:
        return called(it, name, [v] + args, kwargs, node)
    return reduce_(it, o, name, args, kwargs, node)


def as_bytes(it, o):
    """The bytes of an array; known if its entries are."""
    xs = [it.T(x) for x in o.items]
    if not all(isinstance(x, Const) and isinstance(x.v, (int, float)) for x in xs):
        return Term("bytes", (Const(o.width),) + tuple(xs))
    xs = [x.v for x in xs]
    if xs and not o.real and all(isinstance(x, bool) for x in xs):
        code = "?"
    elif xs and not o.real and all(isinstance(x, int) for x in xs):
        code = "q"
    else:
        xs = [float(x) for x in xs]
        code = {8: "d", 4: "f", 2: "e"}[o.width]
    try:
        return Const(struct.pack("<%d%s" % (len(xs), code), *xs))
    except (OverflowError, struct.error):
        raise PyRaise("OverflowError", None, None, implicit=True)


# -- r_ and the like ---------------------------------------------------------------

def joined(it, path, key, node):
    """The value of numpy.r_[key] and others, or None."""
    keys = key.items if isinstance(key, Tup) else (key,)
    short = path.rsplit(".", 1)[-1]
    if short in ("s_", "index_exp"):
        return key

    def steps(k):
        if not isinstance(k, Slice):
            return k
        lo, hi, st = (it.const_int(x) for x in (k.lo, k.hi, k.step))
        if hi is None or False in (lo, hi, st) and any(x is False for x in (lo, hi, st)):
            return None
        return make2(it, [Const(x) for x in range(lo or 0, hi, st or 1)])
    parts = [steps(k) for k in keys]
    if any(p is None for p in parts):
        return None
    if short in ("r_", "c_"):
        lists = [p if seq(it, p) else make2(it, [p]) for p in parts]
        return called(it, "concatenate" if short == "r_" else "column_stack",
                      [it.alloc(ListO(lists))], {}, node)
    if short == "ogrid" and len(parts) == 1:
        return parts[0]
    if short == "mgrid" and len(parts) == 1:
        return parts[0]
    if short == "mgrid" and len(parts) == 2:
        return called(it, "meshgrid", parts, {"indexing": Const("ij")}, node)
    return None
