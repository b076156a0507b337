"""
Entries of array terms, and what is known about their size.

The engine describes an array by the term it was made with, e.g.
np.clip(a + b, lo, hi).  Here such terms are taken apart entry by entry, so
that a rule can say something about "parameter k of what is evaluated"
however the code gets at it (whole arrays, loops, masks).
"""

from .absint import Const, NONE, Slice, Term, Tup, strip_float, untag

ELEMENTWISE = {
    "+", "-", "*", "/", "**", "neg", "inv", "not", "lt", "le", "eq", "ne", "abs", "float",
    "min", "max", "and", "or", "&", "|",
    "np.add", "np.subtract", "np.multiply", "np.divide", "np.true_divide",
    "np.negative", "np.where", "np.clip", "np.minimum", "np.maximum", "np.fmin",
    "np.fmax", "np.abs", "np.absolute", "np.fabs", "np.less", "np.greater",
    "np.less_equal", "np.greater_equal", "np.logical_and", "np.logical_or",
    "np.logical_not", "np.float64", "np.power", "np.square", "np.isfinite", "np.isnan"}
SAME = {"arr.astype", "arr.flatten", "arr.ravel", "arr.copy", "np.asfarray",
        "np.float64", "arr.tolist", "listof", "np.ascontiguousarray"}
FULL = Slice(None, None, None)


class Arrays:
    """
    vectors: f(term) -> rank (1, 2) of a term that is otherwise unknown, or
    None if it is not an array.
    """

    def __init__(self, vectors=None):
        self.vectors = vectors or (lambda t: None)

    # -- shape ---------------------------------------------------------------
    def rank(self, t):
        if isinstance(t, Tup):
            return 1 + (self.rank(t.items[0]) if t.items else 0)
        if not isinstance(t, Term):
            return 0
        r = self.vectors(t)
        if r is not None:
            return r
        op, a = t.op, t.args
        if op in ("list", "listlit"):
            return 1 + (self.rank(a[0]) if a else 0)
        if op in ("upd", "arrattr") or op in SAME:
            return self.rank(a[0])
        if op in ("np.zeros", "np.ones", "np.empty", "np.full"):
            return len(a[0].items) if isinstance(a[0], Tup) else 1
        if op == "item":
            base = self.rank(a[0])
            if not base:
                return 0
            for k in (a[1].items if isinstance(a[1], Tup) else [a[1]]):
                if not isinstance(k, Slice) and not self.rank(k):
                    base -= 1
            return max(0, base)
        if op == "np.transpose":
            return self.rank(a[0])
        if op in ELEMENTWISE:
            return max([self.rank(x) for x in a if not kw(x)] or [0])
        return 0

    # -- entries -----------------------------------------------------------------
    def entry(self, t, *idx):
        """The entry of a term at an index (numbers)."""
        t = untag(t)
        r = self.rank(t)
        if r == 0 or not idx:
            return self.norm(t)
        idx = idx[-r:]
        if isinstance(t, Tup) or t.op in ("list", "listlit"):
            items = t.items if isinstance(t, Tup) else t.args
            if -len(items) <= idx[0] < len(items):
                return self.entry(items[idx[0]], *idx[1:])
            return Term("outside", (t,) + tuple(idx))
        if self.vectors(t) is not None:
            return Term("item", (t, tuple_of(idx)))
        op, a = t.op, t.args
        if op == "upd":
            base, key, val = a
            keys = key.items if isinstance(key, Tup) else [key]
            hit = True
            left = []
            for n, i in enumerate(idx):
                k = keys[n] if n < len(keys) else FULL
                if isinstance(k, Const) and isinstance(k.v, int) and not isinstance(k.v, bool):
                    hit = hit and (k.v == i)
                elif k == FULL:
                    left.append(i)
                elif self.rank(k):
                    # A mask
                    return Term("np.where", (self.entry(k, i), self.entry(val, i),
                                             self.entry(base, *idx)))
                else:
                    return Term("unclear", (t,) + tuple(idx))
            return self.entry(val, *left) if hit else self.entry(base, *idx)
        if op in SAME:
            return self.entry(a[0], *idx)
        if op == "np.transpose" or (op == "arrattr" and a[1] == "T"):
            return self.entry(a[0], *reversed(idx))
        if op in ("np.zeros",):
            return Const(0.0)
        if op in ("np.ones",):
            return Const(1.0)
        if op == "np.full":
            return self.norm(a[1])
        if op == "item":
            keys = a[1].items if isinstance(a[1], Tup) else [a[1]]
            out = []
            rest = list(idx)
            for k in keys:
                if isinstance(k, Slice):
                    if k.step is not None or (k.lo is not None and not cint(k.lo)):
                        return Term("unclear", (t,) + tuple(idx))
                    lo = 0 if k.lo is None else k.lo.v
                    out.append(rest.pop(0) + lo)
                elif cint(k):
                    out.append(k.v)
                elif self.rank(k):
                    out.append(rest.pop(0))      # a mask
                else:
                    out.append(k)
            out += rest
            if any(not isinstance(x, int) for x in out):
                return Term("item", (untag(a[0]), tuple_of(out)))
            return self.entry(a[0], *out)
        if op in ELEMENTWISE:
            return self.simple(Term(op, [x if kw(x) else self.entry(x, *idx) for x in a]))
        return Term("item", (t, tuple_of(idx)))

    def norm(self, t):
        """A scalar term with the entries it mentions resolved."""
        t = strip_float(untag(t))
        if not isinstance(t, Term):
            return t
        if t.op == "item" and self.rank(t.args[0]):
            keys = t.args[1].items if isinstance(t.args[1], Tup) else [t.args[1]]
            if len(keys) == self.rank(t.args[0]):
                if all(cint(k) for k in keys):
                    return self.entry(t.args[0], *[k.v for k in keys])
                return Term("item", (untag(t.args[0]), tuple_of([
                    k.v if cint(k) else k for k in keys])))
        return self.simple(Term(t.op, [self.norm(x) if isinstance(x, Term) else x
                                       for x in t.args]))

    @staticmethod
    def simple(t):
        same = {"np.less": ("lt", 0), "np.less_equal": ("le", 0),
                "np.greater": ("lt", 1), "np.greater_equal": ("le", 1)}
        if t.op in same and len(t.args) == 2:
            op, swap = same[t.op]
            return Term(op, t.args[::-1] if swap else t.args)
        if t.op in ("float", "np.float64"):
            return t.args[0]
        return t


def tuple_of(idx):
    idx = [Const(i) if isinstance(i, int) else i for i in idx]
    return idx[0] if len(idx) == 1 else Tup(idx)


def cint(k):
    return isinstance(k, Const) and isinstance(k.v, int) and not isinstance(k.v, bool)


def kw(x):
    """A keyword argument, as the engine puts them into terms."""
    return isinstance(x, Tup) and len(x.items) == 2 and isinstance(x.items[0], Const) \
        and isinstance(x.items[0].v, str)


# -- what arrays are ----------------------------------------------------------

def is_unit(t):
    """An entry of a Latin hypercube, or of uniform draws, from 0 to 1."""
    if isinstance(t, Term) and t.op == "item":
        t = t.args[0]
    if not isinstance(t, Term):
        return False
    if t.op == "ext:pyDOE.lhs":
        return True
    if t.op in ("np.random.random", "np.random.rand", "np.random.random_sample",
                "ext:random.random"):
        return True
    if t.op == "np.random.uniform":
        # Without other limits
        return all(isinstance(x, Tup) and x.items[0] == Const("size") or isinstance(x, int)
                   for x in t.args)
    return t.op == "unit_draw"


def vectors(t):
    if t.op == "fld" and t.args[1] == "values":
        return 1
    if t.op == "sym" and str(t.args[0]).startswith("vec"):
        return 1
    if t.op.startswith("ext:pyDOE.lhs") or t.op.startswith("np.random.") and any(
            isinstance(x, (Tup, Term)) for x in t.args):
        return 2
    return None


ARRAYS = Arrays(vectors)


# -- sums of products -----------------------------------------------------------

_polys = {}


def poly(t):
    """A term as a sum of products: {sorted factors: coefficient}."""
    r = _polys.get(t)
    if r is None:
        r = _polys[t] = _poly(t)
    return r


def _poly(t):
    t = strip_float(t)
    if isinstance(t, Const) and isinstance(t.v, (int, float)) and not isinstance(t.v, bool):
        return {(): t.v} if t.v else {}
    if isinstance(t, Term):
        if t.op in ("+", "np.add") and len(t.args) == 2:
            return add(poly(t.args[0]), poly(t.args[1]), 1)
        if t.op in ("-", "np.subtract") and len(t.args) == 2:
            return add(poly(t.args[0]), poly(t.args[1]), -1)
        if t.op in ("neg", "u-", "usub", "np.negative") and len(t.args) == 1:
            return add({}, poly(t.args[0]), -1)
        if t.op in ("*", "np.multiply") and len(t.args) == 2:
            a, b = poly(t.args[0]), poly(t.args[1])
            out = {}
            for ka, va in a.items():
                for kb, vb in b.items():
                    k = tuple(sorted(ka + kb))
                    out[k] = out.get(k, 0) + va * vb
            return {k: v for k, v in out.items() if v}
        if t.op in ("/", "np.divide", "np.true_divide") and len(t.args) == 2:
            b = poly(t.args[1])
            if list(b) == [()]:
                return {k: v / b[()] for k, v in poly(t.args[0]).items()}
    return {(repr(untag(t)),): 1}


def add(a, b, sign):
    out = dict(a)
    for k, v in b.items():
        out[k] = out.get(k, 0) + sign * v
        if not out[k]:
            del out[k]
    return out


# -- order --------------------------------------------------------------------

class Range:
    """
    What can be said about entries lying between two terms lo <= hi, given
    a path.  inside: f(term) for terms known to lie inside; unit: f(term)
    for terms known to lie between 0 and 1.
    """

    def __init__(self, arrays, path, lo, hi, inside=None, unit=None, before=None):
        self.A = arrays
        self.p = path
        self.lo = lo
        self.hi = hi
        self.inside = inside or (lambda t: False)
        self.unit = unit or (lambda t: False)
        self.memo = {}
        self.known = []
        if path is not None:
            lim = len(path.fact_list) if before is None else before.nf
            for f in path.fact_list[:lim]:
                if f.op in ("lt", "le"):
                    self.known += self.order(Term(f.op, [arrays.norm(x) for x in f.args]),
                                             path.facts[f][0])

    def order(self, c, val):
        """[(x, y)] with x <= y implied by a condition being val."""
        if not isinstance(c, Term):
            return []
        if c.op in ("not", "inv", "np.logical_not"):
            return self.order(c.args[0], not val)
        if c.op in ("&", "and", "np.logical_and") and val:
            return [o for x in c.args for o in self.order(x, True)]
        if c.op in ("|", "or", "np.logical_or") and not val:
            return [o for x in c.args for o in self.order(x, False)]
        if c.op in ("lt", "le") and len(c.args) == 2:
            x, y = c.args
            return [(x, y)] if val else [(y, x)]
        return []

    def contradiction(self):
        """Whether the path knows what is inside to be outside."""
        for x, y in self.known:
            if (y == self.lo and (self.inside(x) or self.scaled(x))) or (
                    x == self.hi and (self.inside(y) or self.scaled(y))):
                return True
        return False

    def within(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self.side(t, True, []) and self.side(t, False, [])
        return r

    def side(self, t, low, conds):
        """Whether t >= lo (low) or t <= hi."""
        t = strip_float(t)
        b = self.lo if low else self.hi
        if t == self.lo or t == self.hi or self.inside(t):
            return True
        known = self.known + conds
        for x, y in known:
            if low and y == t and (x == b or x == self.hi):
                return True
            if not low and x == t and (y == b or y == self.lo):
                return True
        if isinstance(t, Const):
            return False
        op, a = t.op, [x for x in t.args if not kw(x)]
        if op == "np.clip" and len(a) == 3:
            x, lo, hi = a
            if low:
                if hi != NONE and not self.side(hi, True, conds):
                    return False
                return (lo != NONE and self.side(lo, True, conds)) or \
                    self.side(x, True, conds)
            if hi != NONE and self.side(hi, False, conds):
                return True
            return self.side(x, False, conds) and (
                lo == NONE or self.side(lo, False, conds))
        if op in ("np.maximum", "np.fmax", "max"):
            return (any if low else all)(self.side(x, low, conds) for x in a)
        if op in ("np.minimum", "np.fmin", "min"):
            return (all if low else any)(self.side(x, low, conds) for x in a)
        if op == "np.where" and len(a) == 3:
            c, x, y = a
            return self.side(x, low, conds + self.order(c, True)) and \
                self.side(y, low, conds + self.order(c, False))
        # Sums
        d = add(poly(t), poly(b), -1) if low else add(poly(b), poly(t), -1)
        for x, y in known:
            if d == add(poly(y), poly(x), -1):
                return True
        u = self.scaled(t)
        return u

    def scaled(self, t):
        """lo + (hi - lo)*u with u between 0 and 1."""
        d = add(poly(t), poly(self.lo), -1)
        if len(d) != 2:
            return False
        for u in {f for k in d for f in k}:
            want = add({tuple(sorted((repr(self.hi), u))): 1},
                       {tuple(sorted((repr(self.lo), u))): 1}, -1)
            if d == want and self.unit_name(u, t):
                return True
        return False

    def unit_name(self, name, t):
        found = []

        def scan(x):
            if isinstance(x, Term):
                if repr(x) == name and self.unit(x):
                    found.append(x)
                for y in x.args:
                    scan(y)
            elif isinstance(x, Tup):
                for y in x.items:
                    scan(y)
        scan(t)
        return bool(found)

    def simplify(self, t):
        """Limiting what lies inside leaves it as it is."""
        t = strip_float(t)
        if not isinstance(t, Term):
            return t
        t = Term(t.op, [self.simplify(x) if isinstance(x, Term) else x for x in t.args])
        a = [x for x in t.args if not kw(x)]
        if t.op == "np.clip" and len(a) == 3:
            x, lo, hi = a
            if lo in (NONE, self.lo) and hi in (NONE, self.hi) and self.within(x):
                return x
        if t.op in ("np.maximum", "np.fmax", "max", "np.minimum", "np.fmin", "min") \
                and len(a) == 2:
            b = self.lo if t.op in ("np.maximum", "np.fmax", "max") else self.hi
            for x, y in ((a[0], a[1]), (a[1], a[0])):
                if y == b and self.within(x):
                    return x
        if t.op == "np.where" and len(a) == 3:
            c, x, y = a
            for u, w in self.order(c, True):
                if (w == self.lo and self.within(u)) or (u == self.hi and self.within(w)):
                    return y
            for u, w in self.order(c, False):
                if (w == self.lo and self.within(u)) or (u == self.hi and self.within(w)):
                    return x
        return t
