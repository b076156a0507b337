"""
Order between number terms: what follows from the comparisons known on a
path, from scaling by constants and from min and max.
"""

from .absint import Const, Term, strip_float


MINMAX = ("min", "max", "np.minimum", "np.maximum", "np.min", "np.max")


def const(x):
    return isinstance(x, Const) and isinstance(x.v, (int, float)) and not isinstance(x.v, bool)


class Order:
    """positive: f(term) for terms known to be greater than zero."""

    def __init__(self, path, positive, before=None, upto=None):
        self.positive_ = positive
        self.memo = None
        self.known = []          # (x, y, strict): x <= y or x < y
        lim = upto if upto is not None else (
            len(path.fact_list) if before is None else before.nf)
        for f in path.fact_list[:lim]:
            val = path.facts[f][0]
            if f.op == "truthy" and isinstance(f.args[0], Term):
                f = f.args[0]
            if f.op not in ("lt", "le", "eq"):
                continue
            x, y = [strip_float(a) for a in f.args]
            if f.op == "eq":
                if val:
                    self.known += [(x, y, False), (y, x, False)]
                continue
            # What is compared is not NaN
            self.known.append((x, y, f.op == "lt") if val else (y, x, f.op == "le"))

    def positive(self, t, depth=0):
        t = strip_float(t)
        if const(t):
            return t.v > 0
        if self.positive_(t):
            return True
        if isinstance(t, Term) and depth < 6:
            if t.op in ("*", "/", "+"):
                return all(self.positive(x, depth + 1) for x in t.args)
            if t.op in MINMAX:
                return all(self.positive(x, depth + 1) for x in items(t))
            if t.op in ("np.sqrt", "ext:math.sqrt"):
                return self.positive(t.args[0], depth + 1)
            if t.op == "**":
                return self.positive(t.args[0], depth + 1)
        return False

    def le(self, x, y):
        return self.less(x, y, False)

    def lt(self, x, y):
        return self.less(x, y, True)

    def less(self, x, y, strict):
        x, y = strip_float(x), strip_float(y)
        if x == y and not strict:
            return True
        r = self.closure(x, y).get((x, y))
        return r is not None and (r or not strict)

    def closure(self, x, y):
        """{(x, y): strict} for what is known of the order of the terms."""
        if self.memo is not None and {x, y} <= self.memo[0]:
            return self.memo[1]
        nodes = {x, y} | (self.memo[0] if self.memo else set())
        for a, b, s in self.known:
            nodes |= {a, b}
        todo = list(nodes)
        while todo:
            t = todo.pop()
            new = [scaled(t)[1]]
            if isinstance(t, Term) and t.op in MINMAX:
                new += [strip_float(z) for z in items(t)]
            for z in new:
                if z not in nodes:
                    nodes.add(z)
                    todo.append(z)
        # Known comparisons, scaled to the terms asked about
        extra = []
        for t in (x, y):
            c, u = scaled(t)
            for a, b, s in self.known:
                for w, other in ((a, b), (b, a)):
                    cw, uw = scaled(w)
                    if uw == u and w != t and cw > 0 and c > 0:
                        z = times(c / cw, other)
                        extra.append((t, z, s) if w is a else (z, t, s))
                        nodes.add(z)
        lt = {}

        def put(a, b, s):
            old = lt.get((a, b))
            if a != b and (old is None or (s and not old)):
                lt[a, b] = s
                return True
            return False
        for a, b, s in self.known + extra:
            put(a, b, s)
        nodes = sorted(nodes, key=repr)
        units = [scaled(t) for t in nodes]
        pos = [self.positive(t) for t in nodes]
        upos = [self.positive(u) for c, u in units]
        for i, a in enumerate(nodes):
            for j, b in enumerate(nodes):
                if i == j:
                    continue
                if const(a) and const(b):
                    if a.v <= b.v:
                        put(a, b, a.v < b.v)
                    continue
                (ca, ua), (cb, ub) = units[i], units[j]
                if ua == ub and upos[i] and ca <= cb:
                    put(a, b, ca < cb)
                if const(a) and a.v <= 0 and pos[j]:
                    put(a, b, True)
            if isinstance(a, Term) and a.op in MINMAX:
                for z in items(a):
                    z = strip_float(z)
                    if "min" in a.op:
                        put(a, z, False)
                    else:
                        put(z, a, False)
        more = True
        while more:
            more = False
            for k in nodes:
                into = [(a, lt[a, k]) for a in nodes if (a, k) in lt]
                outof = [(b, lt[k, b]) for b in nodes if (k, b) in lt]
                for a, s in into:
                    for b, s2 in outof:
                        if put(a, b, s or s2):
                            more = True
            for m in nodes:
                if not (isinstance(m, Term) and m.op in MINMAX):
                    continue
                zs = [strip_float(z) for z in items(m)]
                for a in nodes:
                    if "min" in m.op:
                        rs = [lt.get((a, z), False if a == z else None) for z in zs]
                        pair = (a, m)
                    else:
                        rs = [lt.get((z, a), False if a == z else None) for z in zs]
                        pair = (m, a)
                    if None not in rs and put(pair[0], pair[1], all(rs)):
                        more = True
        self.memo = (set(nodes), lt)
        return lt


def items(t):
    out = []
    for a in t.args:
        if isinstance(a, Term) and a.op in ("list", "listlit"):
            out += list(a.args)
        elif hasattr(a, "items") and not isinstance(a, Term):
            out += list(a.items)
        else:
            out.append(a)
    return out


def times(f, t):
    c, u = scaled(t)
    if abs(c * f - 1) < 1e-12:
        return u
    return Term("*", (Const(c * f), u))


def scaled(t):
    """(c, u) with t = c*u."""
    t = strip_float(t)
    if isinstance(t, Term) and t.op == "*" and len(t.args) == 2:
        a, b = t.args
        if const(a):
            c, u = scaled(b)
            return a.v * c, u
        if const(b):
            c, u = scaled(a)
            return b.v * c, u
    if isinstance(t, Term) and t.op == "/" and len(t.args) == 2 and const(t.args[1]) \
       and t.args[1].v:
        c, u = scaled(t.args[0])
        return c / t.args[1].v, u
    return 1.0, t


def feasible(path, positive):
    """Whether no comparison on the path is refuted by the others."""
    for n, f in enumerate(path.fact_list):
        if f.op not in ("lt", "le", "eq"):
            continue
        o = Order(path, positive, upto=n)
        x, y = f.args
        val = path.facts[f][0]
        if f.op == "lt" and (o.le(y, x) if val else o.lt(x, y)):
            return False
        if f.op == "le" and (o.lt(y, x) if val else o.le(x, y)):
            return False
        if f.op == "eq" and val and (o.lt(x, y) or o.lt(y, x)):
            return False
    return True
