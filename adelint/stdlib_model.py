"""
What functions of the standard library do, written as source that is
analysed along with its callers.
"""

import ast
import builtins
import math
import struct

from .source import ModuleInfo

TEXT = '''
def takewhile(f, xs):
    for x in xs:
        if not f(x): return
        yield x

def dropwhile(f, xs):
    on = False
    for x in xs:
        if on or not f(x):
            on = True
            yield x

def filterfalse(f, xs):
    for x in xs:
        if not (x if f is None else f(x)): yield x

def compress(xs, flags):
    for x, flag in zip(xs, flags):
        if flag: yield x

def starmap(f, xs):
    for x in xs: yield f(*x)

def accumulate(xs, func=None, initial=None):
    first = initial is None
    total = initial
    if not first: yield total
    for x in xs:
        if first: total = x
        elif func is None: total = total + x
        else: total = func(total, x)
        first = False
        yield total

def pairwise(xs):
    first = True
    last = None
    for x in xs:
        if not first: yield (last, x)
        last = x
        first = False

def islice(xs, *args):
    lo, hi, step = 0, None, 1
    if len(args) == 1: hi = args[0]
    elif len(args) == 2: lo, hi = args
    else: lo, hi, step = args
    if lo is None: lo = 0
    if step is None: step = 1
    n = 0
    if hi is not None and lo >= hi: return
    for x in xs:
        if n >= lo and (n - lo) % step == 0: yield x
        n += 1
        if hi is not None and n >= hi: return

def count(start=0, step=1):
    while True:
        yield start
        start = start + step

def repeat(x, times=None):
    if times is None:
        while True: yield x
    for k in range(times): yield x

def cycle(xs):
    xs = list(xs)
    while xs:
        for x in xs: yield x

def product(*pools, **kw):
    pools = [list(x) for x in pools] * kw.get("repeat", 1)
    result = [()]
    for pool in pools:
        result = [x + (y,) for x in result for y in pool]
    for x in result: yield x

def permutations(xs, r=None):
    xs = list(xs)
    n = len(xs) if r is None else r
    for ks in product(range(len(xs)), repeat=n):
        if len(set(ks)) == n: yield tuple([xs[k] for k in ks])

def combinations(xs, r):
    xs = list(xs)
    for ks in product(range(len(xs)), repeat=r):
        if list(ks) == sorted(set(ks)): yield tuple([xs[k] for k in ks])

def combinations_with_replacement(xs, r):
    xs = list(xs)
    for ks in product(range(len(xs)), repeat=r):
        if list(ks) == sorted(ks): yield tuple([xs[k] for k in ks])

def zip_longest(*pools, **kw):
    pools = [list(x) for x in pools]
    for k in range(max([len(x) for x in pools])):
        yield tuple([x[k] if k < len(x) else kw.get("fillvalue") for x in pools])

def groupby(xs, key=None):
    groups = []
    for x in xs:
        k = x if key is None else key(x)
        if groups and groups[-1][0] == k: groups[-1][1].append(x)
        else: groups.append((k, [x]))
    for x in groups: yield x

def from_iterable(xss):
    for xs in xss:
        for x in xs: yield x

def tee(xs, n=2):
    xs = list(xs)
    return tuple([iter(xs) for k in range(n)])

def reduce(f, xs, *initial):
    have = len(initial) > 0
    total = initial[0] if have else None
    for x in xs:
        total = f(total, x) if have else x
        have = True
    if not have: raise TypeError("reduce() of empty sequence with no initial value")
    return total

class itemgetter(object):
    def __init__(self, *keys): self.keys = keys
    def __call__(self, x):
        if len(self.keys) == 1: return x[self.keys[0]]
        return tuple([x[k] for k in self.keys])

class attrgetter(object):
    def __init__(self, *names): self.names = names
    def one(self, x, name):
        for part in name.split("."): x = getattr(x, part)
        return x
    def __call__(self, x):
        if len(self.names) == 1: return self.one(x, self.names[0])
        return tuple([self.one(x, name) for name in self.names])

class methodcaller(object):
    def __init__(self, name, *args, **kw):
        self.name = name
        self.args = args
        self.kw = kw
    def __call__(self, x): return getattr(x, self.name)(*self.args, **self.kw)

def op_add(a, b): return a + b
def op_sub(a, b): return a - b
def op_mul(a, b): return a * b
def op_truediv(a, b): return a / b
def op_floordiv(a, b): return a // b
def op_mod(a, b): return a % b
def op_pow(a, b): return a ** b
def op_lt(a, b): return a < b
def op_le(a, b): return a <= b
def op_gt(a, b): return a > b
def op_ge(a, b): return a >= b
def op_eq(a, b): return a == b
def op_ne(a, b): return a != b
def op_neg(a): return -a
def op_not_(a): return not a
def op_truth(a): return bool(a)
def op_is_(a, b): return a is b
def op_is_not(a, b): return a is not b
def op_contains(a, b): return b in a
def op_getitem(a, b): return a[b]
def op_setitem(a, b, c): a[b] = c
def op_delitem(a, b): del a[b]
def op_and_(a, b): return a & b
def op_or_(a, b): return a | b
def op_abs(a): return abs(a)
def op_concat(a, b): return a + b

def bisect_left(a, x, lo=0, hi=None):
    n = len(a) if hi is None else hi
    k = lo
    while k < n and a[k] < x: k += 1
    return k

def bisect_right(a, x, lo=0, hi=None):
    n = len(a) if hi is None else hi
    k = lo
    while k < n and not x < a[k]: k += 1
    return k

def insort_left(a, x): a.insert(bisect_left(a, x), x)
def insort_right(a, x): a.insert(bisect_right(a, x), x)

def heappush(h, x): insort_right(h, x)
def heappop(h):
    k = h.index(min(h))
    return h.pop(k)
def heapify(h): h.sort()
def nsmallest(n, xs, key=None): return sorted(xs, key=key)[:n]
def nlargest(n, xs, key=None): return sorted(xs, key=key, reverse=True)[:n]

class suppress(object):
    def __init__(self, *kinds): self.kinds = kinds
    def __enter__(self): return None
    def __exit__(self, kind, value, tb):
        return kind is not None and issubclass(kind, self.kinds)

class closing(object):
    def __init__(self, x): self.x = x
    def __enter__(self): return self.x
    def __exit__(self, *args): self.x.close()

class nullcontext(object):
    def __init__(self, x=None): self.x = x
    def __enter__(self): return self.x
    def __exit__(self, *args): return None

class namedtuple_(object):
    def __init__(self, values): self._values = values
    def __iter__(self): return iter(self._values)
    def __len__(self): return len(self._values)
    def __getitem__(self, k): return self._values[k]
    def __eq__(self, o): return tuple(self) == tuple(o)
    def __ne__(self, o): return tuple(self) != tuple(o)
    def __lt__(self, o): return tuple(self) < tuple(o)
    def __contains__(self, x): return x in self._values
    def _asdict(self): return dict(zip(self._fields, self._values))
'''
MODULE = ModuleInfo("(standard library)", "(standard library)", TEXT)
KNOWN = {}
for _m, _names in {
        "itertools": "takewhile dropwhile filterfalse compress starmap accumulate pairwise islice "
                     "count repeat cycle product permutations combinations "
                     "combinations_with_replacement zip_longest groupby tee",
        "functools": "reduce",
        "operator": "itemgetter attrgetter methodcaller",
        "bisect": "bisect_left bisect_right insort_left insort_right",
        "heapq": "heappush heappop heapify nsmallest nlargest",
        "contextlib": "suppress closing nullcontext"}.items():
    for _n in _names.split():
        KNOWN["%s.%s" % (_m, _n)] = _n
KNOWN.update({"itertools.chain.from_iterable": "from_iterable", "bisect.bisect": "bisect_right",
              "bisect.insort": "insort_right", "itertools.ifilter": "filterfalse"})
del KNOWN["itertools.ifilter"]
for _n in MODULE.functions:
    if _n.startswith("op_"):
        KNOWN["operator." + _n[3:]] = _n

_tuples = {}


def named_tuple(name, fields):
    """The class of named tuples with the given fields."""
    key = (name, tuple(fields))
    if key not in _tuples:
        text = "%s\nclass %s(namedtuple_):\n    _fields = %r\n    def __init__(self, %s):\n" % (
            TEXT[TEXT.index("class namedtuple_"):], name, tuple(fields), ", ".join(fields))
        text += "".join("        self.%s = %s\n" % (f, f) for f in fields)
        text += "        self._values = (%s,)\n" % ", ".join(fields)
        text += "    def _replace(self, **kw):\n        return %s(*[kw.get(f, getattr(self, f)) " \
                "for f in self._fields])\n" % name
        _tuples[key] = ModuleInfo("(standard library)", "(standard library)", text).classes[name]
    return _tuples[key]


#: Functions of constants
FOLDED = {"math." + n: getattr(math, n) for n in (
    "sqrt floor ceil trunc isnan isinf isfinite isclose log log10 log2 log1p exp expm1 fabs hypot "
    "pow sin cos tan asin acos atan atan2 copysign fmod gcd radians degrees nextafter remainder").split()}
FOLDED.update({"builtins." + n: getattr(builtins, n) for n in (
    "round divmod pow ord chr hex bin oct ascii format").split()})
FOLDED.update({"struct." + n: getattr(struct, n) for n in "pack unpack calcsize".split()})


def is_subclass(a, b):
    """Is the built-in exception named a one of those named b? None if either isn't built in."""
    x, y = getattr(builtins, a, None), getattr(builtins, b, None)
    if isinstance(x, type) and isinstance(y, type):
        return issubclass(x, y)
    return None


BITS = {ast.BitAnd: lambda a, b: a & b, ast.BitOr: lambda a, b: a | b,
        ast.BitXor: lambda a, b: a ^ b, ast.LShift: lambda a, b: a << b,
        ast.RShift: lambda a, b: a >> b}
