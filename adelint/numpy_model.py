"""
What functions of numpy do to arrays of known content, written as source that
is analysed along with its callers. What it builds on is in narr.
"""

from .source import ModuleInfo

TEXT = '''
import math
import numpy as np

def zeros_like(a, dtype=None): return np.zeros(np.shape(a), dtype=dtype)

def ones_like(a, dtype=None): return np.ones(np.shape(a), dtype=dtype)

def empty_like(a, dtype=None): return np.empty(np.shape(a), dtype=dtype)

def full_like(a, fill_value, dtype=None): return np.full(np.shape(a), fill_value, dtype=dtype)

def eye(n, m=None, k=0, dtype=None):
    if m is None: m = n
    return np.array([[1 if c - r == k else 0 for c in range(m)] for r in range(n)], dtype=dtype)

def identity(n, dtype=None): return eye(n, dtype=dtype)

def diagonal(a, offset=0):
    a = np.asarray(a)
    n, m = a.shape
    return np.array([a[r, r + offset] for r in range(n) if 0 <= r + offset < m])

def diag(a, k=0):
    a = np.asarray(a)
    if a.ndim == 2: return diagonal(a, k)
    n = len(a) + abs(k)
    r = np.zeros((n, n))
    for j in range(len(a)): r[j + max(0, -k), j + max(0, k)] = a[j]
    return r

def trace(a): return np.sum(diagonal(a))

def fill_diagonal(a, x):
    for k in range(min(a.shape)): a[k, k] = x

def triu(a, k=0):
    a = np.array(a)
    for r in range(a.shape[0]):
        for c in range(a.shape[1]):
            if c - r < k: a[r, c] = 0
    return a

def tril(a, k=0):
    a = np.array(a)
    for r in range(a.shape[0]):
        for c in range(a.shape[1]):
            if c - r > k: a[r, c] = 0
    return a

def triu_indices(n, k=0, m=None):
    at = [(r, c) for r in range(n) for c in range(n if m is None else m) if c - r >= k]
    return np.array([x[0] for x in at], dtype=int), np.array([x[1] for x in at], dtype=int)

def tril_indices(n, k=0, m=None):
    at = [(r, c) for r in range(n) for c in range(n if m is None else m) if c - r <= k]
    return np.array([x[0] for x in at], dtype=int), np.array([x[1] for x in at], dtype=int)

def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None):
    parts = num - 1 if endpoint else num
    step = (stop - start) / parts if parts else stop - start
    xs = [start + k * step for k in range(num)]
    if endpoint and num > 1: xs[-1] = stop
    a = np.array(xs, dtype=dtype)
    return (a, step) if retstep else a

def logspace(start, stop, num=50, endpoint=True, base=10.0):
    return np.power(base, linspace(start, stop, num, endpoint))

def geomspace(start, stop, num=50, endpoint=True):
    return np.power(10.0, linspace(np.log10(start), np.log10(stop), num, endpoint))

def clip(a, a_min=None, a_max=None):
    if a_min is not None: a = np.maximum(a, a_min)
    if a_max is not None: a = np.minimum(a, a_max)
    return a

def reshape(a, shape): return np.asarray(a).reshape(shape)

def count_nonzero(a, axis=None): return np.sum(np.asarray(a) != 0, axis=axis)

def argwhere(a):
    a = np.asarray(a)
    at = np.nonzero(a)
    return np.array([[x[k] for x in at] for k in range(len(at[0]))], dtype=int)

def dot(a, b):
    a = np.asarray(a)
    b = np.asarray(b)
    if a.ndim == 0 or b.ndim == 0: return a * b
    if a.shape[-1] != b.shape[0 if b.ndim == 1 else -2]: raise ValueError
    if a.ndim == 1 and b.ndim == 1: return np.sum(a * b)
    if a.ndim == 1: return np.array([np.sum(a * b[:, k]) for k in range(b.shape[1])])
    if b.ndim == 1: return np.array([np.sum(a[k] * b) for k in range(a.shape[0])])
    return np.array([[np.sum(a[j] * b[:, k]) for k in range(b.shape[1])]
                     for j in range(a.shape[0])])

def matmul(a, b): return dot(a, b)

def inner(a, b): return np.sum(np.asarray(a) * np.asarray(b))

def vdot(a, b): return np.sum(np.ravel(a) * np.ravel(b))

def outer(a, b): return np.ravel(a)[:, None] * np.ravel(b)

def einsum(how, *xs):
    if how.replace(" ", "") in ("i,i->", "i,i"): return inner(*xs)
    if how.replace(" ", "") in ("ij,j->i", "ij,j", "ij,jk->ik", "ij,jk"): return dot(*xs)
    if how.replace(" ", "") in ("ij,ij->i",): return np.sum(xs[0] * xs[1], axis=1)
    if how.replace(" ", "") in ("i,j->ij", "i,j"): return outer(*xs)
    return np.einsum_of(how, *xs)

def cumulated(f, a, axis):
    a = np.array(a)
    if axis is None: a = a.ravel()
    if a.ndim > 1 and axis in (1, -1): return cumulated(f, a.T, 0).T
    for k in range(1, len(a)): a[k] = f(a[k - 1], a[k])
    return a

def cumsum(a, axis=None, dtype=None): return cumulated(np.add, a, axis)

def cumprod(a, axis=None, dtype=None): return cumulated(np.multiply, a, axis)

def diff(a, n=1, axis=-1):
    a = np.asarray(a)
    for _ in range(n):
        if axis in (0, -a.ndim): a = a[1:] - a[:-1]
        else: a = a[:, 1:] - a[:, :-1]
    return a

def ediff1d(a): return diff(np.ravel(a))

def ptp(a, axis=None): return np.max(a, axis=axis) - np.min(a, axis=axis)

def logical_not(a): return ~(np.asarray(a) != 0) if np.ndim(a) else not a

def array_equal(a, b):
    a = np.asarray(a)
    b = np.asarray(b)
    return a.shape == b.shape and bool(np.all(a == b))

def array_equiv(a, b): return bool(np.all(np.asarray(a) == np.asarray(b)))

def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    if np.ndim(a) == 0 and np.ndim(b) == 0:
        return a == b or abs(a - b) <= atol + rtol * abs(b)
    a = np.asarray(a)
    b = np.asarray(b)
    return np.logical_or(a == b, np.abs(a - b) <= atol + rtol * np.abs(b))

def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return bool(np.all(isclose(a, b, rtol, atol)))

def copyto(a, b, where=None):
    if where is None: a[...] = b
    else: a[where] = np.broadcast_to(b, a.shape)[where]

def put(a, at, values):
    at = np.ravel(at)
    values = np.ravel(values)
    flat = a.reshape(-1)
    for k in range(len(at)): flat[at[k]] = values[k % len(values)]

def place(a, mask, values):
    at = np.flatnonzero(mask)
    values = np.ravel(values)
    flat = a.reshape(-1)
    for k in range(len(at)): flat[at[k]] = values[k % len(values)]

def putmask(a, mask, values):
    mask = np.ravel(mask)
    values = np.ravel(values)
    flat = a.reshape(-1)
    for k in range(len(mask)):
        if mask[k]: flat[k] = values[k % len(values)]

def take(a, indices, axis=None):
    a = np.asarray(a)
    if axis is None: return a.ravel()[np.asarray(indices) if np.ndim(indices) else indices]
    if axis in (0, -a.ndim): return a[indices]
    return a[:, indices]

def take_along_axis(a, indices, axis):
    if a.ndim == 1: return a[indices]
    if axis == 0: return np.array([[a[indices[r, c], c] for c in range(a.shape[1])]
                                   for r in range(len(indices))])
    return np.array([a[r][indices[r]] for r in range(len(a))])

def compress(mask, a, axis=None):
    a = np.asarray(a)
    at = np.flatnonzero(mask)
    if axis is None: return a.ravel()[at]
    return a[at] if axis == 0 else a[:, at]

def extract(mask, a): return np.ravel(a)[np.flatnonzero(mask)]

def select(masks, values, default=0):
    r = default
    for k in range(len(masks) - 1, -1, -1): r = np.where(masks[k], values[k], r)
    return r

def choose(which, alternatives):
    which = np.asarray(which)
    parts = [np.broadcast_to(x, which.shape).ravel() for x in alternatives]
    flat = which.ravel()
    return np.array([parts[flat[k]][k] for k in range(flat.size)]).reshape(which.shape)

def digitize(x, bins, right=False):
    return np.searchsorted(bins, x, side="left" if right else "right")

def nan_to_num(a, nan=0.0):
    if np.ndim(a) == 0: return nan if np.isnan(a) else a
    return np.where(np.isnan(a), nan, a)

def valid(a):
    a = np.ravel(a)
    return a[~np.isnan(a)]

def nansum(a): return np.sum(valid(a))

def nanmean(a): return np.mean(valid(a))

def nanmin(a): return np.min(valid(a))

def nanmax(a): return np.max(valid(a))

def nanargmin(a): return np.argmin(np.where(np.isnan(a), np.inf, a))

def nanargmax(a): return np.argmax(np.where(np.isnan(a), -np.inf, a))

def fmin(a, b):
    return np.where(np.isnan(a), b, np.where(np.isnan(b), a, np.minimum(a, b)))

def fmax(a, b):
    return np.where(np.isnan(a), b, np.where(np.isnan(b), a, np.maximum(a, b)))

def lexsort(keys):
    keys = list(keys)[::-1]
    at = list(range(len(keys[0])))
    at.sort(key=lambda k: tuple([x[k] for x in keys]))
    return np.array(at, dtype=int)

def partition(a, k): return np.sort(a)

def argpartition(a, k): return np.argsort(a)

def fromiter(xs, dtype=None, count=-1):
    xs = list(xs)
    return np.array(xs if count < 0 else xs[:count], dtype=dtype)

def tile(a, reps):
    a = np.asarray(a)
    reps = (reps,) if np.ndim(reps) == 0 else tuple(reps)
    if len(reps) == 1 and a.ndim == 1: return np.concatenate([a] * reps[0])
    if len(reps) == 1: reps = (1,) + reps
    a = np.atleast_2d(a)
    wide = np.concatenate([a] * reps[1], axis=1)
    return np.concatenate([wide] * reps[0], axis=0)

def repeat(a, repeats, axis=None):
    a = np.asarray(a)
    if axis is None: a = a.ravel()
    if axis in (1, -1) and a.ndim == 2: return repeat(a.T, repeats, 0).T
    n = [repeats] * len(a) if np.ndim(repeats) == 0 else list(repeats)
    return np.array([a[k] for k in range(len(a)) for _ in range(n[k])])

def roll(a, shift, axis=None):
    a = np.asarray(a)
    if axis is None and a.ndim > 1: return roll(a.ravel(), shift).reshape(a.shape)
    if axis in (1, -1) and a.ndim == 2: return roll(a.T, shift, 0).T
    n = len(a)
    return np.array([a[(k - shift) % n] for k in range(n)])

def flip(a, axis=None):
    a = np.asarray(a)
    if a.ndim == 1 or axis == 0: return a[::-1]
    return a[::-1, ::-1] if axis is None else a[:, ::-1]

def flipud(a): return np.asarray(a)[::-1]

def fliplr(a): return np.asarray(a)[:, ::-1]

def split(a, parts, axis=0): return array_split(a, parts, axis)

def array_split(a, parts, axis=0):
    a = np.asarray(a)
    if np.ndim(parts) == 0:
        n, more = divmod(len(a), parts)
        at = [k * n + min(k, more) for k in range(1, parts)]
    else:
        at = list(parts)
    edges = [0] + at + [len(a)]
    return [a[x:y] for x, y in zip(edges[:-1], edges[1:])]

def atleast_1d(a):
    return np.array([a]) if np.ndim(a) == 0 else np.asarray(a)

def atleast_2d(a):
    a = atleast_1d(a)
    return a[None, :] if a.ndim == 1 else a

def expand_dims(a, axis):
    a = np.asarray(a)
    if axis < 0: axis += a.ndim + 1
    shape = list(a.shape)
    shape.insert(axis, 1)
    return a.reshape(tuple(shape))

def swapaxes(a, i, j): return np.transpose(a)

def moveaxis(a, i, j): return np.transpose(a) if i != j else a

def broadcast_to(a, shape): return np.where(np.ones(shape, dtype=bool), a, 0)

def broadcast_arrays(*xs):
    one = xs[0]
    for x in xs[1:]: one = np.where(True, one, x)
    return [broadcast_to(x, np.shape(one)) for x in xs]

def ndindex(*shape):
    if len(shape) == 1 and isinstance(shape[0], tuple): shape = shape[0]
    if not shape: yield ()
    else:
        for k in range(shape[0]):
            for rest in ndindex(*shape[1:]): yield (k,) + rest

def ndenumerate(a):
    a = np.asarray(a)
    for k in ndindex(*a.shape): yield k, a[k]

def unravel_index(k, shape):
    out = []
    for n in reversed(shape):
        out.insert(0, k % n)
        k = k // n
    return tuple(out)

def ravel_multi_index(at, shape):
    k = 0
    for i, n in zip(at, shape): k = k * n + i
    return k

def norm(a, ord=None, axis=None):
    if ord == 1: return np.sum(np.abs(a), axis=axis)
    if ord is not None and ord == np.inf: return np.max(np.abs(a), axis=axis)
    return np.sqrt(np.sum(np.square(a), axis=axis))

def hypot(a, b): return np.sqrt(np.square(a) + np.square(b))

class vectorize(object):
    def __init__(self, pyfunc, otypes=None, **kw):
        self.f = pyfunc
    def __call__(self, *args):
        if all([np.ndim(x) == 0 for x in args]): return self.f(*args)
        xs = broadcast_arrays(*args)
        flat = [x.ravel() for x in xs]
        r = [self.f(*[x[k] for x in flat]) for k in range(flat[0].size)]
        return np.array(r).reshape(xs[0].shape)

def apply_along_axis(f, axis, a, *args, **kw):
    a = np.asarray(a)
    if a.ndim == 1: return f(a, *args, **kw)
    if axis == 0: a = a.T
    r = np.array([f(x, *args, **kw) for x in a])
    return r.T if axis == 0 and r.ndim == 2 else r

def interp(x, xp, fp, left=None, right=None):
    if np.ndim(x): return np.array([interp(y, xp, fp, left, right) for y in x])
    n = len(xp)
    if x < xp[0]: return fp[0] if left is None else left
    if x > xp[n - 1]: return fp[n - 1] if right is None else right
    for k in range(1, n):
        if x <= xp[k]:
            return fp[k - 1] + (x - xp[k - 1]) * (fp[k] - fp[k - 1]) / (xp[k] - xp[k - 1])
    return fp[n - 1]

def average(a, axis=None, weights=None):
    if weights is None: return np.mean(a, axis=axis)
    return np.sum(np.asarray(a) * weights, axis=axis) / np.sum(weights)

def ix_(*xs):
    xs = [np.flatnonzero(x) if len(x) and isinstance(x[0], bool) else np.asarray(x) for x in xs]
    n = len(xs)
    return tuple([np.reshape(x, tuple([len(x) if k == j else 1 for j in range(n)]))
                  for k, x in enumerate(xs)])

def bincount(a, weights=None, minlength=0):
    n = max([int(np.max(a)) + 1 if len(a) else 0, minlength])
    return np.array([np.sum(np.asarray(a) == k) for k in range(n)], dtype=int)

def pad(a, width, mode="constant", constant_values=0):
    a = np.asarray(a)
    if np.ndim(width) == 0: lo, hi = width, width
    elif np.ndim(width) == 2: lo, hi = width[0]
    elif len(width) == 1: lo, hi = width[0], width[0]
    else: lo, hi = width
    x, y = constant_values, constant_values
    if mode == "edge": x, y = a[0], a[-1]
    return np.concatenate([[x] * lo, a, [y] * hi])

def resize(a, shape):
    a = np.ravel(a)
    n = shape if np.ndim(shape) == 0 else int(np.prod(shape))
    return np.array([a[k % len(a)] for k in range(n)]).reshape(shape)

def heaviside(x, y): return np.where(x == 0, y, np.where(x > 0, 1.0, 0.0))

def mod(a, b): return a % b if np.ndim(a) == 0 else np.asarray(a) % b

def remainder(a, b): return mod(a, b)

def floor_divide(a, b): return a // b if np.ndim(a) == 0 else np.asarray(a) // b

def float_power(a, b): return np.power(a, b)

def block(xs): return np.concatenate(xs)

def dstack(xs):
    xs = [np.atleast_2d(x) for x in xs]
    return np.array([[[x[r, c] for x in xs] for c in range(xs[0].shape[1])]
                     for r in range(xs[0].shape[0])])

def nextafter(x, y):
    return math.nextafter(x, y)

def isposinf(x): return np.asarray(x) == np.inf if np.ndim(x) else x == np.inf

def isneginf(x): return np.asarray(x) == -np.inf if np.ndim(x) else x == -np.inf

def delete(a, at, axis=None):
    a = np.asarray(a)
    if axis is None: a = a.ravel()
    if axis in (1, -1) and a.ndim == 2: return delete(a.T, at, 0).T
    n = len(a)
    if isinstance(at, slice): gone = list(range(n))[at]
    elif np.ndim(at) == 0: gone = [at]
    else:
        at = np.asarray(at)
        if at.size == n and n and isinstance(at[0], bool): gone = np.flatnonzero(at).tolist()
        else: gone = at.tolist()
    for k in gone:
        if not -n <= k < n: raise IndexError
    gone = [k % n for k in gone]
    return a[[k for k in range(n) if k not in gone]]

def insert(a, at, values, axis=None):
    a = np.asarray(a)
    if axis is None: a = a.ravel()
    if axis in (1, -1) and a.ndim == 2: return insert(a.T, at, values, 0).T
    n = len(a)
    if at < -n or at > n: raise IndexError
    if at < 0: at += n
    if a.ndim == 1: new = np.ravel(values)
    elif np.ndim(values) < a.ndim: new = np.broadcast_to(values, a.shape[1:])[None, :]
    else: new = np.asarray(values)
    return np.concatenate([a[:at], new, a[at:]])

def append(a, values, axis=None):
    if axis is None: return np.concatenate([np.ravel(a), np.ravel(values)])
    return np.concatenate([a, values], axis=axis)

class finfo(object):
    def __init__(self, dtype=float):
        self.eps = 2.220446049250313e-16
        self.max = 1.7976931348623157e+308
        self.min = -1.7976931348623157e+308
        self.tiny = 2.2250738585072014e-308

class iinfo(object):
    def __init__(self, dtype=int):
        self.max = 9223372036854775807
        self.min = -9223372036854775808

def isreal(x): return True

def iterable(x): return np.ndim(x) > 0

def isscalar(x): return np.ndim(x) == 0
'''

MODULE = ModuleInfo("(numpy)", "(numpy)", TEXT)
ALIAS = {"linalg.norm": "norm"}
METHODS = {"clip", "dot", "cumsum", "cumprod", "ptp", "take", "compress", "choose", "repeat",
           "diagonal", "trace", "swapaxes", "put", "partition", "argpartition"}


def find(short):
    """The class or function of a name, or None."""
    name = ALIAS.get(short, short)
    return MODULE.classes.get(name) or MODULE.functions.get(name)
