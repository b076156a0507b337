"""
Common settings of the analyses: what is logging, what things are, and
helpers that read roles (slots, slot locks, SSE) off the code instead of
off names where possible.
"""

import ast

from .absint import (ArrO, Config, Const, Cls, DefO, Event, Fun, Inst, ListO, NONE, Ref,
                     Star, Term, Tup, FALSE, TRUE)
from .arrays import ARRAYS
from .source import AnalysisBroken, own_nodes

INF = Const(float("inf"))
NP = Term("Np", ())

#: Functions that only show or log things.
LOGGING = {
    "Reporter.progressChar": "none",
    "Population.showFailedConstraint": "none",
    "Population.__repr__": "pure",
    "Individual.__repr__": "pure",
    "ParameterManager.prettyValues": "pure",
    "ParameterManager.stringValue": "pure",
    "FManager.__repr__": "pure",
}


def config(**kw):
    opaque = dict(LOGGING)
    opaque.update(kw.pop("opaque", {}))
    kw.setdefault("rank", ARRAYS.rank)
    return Config(opaque=opaque, **kw)


def arrlen(it, term):
    """Parameter vectors have as many entries as there are parameters."""
    if isinstance(term, Term) and term.op == "list":
        return Const(len(term.args))
    if ARRAYS.rank(term) > 1:
        return None
    pop = getattr(it, "pop", None)
    return None if pop is None else it.getattr(pop, "Nd")


def same_pop(it, ref):
    return getattr(it, "pop", None)


def same_pm(it, ref):
    pop = getattr(it, "pop", None)
    return None if pop is None else it.getattr(pop, "pm")


ONE_POP = {("Individual", "p"): same_pop, ("Reporter", "p"): same_pop,
           ("DifferentialEvolution", "p"): same_pop, ("Reporter", "pm"): same_pm}


def opaque_sample(it, fun, args, kwargs, node, e):
    """Slots that differ from one another and from the excluded (see C13)."""
    n = args[0].v if args and isinstance(args[0], Const) else 1
    ks = [it.fresh("sampled") for _ in range(n)]
    for k in ks:
        it.assume(Term("lt", (k, NP)), True)
    for k in ks:
        for x in args[1:]:
            if not isinstance(x, Star):
                it.assume(it._eq(k, it.T(x)), False)
    for a in range(n):
        for b in range(a):
            it.assume(it._eq(ks[a], ks[b]), False)
    return ks[0] if n == 1 else Tup(ks)


def opaque_limit(it, fun, args, kwargs, node, e):
    return it.alloc(ArrO(Term("limited", (it.T(args[0]),))))


def opaque_shutdown(it, fun, args, kwargs, node, e):
    """Shutting down stops the run (see C09)."""
    it.setattr(fun.selfv, "running", FALSE, node)
    return NONE


def opaque_ranking(it, fun, args, kwargs, node, e):
    """The slots from best to worst, as of now (see C16)."""
    return Term("ranking", (it.T(fun.selfv), it.epoch))


def opaque_F(it, fun, args, kwargs, node, e):
    return Term("F", (it.uid_next(),))


# -- roles ------------------------------------------------------------------

class Roles:
    """Attribute names that play the roles the rules talk about."""

    def __init__(self, repo):
        self.repo = repo
        self.slots = self._slots()
        self.locks = self._locks()
        self.raw = self._raw()

    def _slots(self):
        """The list that Population.__getitem__ reads."""
        fi = self.repo.method("Population", "__getitem__")
        for n in self.repo.reached_nodes(fi):
            if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Attribute):
                return n.value.attr
        raise AnalysisBroken("Population.__getitem__ reads no list")

    def _locks(self):
        """The attribute of Population that DeferredLocks are put into."""
        for fi in self.repo.all_functions():
            if fi.cls is None or fi.cls.name != "Population":
                continue
            for n in own_nodes(fi.node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) \
                   and n.func.attr in ("append", "extend") and n.args \
                   and "DeferredLock(" in ast.unparse(n.args[0]) \
                   and isinstance(n.func.value, ast.Attribute):
                    return n.func.value.attr
        return "dLocks"

    def _raw(self):
        """The attribute in which an individual keeps its raw result."""
        fi = self.repo.prop("Individual", "SSE", "set")
        for n in self.repo.reached_nodes(fi):
            if isinstance(n, (ast.Assign, ast.AnnAssign)):
                for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                    if isinstance(t, ast.Attribute):
                        return t.attr
        raise AnalysisBroken("the SSE setter stores nothing")

    def types(self):
        return {("Population", self.slots): "list:Individual",
                ("Population", self.locks): "list:lock"}


def field_of(t):
    """(base, name) of a field term, through copies of it."""
    while isinstance(t, Term) and t.op in ("listv", "setv", "dictv", "listof"):
        t = t.args[0]
    if isinstance(t, Term) and t.op == "fld":
        return t.args[0], t.args[1]
    return None, None


def slot_key(term, name):
    """The index with which an element of the list attribute was reached."""
    if isinstance(term, Term) and term.op in ("item", "elem") and len(term.args) >= 2:
        if field_of(term.args[0])[1] == name:
            k = term.args[1]
            if term.op == "elem":
                return Term("nth", (term.args[0], k))
            return k
    return None


def granted(it, v, seen=None):
    """The locks that have been obtained once the Deferred v has fired."""
    o = it.obj(v)
    if not isinstance(o, DefO):
        return set()
    src = o.src
    out = set()
    if isinstance(src, tuple) and src and src[0] == "lock":
        out.add(src[1])
    elif isinstance(src, Event) and src.kind == "deferlist":
        if not it.truth_const(src.d["kwargs"].get("fireOnOneCallback")):
            for x in src.d["items"]:
                out |= granted(it, x)
    if isinstance(it.obj(o.value), DefO) and o.ok:
        out |= granted(it, o.value)
    return out


# -- individuals ---------------------------------------------------------------

def raw_of(it, ref, roles):
    i = it.inst(ref)
    if i is None:
        return None
    if roles.raw in i.fields:
        return it.T(i.fields[roles.raw])
    return None


def sse_alts(path, raw, before=None):
    """The terms that stand for the SSE of a raw result on a path."""
    if raw is None:
        return []
    if isinstance(raw, Const):
        if raw.v is None or (isinstance(raw.v, (int, float)) and not raw.v >= 0):
            return [INF]
        return [raw, Const(float(raw.v))]
    if path.fact(Term("is", (raw, NONE)), before) is True:
        return [INF]
    if path.fact(Term("lt", (raw, Const(0))), before) is True:
        return [INF]
    if path.fact(Term("truthy", (Term("np.isnan", (raw,)),)), before) is True:
        return [INF]
    return [raw]


def sse_less(path, a, b, before=None):
    """Whether SSE a < SSE b is known: True, False or None."""
    out = None
    for x in sse_alts(path, a, before):
        for y in sse_alts(path, b, before):
            if isinstance(x, Const) and isinstance(y, Const):
                return x.v < y.v
            if x == INF:
                return False
            r = path.fact(Term("lt", (x, y)), before)
            if r is not None:
                out = r
                if r:
                    return True
            le = path.fact(Term("le", (y, x)), before)
            if le is True:
                out = False
            elif le is False and is_number(path, x) and is_number(path, y):
                return True
    return out


def is_number(path, x):
    """Known not to be NaN: some comparison with it came out true."""
    if isinstance(x, Const):
        return x.v == x.v
    if field_of(x)[1] == "goalSSE":
        return True           # assumed
    return path.fact_any(lambda t, v: v is True and t.op in ("lt", "le", "eq") and x in t.args)


def fatal(path, raw, before=None):
    """Whether a raw result is known to be negative."""
    if isinstance(raw, Const):
        return isinstance(raw.v, (int, float)) and raw.v < 0
    if raw is None:
        return None
    if path.fact(Term("is", (raw, NONE)), before) is True:
        return False
    return path.fact(Term("lt", (raw, Const(0))), before)


def running_false(path, obj, name, before=None):
    """Whether some read of obj.running was known to be false."""
    lim = len(path.fact_list) if before is None else before.nf
    for a in path.fact_list[:lim]:
        if a.op in ("truthy", "is") and isinstance(a.args[0], Term) \
           and a.args[0].op == "fld" and a.args[0].args[0] == obj \
           and a.args[0].args[1] == name:
            val = path.facts[a][0]
            if a.op == "truthy" and val is False:
                return True
            if a.op == "is" and a.args[1] == FALSE and val is True:
                return True
    return False
