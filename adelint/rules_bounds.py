"""
Bounds and constraints: C04, C05.

The parameter manager is given two parameters with unknown bounds lo0 <=
hi0 and lo1 <= hi1, and two constraints of unknown verdict; what reaches
the evaluation function is then judged entry by entry.
"""

import ast

from .absint import (ArrO, Cls, Const, DictO, Fun, Inst, ListO, NONE, Ref, Term, Tup,
                     strip_float, untag)
from .arrays import ARRAYS as A, Range, is_unit
from .core import check
from .model import NP, ONE_POP, Roles, arrlen, config, field_of
from .rules_challenge import Challenge, base_opaque, callers_of, top_of
from .rules_vectors import RANDOM, eval_args
from .setup_model import Setup
from .source import own_nodes

ND = 2
NAMES = ["p%d" % (ND - k) for k in range(ND)]
USER = [Term("sym", ("c0",)), Term("sym", ("c1",))]


def sym(*a):
    return Term("sym", a)


def bound(k, high, tag=""):
    return sym(("hi%d" if high else "lo%d") % k + tag)


def bounds_list(it, tag=""):
    return it.alloc(ListO([Tup([bound(k, 0, tag), bound(k, 1, tag)]) for k in range(ND)]))


def build_pm(it, tag="", constraints=USER, names=NAMES):
    """A parameter manager as the constructor makes it."""
    for k in range(ND):
        it.assume(Term("lt", (bound(k, 0, tag), bound(k, 1, tag))), True)
    for c in USER:
        it.assume(Term("hasattr", (c, Const("__iter__"))), False)
        it.assume(Term("truthy", (c,)), True)
    cons = it.alloc(ListO(list(constraints))) if isinstance(constraints, list) \
        else constraints
    names = it.alloc(ListO([Const(n) for n in names]))
    return it.construct(Cls(it.repo.cls("ParameterManager")),
                        [names, bounds_list(it, tag), cons], {}, None)


def pm_of(it, ref):
    if getattr(it, "pm", None) is None:
        it.pm = build_pm(it)
    return it.pm


def prepare(it):
    it.pm = None
    pm_of(it, None)


ALIAS = {**ONE_POP, ("Population", "Nd"): lambda it, ref: Const(ND),
         ("Population", "pm"): pm_of, ("Reporter", "pm"): pm_of}


# -- what arrays are ----------------------------------------------------------

def member_values(roles):
    """Entries of the values of an individual that is in a slot."""
    def inside(t):
        if not (isinstance(t, Term) and t.op == "item"):
            return False
        t = t.args[0]
        if field_of(t)[1] != "values":
            return False
        i = t.args[0]
        return isinstance(i, Term) and i.op in ("item", "elem") and \
            field_of(i.args[0])[1] == roles.slots
    return inside


def entries(t):
    return [A.entry(t, k) for k in range(ND)]


class BChallenge(Challenge):
    def __init__(self, ctx):
        op = base_opaque(DifferentialEvolution__crossover=None,
                         Population__lock="deferred", Population__release="none",
                         History__add="none", History__notInPop="none",
                         ParameterManager__passesConstraints=None,
                         ParameterManager__limit=None)
        super().__init__(ctx, op, name="DifferentialEvolution.challenge (two parameters)",
                         alias=ALIAS, ext=RANDOM, user_sync=True, defer_fail=False,
                         prepare=prepare)


class BSetup(Setup):
    def __init__(self, ctx, blank=None, tries=2):
        alias = dict(ALIAS)
        alias[("Population", "maxTries")] = lambda it, ref: Const(tries)
        super().__init__(ctx, {"ParameterManager.passesConstraints": None,
                               "ParameterManager.limit": None,
                               "ParameterManager.fromUnity": None,
                               "History.add": "none"},
                         name="Population.setup (two parameters)", alias=alias,
                         user_sync=True, defer_fail=False, prepare=prepare, blank=blank)

    evals = Challenge.evals


def evaluators(ctx):
    """Functions of the package with a call that evaluates something."""
    out = {}
    for fi in ctx.repo.all_functions():
        for n in own_nodes(fi.node):
            if isinstance(n, ast.Call):
                for x in [n.func] + list(n.args):
                    if isinstance(x, ast.Attribute) and x.attr in ("evaluate", "evalFunc"):
                        out.setdefault(fi, n)
                    elif isinstance(x, ast.Attribute) and x.attr == "func" and (
                            top_of(fi).cls is not None and top_of(fi).cls.name ==
                            "Population" or isinstance(x.value, ast.Attribute)
                            and x.value.attr in ("p", "population")):
                        out.setdefault(fi, n)
    return out


def entered(paths):
    out = set()
    for p in paths:
        for e in p.events:
            for f in e.stack:
                out.add(f.qual)
    return out


@check("C04", {
    "challenger-in-bounds": "each entry of what a challenge evaluates lies within its bounds",
    "initial-in-bounds": "each entry of what setup evaluates lies within its bounds",
    "limit": "limiting any vector gives entries within the bounds given",
    "loaded-in-bounds": "each member of a population loaded with new bounds lies within them",
    "known-evaluators": "nothing else in the package evaluates anything",
    "bounds-kept": "using the bounds does not change them",
})
def c04(ctx):
    ch = BChallenge(ctx)
    inside = member_values(ch.roles)
    n = 0
    for p in ch.paths:
        bounds_kept(ctx, p, ch.fi.qual)
        for e, t in eval_args(ch, p):
            n += 1
            judge(ctx, "challenger-in-bounds", "evaluation by " + ch.fi.qual, p, e, t, inside)
    ctx.need(n, "no path of a challenge evaluates anything")
    st = BSetup(ctx)
    n = 0
    for p in st.paths:
        bounds_kept(ctx, p, st.fi.qual)
        for e, t in eval_args(st, p):
            n += 1
            judge(ctx, "initial-in-bounds", "evaluation by " + st.fi.qual, p, e, t, None)
    ctx.need(n, "no path of setup evaluates anything")
    done = entered(ch.paths) | entered(st.paths)
    sites = evaluators(ctx)
    ctx.count_sites(len(sites), [f.qual for f in sites])
    for fi, n in sites.items():
        ctx.ob("known-evaluators", fi.qual, fi.qual in done or not callers_of(
            ctx, top_of(fi)) and top_of(fi).qual not in PUBLIC,
               "%s:%d %s" % (fi.path, n.lineno, fi.qual),
               "an evaluation that neither setup nor a challenge leads to")
    limit_alone(ctx)
    load(ctx)
    ctx.assume("each lower bound is below its upper bound")
    ctx.assume("lo + (hi - lo)*u lies between lo and hi for u from 0 to 1 (rounding aside); "
               "what setup draws is limited on top of that")


#: Entry points that run without being called by name
PUBLIC = {"DifferentialEvolution.__call__", "Reporter.__call__"}


def judge(ctx, rule, key, p, e, t, inside, tag=""):
    for k, x in enumerate(entries(t)):
        r = Range(A, p, bound(k, 0, tag), bound(k, 1, tag), inside, is_unit)
        ctx.ob(rule, key, r.within(x), e,
               lambda x=x, k=k: "parameter %d is %r, not known to lie between %r and %r" % (
                   k, x, bound(k, 0, tag), bound(k, 1, tag)), p)


def bounds_kept(ctx, p, who):
    pm = p.it.inst(getattr(p.it, "pm", None))
    if pm is None:
        return
    mine = {p.it.root_of(v) for v in pm.fields.values()
            if isinstance(v, Ref) and isinstance(p.it.obj(v), ArrO)}
    bad = [e for e in p.find("arrset") if e.d["root"] in mine and e.fi is not None
           and "ParameterManager.__init__" not in [f.qual for f in e.stack]]
    ctx.ob("bounds-kept", "by " + who, not bad, bad[0] if bad else "",
           "an array of the parameter manager is changed in place", p)


def limit_alone(ctx):
    fi = ctx.repo.method("ParameterManager", "limit")

    def driver(it):
        it.pop = it.sym_inst("Population", "p")
        prepare(it)
        v = it.alloc(ArrO(sym("vec"), sym("vec")))
        return it.call_fun(Fun(fi, None, it.pm), [v], {})
    a = ctx.explore(fi.qual, config(alias=ALIAS, arrlen=arrlen), driver)
    for p in a.paths:
        bounds_kept(ctx, p, fi.qual)
        if p.outcome == "return":
            judge(ctx, "limit", fi.qual, p,
                  "%s:%d %s" % (fi.path, fi.node.lineno, fi.qual), p.it.T(p.value), None)


def load(ctx):
    fi = ctx.repo.method("Population", "load")
    roles = Roles(ctx.repo)

    def slots(it, ref):
        if getattr(it, "members", None) is None:
            it.members = [it.sym_inst("Individual", "m%d" % k) for k in range(2)]
            for m in it.members:
                it.inst(m).fields["p"] = it.pop
        return it.alloc(ListO(list(it.members)))

    def unpickled(it, args, kwargs, node):
        return it.pop

    def driver(it):
        it.members = it.pm = None
        it.pop = it.sym_inst("Population", "p")
        it.pm = build_pm(it, "_old")
        for k in range(ND):
            it.assume(Term("lt", (bound(k, 0), bound(k, 1))), True)
        return it.call_fun(Fun(fi, None, Cls(ctx.repo.cls("Population"))),
                           [Const("file")], {"bounds": bounds_list(it)})
    alias = dict(ALIAS)
    alias[("Population", roles.slots)] = slots
    cfg = config(types=roles.types(), alias=alias, arrlen=arrlen,
                 ext={"pickle.load": unpickled, "pickle.loads": unpickled},
                 opaque={"Reporter.__init__": "none", "callOnAbort": "none"})
    a = ctx.explore(fi.qual, cfg, driver)
    n = 0
    for p in a.paths:
        if p.outcome != "return":
            continue
        lst = p.it.getattr(p.it.pop, roles.slots)
        items = p.it.known_items(lst) or []
        for m in items:
            n += 1
            t = p.it.T(p.it.getattr(m, "values"))
            judge(ctx, "loaded-in-bounds", "members after " + fi.qual, p,
                  "%s:%d %s" % (fi.path, fi.node.lineno, fi.qual), t, None)
    ctx.need(n, "no members seen after loading")


# -- C05 -----------------------------------------------------------------------

@check("C05", {
    "challenger-accepted": "what a challenge evaluates was accepted, as it is, by every constraint",
    "initial-accepted": "what setup evaluates or admits was accepted by every constraint",
    "accepted-evaluated": "a challenger accepted by every constraint is evaluated, unless stopped",
    "verdict": "the verdict is positive if and only if every constraint accepts",
    "all-registered": "every constraint given, alone or in a sequence or later, is asked",
    "gives-up": "setup stops if no conforming vector is found",
})
def c05(ctx):
    ch = BChallenge(ctx)
    inside = member_values(ch.roles)
    n = 0
    for p in ch.paths:
        evs = eval_args(ch, p)
        for e, t in evs:
            n += 1
            judge_accepted(ctx, "challenger-accepted", "evaluation by " + ch.fi.qual, p, e, t,
                           inside)
        for e in ch.stores(p):
            if e.kind == "mut" and e.d["op"] == "setitem":
                v = p.it.inst(e.d["args"][1])
                if v is not None and v.origin is None and "values" in v.fields:
                    judge_accepted(ctx, "challenger-accepted", "store by " + ch.fi.qual, p, e,
                                   p.it.T(v.fields["values"]), inside)
        asked = [u for u in p.find("user") if u.d["f"] in USER]
        if asked and not ch.evals(p) and not ch.aborted(p):
            ok = any(verdict(p, u) is False and not about_member(u, inside) for u in asked)
            ctx.ob("accepted-evaluated", "by " + ch.fi.qual, ok, asked[-1],
                   "no constraint objected, and yet nothing is evaluated", p)
        elif asked:
            ctx.ob("accepted-evaluated", "by " + ch.fi.qual, True)
    ctx.need(n, "no path of a challenge evaluates anything")
    for blank in (False, True):
        st = BSetup(ctx, blank)
        n = 0
        for p in st.paths:
            for e, t in eval_args(st, p):
                n += 1
                judge_accepted(ctx, "initial-accepted", "evaluation by " + st.fi.qual, p, e, t,
                               None)
            for e in st.adds(p):
                for v in e.d["args"]:
                    i = p.it.inst(v)
                    if i is not None and i.ci.name == "Individual" and "values" in i.fields:
                        n += 1
                        judge_accepted(ctx, "initial-accepted", "admission by " + st.fi.qual,
                                       p, e, p.it.T(i.fields["values"]), None)
            exhausted(ctx, st, p)
        ctx.need(n, "no path of setup evaluates or admits anything")
    verdict_alone(ctx)
    ctx.assume("limiting a vector drawn within the bounds does not change it (rounding aside)")
    ctx.assume("constraint callables do not change the mapping they are given")


def verdict(p, u, before=None):
    r = u.d.get("result")
    if r is None or u.d.get("failed"):
        return None
    if isinstance(r, Const):
        return bool(r.v)
    return p.fact(Term("truthy", (r,)), before)


def mapping(u):
    """{name: value term} of the mapping passed to a constraint."""
    a = u.d["targs"][0] if u.d["targs"] else None
    if isinstance(a, Term) and a.op == "dict":
        out = {}
        for kv in a.args:
            if isinstance(kv, Tup) and isinstance(kv.items[0], Const):
                out[kv.items[0].v] = kv.items[1]
        return out
    return None


def about_member(u, inside):
    """Whether a constraint is asked about an individual that exists."""
    m = mapping(u) or {}
    whose = {x.args[0] for x in (A.norm(v) for v in m.values()) if inside(x)}
    return len(whose) == 1 and all(inside(A.norm(v)) for v in m.values())


def judge_accepted(ctx, rule, key, p, e, t, inside):
    rs = [Range(A, p, bound(k, 0), bound(k, 1), inside, is_unit) for k in range(ND)]
    if any(r.contradiction() for r in rs):
        return
    want = [untag(rs[k].simplify(x)) for k, x in enumerate(entries(t))]
    for c in USER:
        ok = False
        why = "constraint %r was not asked about what is used" % (c,)
        for u in p.find("user"):
            if u.d["f"] != c or u.i > e.i:
                continue
            m = mapping(u)
            if m is None or set(m) != set(NAMES):
                why = "constraint %r did not get the whole mapping" % (c,)
                continue
            got = [untag(rs[k].simplify(A.norm(m[nm]))) for k, nm in enumerate(NAMES)]
            if got != want:
                why = "constraint %r was asked about %r, used is %r" % (c, got, want)
                continue
            if verdict(p, u, e) is True:
                ok = True
            else:
                why = "constraint %r did not accept what is used" % (c,)
        ctx.ob(rule, key, ok, e, why, p)


def exhausted(ctx, st, p):
    """If the last try fails as well, setup stops."""
    asked = [u for u in p.find("user") if u.d["f"] in USER]
    rejected = [u for u in asked if verdict(p, u) is False]
    last = asked[-1] if asked else None
    if len(rejected) < 2 or last is not rejected[-1]:
        return
    # Two rejections in a row, nothing accepted in between: tries exhausted
    a, b = rejected[-2:]
    if any(e.kind == "construct" and e.d["cls"] == "Individual" for e in p.events[a.i:b.i]):
        return
    after = [e for e in p.events[b.i:] if (e.kind == "call" and e.d["f"] == "Population.abort")
             or (e.kind == "setattr" and e.d["name"] == "running")]
    ctx.ob("gives-up", "by " + st.fi.qual, bool(after), b,
           "no conforming vector was found and setup does not abort", p)


def verdict_alone(ctx):
    fi = ctx.repo.method("ParameterManager", "passesConstraints")

    def run(name, make, cons, names=NAMES):
        def driver(it):
            it.pop = it.sym_inst("Population", "p")
            it.pm = make(it)
            v = it.alloc(ArrO(sym("vec"), sym("vec")))
            return Const(it.truth(it.call_fun(Fun(fi, None, it.pm), [v], {})))
        a = ctx.explore("%s (%s)" % (fi.qual, name), config(alias=ALIAS, arrlen=arrlen),
                        driver)
        where = "%s:%d %s" % (fi.path, fi.node.lineno, fi.qual)
        for p in a.paths:
            if p.outcome != "return":
                ctx.ob("verdict", name, False, where, "no verdict is given", p)
                continue
            us = {}
            for u in p.find("user"):
                m = mapping(u)
                full = m is not None and [untag(A.norm(m.get(nm))) for nm in names] == entries(
                    sym("vec")) and len(m) == ND
                ctx.ob("verdict", name, full, u,
                       "a constraint gets something else than the whole mapping", p)
                us.setdefault(u.d["f"], []).append(verdict(p, u))
            if p.value.v:
                ok = all(True in us.get(c, []) for c in cons)
                ctx.ob("verdict" if name == "a list" or names is not NAMES else "all-registered", name, ok, where,
                       "accepted although not every constraint was asked and accepted", p)
            else:
                ok = any(False in us.get(c, []) for c in us)
                ctx.ob("verdict", name, ok, where, "rejected although no constraint objects", p)

    def later(*more):
        def make(it):
            pm = build_pm(it)
            for c in more:
                it.assume(Term("callable", (c,)), True)
            it.call_fun(Fun(ctx.repo.method("ParameterManager", "setConstraints"), None, pm),
                        list(more), {})
            return pm
        return make
    run("a list", build_pm, USER)
    # No way of sorting fits both
    run("names in another order", lambda it: build_pm(it, names=NAMES[::-1]), USER, NAMES[::-1])
    run("a single callable", lambda it: build_pm(it, constraints=USER[0]), USER[:1])
    run("none", lambda it: build_pm(it, constraints=[]), [])
    run("a tuple", lambda it: build_pm(it, constraints=Tup(USER)), USER)
    c2, c3 = sym("c2"), sym("c3")
    run("set later", later(c2, c3), [c2, c3])
    pop = ctx.repo.method("Population", "setConstraints")

    def through_population(it):
        it.pm = build_pm(it)
        for c in (c2, c3):
            it.assume(Term("callable", (c,)), True)
        it.call_fun(Fun(pop, None, it.pop), [c2, c3], {})
        return it.pm
    run("set later through the population", through_population, [c2, c3])
