"""C04-C08, C23: what is evaluated, and how it was made."""

import ast

from .absint import (ArrO, Const, DefO, FALSE, Fun, Inst, ListO, NONE, Ref, Star, TRUE, Term,
                     Tup, strip_float, untag)
from .arrays import poly
from .core import check
from .model import (INF, NP, ONE_POP, Roles, arrlen, config, fatal, field_of,
                    opaque_limit, raw_of, running_false, sse_alts)
from .rules_challenge import Challenge, base_opaque, callers_of, top_of
from .setup_model import Setup
from .source import own_nodes

SELF = Term("sym", ("pm",))


# -- terms for vectors -----------------------------------------------------------

def split_limited(t):
    """(whether a term is the outcome of limiting, the term limited)."""
    if isinstance(t, Term) and t.op == "limited":
        return True, t.args[0]
    return False, t


def elem(t, k):
    """The k-th entry of a vector."""
    while isinstance(t, Term) and t.op == "upd" and len(t.args) == 3:
        key = t.args[1]
        if key == Const(k):
            return t.args[2]
        if isinstance(key, Const) and isinstance(key.v, int):
            t = t.args[0]
            continue
        return Term("unclear", (t, k))
    if isinstance(t, Term) and t.op in ("+", "-", "*", "/", "np.add", "np.subtract",
                                        "np.multiply", "np.negative", "np.divide"):
        return Term(t.op, [elem(x, k) for x in t.args])
    if isinstance(t, Term) and t.op in ("neg", "u-"):
        return Term(t.op, [elem(x, k) for x in t.args])
    if isinstance(t, Tup):
        return t.items[k] if k < len(t.items) else Term("unclear", (t, k))
    if isinstance(t, Term) and (t.op in ("fld", "item") and (
            t.op == "fld" and t.args[1] == "values" or t.op == "item")):
        return Term("item", (t, Const(k)))
    if isinstance(t, Term) and t.op in ("list", "listlit") and len(t.args) > k:
        return t.args[k]
    return t


def finite_choice(n_of):
    """A random index: each possible one is followed."""
    def hook(it, args, kwargs, node):
        rng = n_of(it, args, kwargs)
        if rng is None:
            return it.fresh("random")
        c = it.choose(len(rng), node, lambda c: "random index is %r" % (rng[c],))
        it.emit("drawn", node, value=Const(rng[c]), n=len(rng))
        return Const(rng[c])
    return hook


def _ints(args):
    return all(isinstance(a, Const) and isinstance(a.v, int) for a in args) and args


def _randint(it, args, kwargs):
    return list(range(args[0].v, args[1].v + 1)) if _ints(args) and len(args) == 2 else None


def _randrange(it, args, kwargs):
    return list(range(*[a.v for a in args])) if _ints(args) else None


def _choice(it, args, kwargs):
    v = args[0] if args else None
    if isinstance(v, Const) and isinstance(v.v, int):
        return list(range(v.v))
    items = it.known_items(v) if v is not None else None
    if items and all(isinstance(x, Const) for x in items):
        return [x.v for x in items]
    return None


def coin(it, args, kwargs, node):
    """A random number between 0 and 1."""
    lo, hi = (args + [None, None])[:2] if args else (Const(0.0), Const(1.0))
    if not all(isinstance(x, Const) for x in (lo, hi)) or (lo.v, hi.v) != (0, 1):
        return it.fresh("draw", it.T(lo) if lo is not None else NONE,
                        it.T(hi) if hi is not None else NONE)
    t = it.fresh("unit_draw")
    it.emit("coin", node, value=t)
    return t


RANDOM = {
    "random.randint": finite_choice(_randint),
    "random.randrange": finite_choice(_randrange),
    "random.choice": finite_choice(_choice),
    "numpy.random.randint": finite_choice(_randrange),
    "numpy.random.choice": finite_choice(_choice),
    "random.uniform": coin, "random.random": coin,
    "numpy.random.random": coin, "numpy.random.random_sample": coin,
    "numpy.random.rand": coin, "numpy.random.uniform": coin,
}


class Small(Challenge):
    """Challenges in a population with three parameters."""
    ND = 3

    def __init__(self, ctx):
        op = base_opaque(DifferentialEvolution__crossover=None,
                         Population__lock="deferred", Population__release="none",
                         History__add="none", History__notInPop="none",
                         ParameterManager__passesConstraints=self.passes)
        alias = dict(ONE_POP)
        alias[("Population", "Nd")] = lambda it, ref: Const(self.ND)
        super().__init__(ctx, op, name="DifferentialEvolution.challenge (three parameters)",
                         alias=alias, ext=RANDOM, user_sync=True, defer_fail=False)

    @staticmethod
    def passes(it, fun, args, kwargs, node, e):
        return TRUE


def eval_args(ch, p):
    """(event, vector term) of each evaluation with values."""
    out = []
    for e in ch.evals(p):
        a = e.d["targs"][0] if e.d["targs"] else None
        if a is not None and a != NONE:
            out.append((e, a))
    return out


# -- C06 ---------------------------------------------------------------------------

@check("C06", {
    "mutated-or-target": "each parameter is base + F*(one - other), or the target's",
    "right-slots": "base, target and the two others come from the slots of the challenge",
    "own-draw": "a parameter is the target's only if its own draw in [0,1] exceeds CR",
    "kept-otherwise": "a parameter whose draw does not exceed CR keeps the mutated value",
    "one-kept": "one parameter keeps the mutated value whatever is drawn",
    "any-kept": "each parameter can be the one that is kept",
})
def c06(ctx):
    ch = Small(ctx)
    V = lambda k: Term("fld", (ch.member(k), "values", ""))
    kept_sets = set()
    n = 0
    for p in ch.paths:
        smp = [e for e in p.find("call") if e.d["f"] == "Population.sample"]
        fs = [e for e in p.find("call") if e.d["f"] == "FManager.get"]
        for e, t in eval_args(ch, p):
            n += 1
            x = untag(split_limited(t)[1])
            two = []
            for s in smp:
                r = s.d.get("result")
                two.extend(r.items if isinstance(r, Tup) else [r])
            two = [untag(p.it.T(y)) for y in two]
            ok_slots = len(two) >= 2 and fs
            ctx.ob("right-slots", "evaluation by " + ch.fi.qual, bool(ok_slots), e,
                   "no two other slots, or no mutation weight, were obtained", p)
            if not ok_slots:
                continue
            coins = [c.d["value"] for c in p.find("coin")]
            taken = set()
            used = []
            for k in range(ch.ND):
                got = poly(elem(x, k))
                I = lambda s, k=k: repr(Term("item", (V(s), Const(k))))
                want = []
                for f in fs:
                    F = repr(untag(p.it.T(f.d["result"])))
                    for a in two:
                        for b in two:
                            if a != b:
                                want.append({(I(ch.kb),): 1,
                                             tuple(sorted((F, I(a)))): 1,
                                             tuple(sorted((F, I(b)))): -1})
                parent = {(I(ch.kt),): 1}
                ctx.ob("mutated-or-target", "parameters of what %s evaluates" % ch.fi.qual,
                       got in want or got == parent, e,
                       "parameter %d is %r" % (k, elem(x, k)), p)
                if got == parent:
                    taken.add(k)
            # Which draws decided what
            exceeds = [c for c in coins if draw_exceeds(p, c) is True]
            below = [c for c in coins if draw_exceeds(p, c) is False]
            ctx.ob("own-draw", "crossover by " + ch.fi.qual, len(taken) <= len(exceeds), e,
                   "%d parameter(s) are the target's with %d draw(s) above CR" % (
                       len(taken), len(exceeds)), p)
            ctx.ob("kept-otherwise", "crossover by " + ch.fi.qual,
                   len(taken) >= len(exceeds) - 1 and (
                       below or len(taken) >= ch.ND - 1 or not coins), e,
                   "%d parameter(s) are the target's with %d draw(s) above CR" % (
                       len(taken), len(exceeds)), p)
            ctx.ob("one-kept", "crossover by " + ch.fi.qual, len(taken) < ch.ND, e,
                   "no parameter keeps its mutated value", p)
            if not below:
                kept_sets.add(frozenset(range(ch.ND)) - taken)
            del used
    ctx.need(n, "no path of a challenge evaluates anything")
    every = frozenset().union(*kept_sets) if kept_sets else frozenset()
    ctx.ob("any-kept", "crossover by " + ch.fi.qual, every == frozenset(range(ch.ND)),
           "%s:%d %s" % (ch.fi.path, ch.fi.node.lineno, ch.fi.qual),
           "only the parameter(s) %s can be the one that is always kept" % sorted(every))


def draw_exceeds(p, c):
    """Whether the path knows a draw to be above CR."""
    for f in p.fact_list:
        if f.op in ("lt", "le") and c in f.args:
            a, b = f.args
            val = p.facts[f][0]
            if b == c and is_cr(a):
                return val
            if a == c and is_cr(b):
                return not val
    return None


def is_cr(t):
    t = strip_float(t)
    return field_of(t)[1] == "CR"


# -- C07 ---------------------------------------------------------------------------

@check("C07", {
    "members-untouched": "no array and no result of an existing individual is changed",
    "own-storage": "a challenger's values are in an array of its own",
    "operators-pure": "arithmetic on individuals gives new ones and changes none",
    "limit-on-challenger": "limiting touches only the individual it is given",
})
def c07(ctx):
    ch = Challenge(ctx, base_opaque(
        DifferentialEvolution__crossover=None, ParameterManager__limit=None,
        Population__lock="deferred", Population__release="none",
        History__add="none", History__notInPop="none"),
        alias={**ONE_POP, ("Population", "Nd"): lambda it, ref: Const(2)},
        ext=RANDOM, user_sync=True)
    seen = 0
    for p in ch.paths:
        judge_untouched(ctx, p, "by " + ch.fi.qual, "members-untouched")
        for e in ch.evals(p):
            a = e.d["args"][0] if e.d["args"] else None
            if not isinstance(a, Ref):
                continue
            seen += 1
            root = p.it.obj(p.it.root_of(a))
            ctx.ob("own-storage", "what %s evaluates" % ch.fi.qual,
                   getattr(root, "origin", None) is None, e,
                   "the values evaluated are stored in an array that existed before", p)
        for e in ch.stores(p):
            if e.kind == "mut" and e.d["op"] == "setitem":
                i = p.it.inst(e.d["args"][1])
                v = i.fields.get("values") if i is not None else None
                root = p.it.obj(p.it.root_of(v)) if isinstance(v, Ref) else None
                ctx.ob("own-storage", "what %s stores" % ch.fi.qual,
                       root is not None and root.origin is None, e,
                       "the individual stored shares its values with another", p)
    ctx.need(seen, "nothing is evaluated in a challenge")
    roles = ch.roles
    # The operators by themselves
    for name in ("__add__", "__sub__", "__mul__", "copy"):
        fi = ctx.repo.method("Individual", name)

        def driver(it, fi=fi, name=name):
            it.pop = it.sym_inst("Population", "p")
            it.i1 = it.sym_inst("Individual", "i1")
            it.i2 = it.sym_inst("Individual", "i2")
            args = {"__mul__": [it.sym("F")], "copy": []}.get(name, [it.i2])
            return it.call_fun(Fun(fi, None, it.i1), args, {})
        cfg = config(types=roles.types(), alias=ONE_POP, arrlen=arrlen)
        a = ctx.explore(fi.qual, cfg, driver)
        for p in a.paths:
            judge_untouched(ctx, p, fi.qual, "operators-pure")
            if p.outcome != "return":
                continue
            i = p.it.inst(p.value)
            v = i.fields.get("values") if i is not None else None
            root = p.it.obj(p.it.root_of(v)) if isinstance(v, Ref) else None
            ok = i is not None and i.origin is None and root is not None and \
                root.origin is None
            ctx.ob("operators-pure", fi.qual, ok,
                   "%s:%d %s" % (fi.path, fi.node.lineno, fi.qual),
                   "the result is, or shares its values with, an operand", p)
    fi = ctx.repo.method("Population", "limit")

    def driver(it):
        it.pop = it.sym_inst("Population", "p")
        it.i1 = it.sym_inst("Individual", "i1")
        return it.call_fun(Fun(fi, None, it.pop), [it.i1], {})
    a = ctx.explore(fi.qual, config(types=roles.types(), alias=ONE_POP, arrlen=arrlen), driver)
    for p in a.paths:
        others = [e for e in p.find("setattr") if e.d["cls"] == "Individual"
                  and not e.d["fresh"] and e.d["ref"] != p.it.i1]
        v = p.it.getattr(p.it.i1, "values") if p.outcome == "return" else None
        root = p.it.obj(p.it.root_of(v)) if isinstance(v, Ref) else None
        bad = others or [e for e in p.find("arrset") if not e.d["fresh"] and field_of(
            p.it.obj(e.d["root"]).origin)[1] != "values"]
        ctx.ob("limit-on-challenger", fi.qual, not bad, bad[0] if bad else "",
               "something else than the individual's own values is changed", p)
        del root
    ctx.assume("the evaluation function does not change the array it is given")


def judge_untouched(ctx, p, where, rule):
    bad = None
    for e in p.events:
        if e.kind == "arrset" and not e.d["fresh"]:
            bad = bad or (e, "an array that existed before is changed in place")
        elif e.kind == "setattr" and e.d["cls"] == "Individual" and not e.d["fresh"]:
            bad = bad or (e, "attribute %s of an existing individual is changed" % e.d["name"])
        elif e.kind == "termset":
            bad = bad or (e, "something that existed before is changed in place")
    ctx.ob(rule, "changes made " + where if rule == "members-untouched" else where,
           bad is None, bad[0] if bad else "", bad[1] if bad else "", p)


# -- C08 ---------------------------------------------------------------------------

@check("C08", {
    "run-stops": "a challenge whose evaluation is fatal or fails shuts the run down",
    "not-kept": "a fatal individual is neither stored, recorded nor reported by a challenge",
    "setup-stops": "setup aborts after an evaluation that is fatal or fails",
    "not-admitted": "setup neither admits, records nor reports a fatal individual",
    "no-escape": "a failing evaluation does not escape as an exception",
    "shutdown-effective": "shutting down marks the run stopped and ends the wait for it",
})
def c08(ctx):
    direct = lambda it, e: e.kind == "user"
    ch = Challenge(ctx, may_raise=direct)
    n = 0
    for p in ch.paths:
        for u in ch.evals(p):
            bad = is_fatal(p, u)
            if not bad:
                continue
            n += 1
            after = p.events[u.i:]
            downs = [e for e in after if e.kind == "call" and e.d["f"] in (
                "DifferentialEvolution.shutdown", "Population.abort")]
            ctx.ob("run-stops", "evaluation by " + ch.fi.qual, bool(downs), u,
                   "the run goes on after a fatal evaluation", p)
            kept = [e for e in after if e in ch.stores(p) or e.kind == "call" and e.d["f"] in (
                "History.add", "Population.report", "Reporter.__call__")]
            ctx.ob("not-kept", "evaluation by " + ch.fi.qual, not kept,
                   kept[0] if kept else u,
                   "an individual with a fatal evaluation is stored, recorded or reported", p)
            ctx.ob("no-escape", "evaluation by " + ch.fi.qual, p.outcome == "return", u,
                   "the failure of an evaluation escapes", p)
    ctx.ob("no-escape", "evaluation by " + ch.fi.qual, any(
        u.d.get("failed") for p in ch.paths for u in ch.evals(p)), ch.fi.qual,
        "the evaluation function is not called in a way that catches its exceptions")
    ctx.need(n, "no fatal evaluation in any path of a challenge")
    su = Setup(ctx, may_raise=direct)
    n = 0
    for p in su.paths:
        for u in ch.evals(p):
            if not is_fatal(p, u):
                continue
            n += 1
            after = p.events[u.i:]
            downs = [e for e in after if e.kind == "call" and e.d["f"] == "Population.abort"]
            ctx.ob("setup-stops", "evaluation by " + su.fi.qual, bool(downs), u,
                   "setup goes on after a fatal evaluation", p)
            res = u.d.get("result")
            nxt = [x.i for x in ch.evals(p) if x.i > u.i]
            lim = nxt[0] if nxt else len(p.events)
            kept = [e for e in p.events[u.i:lim] if e in su.adds(p) or e.kind == "call"
                    and e.d["f"] in ("History.add", "Reporter.__call__")]
            ctx.ob("not-admitted", "evaluation by " + su.fi.qual, not kept,
                   kept[0] if kept else u,
                   "an individual with a fatal evaluation is admitted, recorded or reported",
                   p)
            ctx.ob("no-escape", "evaluation by " + su.fi.qual, p.outcome == "return", u,
                   "the failure of an evaluation escapes", p)
            del res
    ctx.need(n, "no fatal evaluation in any path of setup")
    shutdown_effective(ctx)


def is_fatal(p, u):
    if u.d.get("failed"):
        return True
    return fatal(p, strip_float(u.d.get("result"))) is True


def shutdown_effective(ctx):
    fi = ctx.repo.method("DifferentialEvolution", "shutdown")

    def driver(it):
        it.de = it.sym_inst("DifferentialEvolution", "de")
        return it.call_fun(Fun(fi, None, it.de), [], {})
    a = ctx.explore(fi.qual, config(alias=ONE_POP, types={
        ("DifferentialEvolution", "dChallenges"): "deferred"}), driver)
    for p in a.paths:
        if p.outcome != "return":
            ctx.ob("shutdown-effective", fi.qual, False, fi.qual, "shutdown fails", p)
            continue
        v = p.it.getattr(p.it.de, "running")
        was_false = p.fact(Term("truthy", (Term("fld", (Term("sym", ("de",)), "running",
                                                      "")),))) is False
        ctx.ob("shutdown-effective", fi.qual, v == FALSE or was_false,
               "%s:%d %s" % (fi.path, fi.node.lineno, fi.qual),
               "the run is not marked as stopped", p)


# -- C23 ---------------------------------------------------------------------------

@check("C23", {
    "target-sse": "with the option on, an evaluation is told the SSE of its target",
    "no-keyword": "with the option off the evaluation function gets no such keyword",
    "initial-none": "initial evaluations get no such keyword",
    "losers-recorded": "a loser is recorded, as never a member, with the option off",
    "losers-not-recorded": "no loser is recorded with the option on",
})
def c23(ctx):
    ch = Challenge(ctx)
    n = 0
    for p in ch.paths:
        on = option(p, "de", "xSSE")
        for u in ch.evals(p):
            kw = u.d["kwargs"]
            extra = u.d["targs"][1:]
            if on is True:
                n += 1
                v = kw.get("xSSE")
                raws = ch.raws_of_member(p, ch.kt)
                ok = v is not None and list(kw) == ["xSSE"] and not extra and any(
                    strip_float(p.it.T(v)) in [strip_float(x) for x in sse_alts(p, r)]
                    for r in raws)
                ctx.ob("target-sse", "evaluation by " + ch.fi.qual, ok, u,
                       "the evaluation is told %r" % (v,), p)
            elif on is False:
                ctx.ob("no-keyword", "evaluation by " + ch.fi.qual, not kw and not extra, u,
                       "the evaluation function gets %s" % sorted(kw), p)
            else:
                ctx.ob("target-sse", "evaluation by " + ch.fi.qual, False, u,
                       "the option is not consulted before the evaluation", p)
            if u.d.get("failed") or is_fatal(p, u) or ch.aborted(p):
                continue
            adds = [e for e in p.events[u.i:] if e.kind == "call"
                    and e.d["f"] == "History.add"]
            if ch.stores(p):
                continue
            if on is True:
                ctx.ob("losers-not-recorded", "loser of " + ch.fi.qual, not adds,
                       adds[0] if adds else u, "a partly evaluated loser is recorded", p)
            elif on is False:
                ok = len(adds) == 1
                if ok:
                    a = adds[0]
                    nv = a.d["kwargs"].get("neverInPop") or (
                        a.d["args"][1] if len(a.d["args"]) > 1 else None)
                    i = p.it.inst(a.d["args"][0]) if a.d["args"] else None
                    ok = nv == TRUE and i is not None and strip_float(
                        raw_of(p.it, a.d["args"][0], ch.roles)) == strip_float(
                            u.d.get("result"))
                ctx.ob("losers-recorded", "loser of " + ch.fi.qual, ok, u,
                       "a loser is not recorded once as never having been a member", p)
    ctx.need(n, "no evaluation with the option on")
    su = Setup(ctx)
    for p in su.paths:
        for u in ch.evals(p):
            ctx.ob("initial-none", "evaluation by " + su.fi.qual,
                   not u.d["kwargs"] and len(u.d["targs"]) == 1, u,
                   "an initial evaluation gets %s" % sorted(u.d["kwargs"]), p)


def option(p, obj, name):
    """What the path assumed an option to be: True, False or None."""
    for f in p.fact_list:
        if f.op == "truthy" and isinstance(f.args[0], Term) and untag(f.args[0]) == Term(
                "fld", (Term("sym", (obj,)), name, "")):
            return p.facts[f][0]
    return None
