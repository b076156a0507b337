"""
What a challenge does: C01, C02, C03, C06, C07, C08, C09, C23.
"""

import ast

from .absint import (ArrO, Const, DefO, Fun, Inst, ListO, LockO, NONE, FALSE, TRUE, Ref,
                     Slice, Term, Tup, strip_float, untag)
from .core import check
from .model import (INF, NP, ONE_POP, Roles, arrlen, config, fatal, field_of, granted,
                    opaque_F, opaque_limit, opaque_ranking, opaque_sample, opaque_shutdown, raw_of,
                    running_false, slot_key, sse_alts, sse_less)
from .setup_model import Setup
from .source import own_nodes

LATCH = [("Population", "running"), ("DifferentialEvolution", "running")]


def base_opaque(**kw):
    d = {"Population.sample": opaque_sample,
         "Population.report": "opaque",
         "History.add": "deferred",
         "History.notInPop": "deferred",
         "FManager.get": opaque_F,
         "Population.KS": opaque_ranking,
         "DifferentialEvolution.crossover": "none",
         "ParameterManager.passesConstraints": "pure",
         "ParameterManager.limit": opaque_limit,
         "DifferentialEvolution.shutdown": opaque_shutdown}
    for k, v in kw.items():
        k = k.replace("__", ".", 1)
        if v is None:
            d.pop(k, None)
        else:
            d[k] = v
    return d


class Challenge:
    """The abstract paths of DifferentialEvolution.challenge."""

    def __init__(self, ctx, opaque=None, name="DifferentialEvolution.challenge", **kw):
        self.ctx = ctx
        self.repo = ctx.repo
        self.roles = roles = Roles(ctx.repo)
        self.prepare = kw.pop("prepare", None)
        self.kt = Term("sym", ("kt",))
        self.kb = Term("sym", ("kb",))

        def listlen(it, t):
            return NP if field_of(t)[1] in (roles.slots, roles.locks) else None

        cfg = config(types=roles.types(), alias=kw.pop("alias", ONE_POP), latch=LATCH,
                     arrlen=arrlen, opaque=base_opaque() if opaque is None else opaque,
                     listlen=listlen, **kw)
        self.fi = ctx.repo.method("DifferentialEvolution", "challenge")
        self.analysis = ctx.explore(name, cfg, self.driver)
        self.paths = self.analysis.paths

    def driver(self, it):
        for k in (self.kt, self.kb):
            it.assume(Term("lt", (k, NP)), True)
        it.pop = it.sym_inst("Population", "p")
        it.de = it.sym_inst("DifferentialEvolution", "de")
        it.assume(it._eq(self.kb, self.kt), False)
        if self.prepare is not None:
            self.prepare(it)
        return it.call_fun(Fun(self.fi, None, it.de), [self.kt, self.kb], {})

    # -- reading paths -------------------------------------------------------
    def stores(self, p):
        """Everything that changes which individuals are in the slots."""
        out = []
        for e in p.events:
            if e.kind == "mut" and field_of(e.d["origin"])[1] == self.roles.slots:
                out.append(e)
            elif e.kind == "setattr" and e.d["cls"] == "Population" and \
                    e.d["name"] == self.roles.slots:
                out.append(e)
        return out

    def member(self, k):
        """The individual in a slot, without the time it was read."""
        return Term("item", (Term("fld", (Term("sym", ("p",)), self.roles.slots, "")), k))

    def raw_at(self, p, ref, e):
        """The raw result an individual made on the path has at an event."""
        val = None
        for x in p.events[:e.i]:
            if x.kind == "setattr" and x.d["ref"] == ref and x.d["name"] == self.roles.raw:
                val = x
        return val

    def raws_of_member(self, p, k, before=None):
        """Terms for the raw result of the individual in a slot."""
        want = self.member(k)
        out = []
        lim = len(p.fact_list) if before is None else before.nf

        def scan(t):
            if isinstance(t, Term):
                if t.op == "fld" and t.args[1] == self.roles.raw and \
                        untag(t.args[0]) == want:
                    if t not in out:
                        out.append(t)
                for x in t.args:
                    scan(x)
        for f in p.fact_list[:lim]:
            scan(f)
        return out

    def aborted(self, p, before=None):
        """Whether the run or the population is known to be stopped."""
        return running_false(p, Term("sym", ("de",)), "running", before) or \
            running_false(p, Term("sym", ("p",)), "running", before) or \
            self.stopped_here(p, before)

    @staticmethod
    def stopped_here(p, before=None):
        lim = len(p.events) if before is None else before.i
        return any(e.kind == "setattr" and e.d["name"] == "running"
                   and e.d["value"] == FALSE for e in p.events[:lim])

    def evals(self, p):
        """Calls of the user's evaluation function: (event, individual)."""
        out = []
        for e in p.find("user"):
            if field_of(e.d["f"])[1] == "func" or (
                    isinstance(e.d["f"], Term) and untag(e.d["f"]) == Term(
                        "fld", (Term("sym", ("p",)), "func", ""))):
                out.append(e)
        return out


def slot_writers(ctx, roles):
    """
    Functions of the package with a statement that changes the slots:
    {function: [(node, what)]}.
    """
    out = {}
    pops = {"p", "population", "pop"}
    for fi in ctx.repo.all_functions():
        cname = fi.cls.name if fi.cls is not None else None
        top = fi
        while top.parent is not None:
            top = top.parent
            if cname is None and top.cls is not None:
                cname = top.cls.name

        def is_slots(n):
            return isinstance(n, ast.Attribute) and n.attr == roles.slots

        def is_pop(n):
            if isinstance(n, ast.Name):
                return (n.id == "self" and cname == "Population") or n.id in pops
            return isinstance(n, ast.Attribute) and n.attr in pops

        for n in own_nodes(fi.node):
            hits = []
            if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Delete)):
                ts = n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target]
                flat = []
                while ts:
                    t = ts.pop()
                    if isinstance(t, (ast.Tuple, ast.List)):
                        ts.extend(t.elts)
                    else:
                        flat.append(t)
                for t in flat:
                    if is_slots(t):
                        hits.append("assigns the list")
                    elif isinstance(t, ast.Subscript) and (
                            is_slots(t.value) or is_pop(t.value)):
                        hits.append("stores an item")
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                if is_slots(n.func.value) and n.func.attr in (
                        "append", "insert", "extend", "pop", "remove", "clear",
                        "sort", "reverse", "__setitem__"):
                    hits.append(n.func.attr)
                elif is_pop(n.func.value) and n.func.attr == "__setitem__":
                    hits.append("stores an item")
            for h in hits:
                out.setdefault(fi, []).append((n, h))
    return out


def callers_of(ctx, fi):
    """Functions of the package that mention a function by name."""
    out = set()
    for g in ctx.repo.all_functions():
        for n in own_nodes(g.node):
            if isinstance(n, ast.Attribute) and n.attr == fi.name or \
               isinstance(n, ast.Name) and n.id == fi.name:
                out.add(g)
    return out


def top_of(fi):
    while fi.parent is not None:
        fi = fi.parent
    return fi


@check("C01", {
    "own-slot": "a challenge stores only to its own target slot, once",
    "evaluated": "what is stored was evaluated, without failure, in this challenge",
    "not-fatal": "what is stored is known not to have a fatal result",
    "strictly-better": "what is stored is known to have an SSE below the target's",
    "same-values": "what is stored has the very values that were evaluated",
    "takes-slot": "a challenger not known to be no better is stored, unless stopped",
    "no-other-writer": "nothing else in the package replaces members during a run",
})
def c01(ctx):
    ch = Challenge(ctx)
    roles = ch.roles
    entered = set()
    for p in ch.paths:
        for e in p.find("enter"):
            entered.add(e.d["f"])
        entered.add(ch.fi.qual)
        target = ch.member(ch.kt)
        st = ch.stores(p)
        ctx.ob("own-slot", "at most one store per challenge", len(st) <= 1,
               st[-1] if st else "", "the slots change %d times" % len(st), p)
        for e in st:
            if e.kind != "mut" or e.d["op"] != "setitem":
                ctx.ob("own-slot", "store in " + e.fi.qual, False, e,
                       "the slots change other than by storing an item", p)
                continue
            k, ref = e.d["args"]
            ctx.ob("own-slot", "store in " + e.fi.qual, untag(ctx_T(p, k)) == ch.kt, e,
                   "slot %r is stored to, the target is kt" % (k,), p)
            i = p.it.inst(ref)
            fresh = i is not None and i.origin is None and i.ci.name == "Individual"
            raw = ch.raw_at(p, ref, e) if fresh else None
            rv = strip_float(p.it.T(raw.d["value"])) if raw is not None else None
            ev = [u for u in ch.evals(p) if u.i < e.i and not u.d.get("failed")
                  and strip_float(u.d.get("result")) == rv and rv is not None]
            ctx.ob("evaluated", "store in " + e.fi.qual, bool(ev), e,
                   "the stored individual has no result of its own evaluation", p)
            ctx.ob("not-fatal", "store in " + e.fi.qual,
                   rv is not None and fatal(p, rv, e) is False, e,
                   "a fatal result is not ruled out when the slot is stored to", p)
            less = any(sse_less(p, rv, t, e) is True
                       for t in ch.raws_of_member(p, ch.kt, e)) if rv is not None else False
            ctx.ob("strictly-better", "store in " + e.fi.qual, less, e,
                   "the challenger is not known to be strictly better than the target",
                   p)
            same = True
            if ev:
                same = evaluated_values_kept(p, ref, ev[-1], e)
            ctx.ob("same-values", "store in " + e.fi.qual, same, e,
                   "the values changed between evaluation and store", p)
            del target
            target = ch.member(ch.kt)
        # A better challenger is not passed over
        for u in ch.evals(p):
            if u.d.get("failed") or st:
                continue
            raw = strip_float(u.d.get("result"))
            if fatal(p, raw) is True or ch.aborted(p):
                continue
            lost = any(sse_less(p, raw, t) is False for t in ch.raws_of_member(p, ch.kt)) \
                or sse_alts(p, raw) == [INF]
            ctx.ob("takes-slot", "evaluation in " + ch.fi.qual, lost, u,
                   "a challenger that may be better is not stored", p)
    ctx.need(any(ch.stores(p) for p in ch.paths), "no path of a challenge stores anything")
    # Whole-package part
    writers = slot_writers(ctx, roles)
    ctx.count_sites(sum(len(v) for v in writers.values()), [f.qual for f in writers])
    setup = {"Population.setup", "Population.clear", "Population.__init__",
             "Population.__setstate__", "Population.load"}

    def allowed(fi, seen):
        top = top_of(fi)
        if fi.qual in entered or top.qual in setup or top.qual in entered:
            return True
        if fi in seen:
            return True
        cs = [c for c in callers_of(ctx, top) if c is not top and top_of(c) is not top]
        if top.qual == "Population.push":
            # Public, for use between runs
            return all(allowed(c, seen | {fi}) and c.qual not in entered for c in cs)
        if not cs:
            return top.cls is None or top.cls.name not in (
                "DifferentialEvolution", "Reporter", "History", "Individual") and \
                top.qual not in ("Population.abort", "Population.report")
        return all(allowed(c, seen | {fi}) for c in cs)
    for fi, sites in writers.items():
        for n, what in sites:
            ctx.ob("no-other-writer", fi.qual, allowed(fi, set()),
                   "%s:%d %s" % (fi.path, n.lineno, fi.qual),
                   "%s of the population outside setup and challenge" % what)
    ctx.assume("the evaluation function does not itself change the population")


def ctx_T(p, v):
    return p.it.T(v)


def evaluated_values_kept(p, ref, u, store):
    """Whether the values of an individual are untouched from u to store."""
    arr = [a for a in u.d["args"] if isinstance(a, Ref)]
    roots = {p.it.root_of(a) for a in arr}
    for e in p.events[u.i:store.i]:
        if e.kind == "setattr" and e.d["ref"] == ref and e.d["name"] == "values":
            return False
        if e.kind == "arrset" and e.d["root"] in roots:
            return False
    return True


# -- exclusive access -------------------------------------------------------------

@check("C02", {
    "granted-before-read": "a slot is read only with exclusive access to it granted",
    "held-until-stored": "the target's lock is held from its grant until the store",
    "no-foreign-release": "a challenge gives back only what it holds, unless stopped",
    "own-lock-per-slot": "each member that is added gets a lock of its own",
})
def c02(ctx):
    ch = Challenge(ctx)
    for p in ch.paths:
        held = {}                  # slot -> event since when
        for e in p.events:
            if e.kind == "await":
                for lock in granted(p.it, e.d["value"]):
                    held[slot_key(untag(lock), ch.roles.locks)] = e
            elif e.kind == "acquire" and e.d.get("run"):
                held[slot_key(untag(e.d["lock"]), ch.roles.locks)] = e
            elif e.kind == "release":
                held.pop(slot_key(untag(e.d["lock"]), ch.roles.locks), None)
            elif e.kind == "get" and field_of(e.d["origin"])[1] == ch.roles.slots:
                if ch.aborted(p, e):
                    continue
                k = untag(p.it.T(e.d["key"]))
                ok = k in held or any(
                    x.kind == "get" and x.d["value"] == e.d["value"] and x.i < e.i
                    for x in ())
                ctx.ob("granted-before-read", "read in %s by %s" % (
                    e.fi.qual, ch.fi.qual), ok, e,
                    "slot %r is read without its lock having been granted" % (k,), p)
            elif e in ch_stores(ch, p) and e.kind == "mut" and e.d["op"] == "setitem":
                k = untag(p.it.T(e.d["args"][0]))
                ctx.ob("held-until-stored", "store in " + e.fi.qual, k in held, e,
                       "slot %r is stored to without holding its lock" % (k,), p)
                # ... and has been since the target was looked at
                if k in held:
                    first = [x for x in p.events if x.kind == "get" and field_of(
                        x.d["origin"])[1] == ch.roles.slots and untag(
                            p.it.T(x.d["key"])) == k]
                    ok = bool(first) and first[0].i > held[k].i
                    ctx.ob("held-until-stored", "no gap before store in " + e.fi.qual,
                           ok, e, "the lock was given up since the target was read", p)
    ctx.need(any(ch_stores(ch, p) for p in ch.paths),
             "no path of a challenge stores anything")
    # Giving back: with the locks told apart
    cc = Concrete(ctx)
    for p in cc.paths:
        held = {}
        for e in p.events:
            if e.kind == "acquire":
                held[untag(e.d["lock"])] = held.get(untag(e.d["lock"]), 0) + 1
            elif e.kind == "release":
                lock = untag(e.d["lock"])
                ok = held.get(lock, 0) > 0 or cc.stopped(p, e)
                held[lock] = max(0, held.get(lock, 0) - 1)
                ctx.ob("no-foreign-release", "release in " + e.fi.qual, ok, e,
                       "a lock that this challenge does not hold is given back while "
                       "the run goes on", p)
    own_locks(ctx, ch.roles)


_stores = {}


def ch_stores(ch, p):
    r = _stores.get(id(p))
    if r is None or r[0] is not p:
        r = (p, ch.stores(p))
        _stores[id(p)] = r
    return r[1]


class Concrete:
    """
    The abstract paths of a challenge in a population of five, with the
    locks told apart, so that any way of going through them is followed
    exactly.  The slots themselves stay unknown, and may have been cleared
    while the challenge was waiting.
    """
    N = 5

    def __init__(self, ctx, opaque=None, may_raise=None):
        self.ctx = ctx
        self.roles = roles = Roles(ctx.repo)
        self.fi = ctx.repo.method("DifferentialEvolution", "challenge")

        def sample(it, fun, args, kwargs, node, e):
            n = args[0].v if args and isinstance(args[0], Const) else 1
            used = {x.v for x in args[1:] if isinstance(x, Const)}
            ks = [Const(k) for k in range(self.N) if k not in used][:n]
            return ks[0] if n == 1 else Tup(ks)

        op = base_opaque(Population__sample=sample)
        if opaque:
            op.update(opaque)
        alias = dict(ONE_POP)
        alias[("Population", roles.locks)] = lambda it, ref: it.conc_locks

        def listlen(it, t):
            return None
        cfg = config(types=roles.types(), alias=alias, latch=LATCH, arrlen=arrlen,
                     opaque=op, listlen=listlen, may_raise=may_raise)
        self.analysis = ctx.explore("DifferentialEvolution.challenge (five slots)", cfg,
                                    self.driver)
        self.paths = self.analysis.paths

    def lock_terms(self):
        return [Term("slotlock", (k,)) for k in range(self.N)]

    def driver(self, it):
        it.pop = it.sym_inst("Population", "p")
        it.de = it.sym_inst("DifferentialEvolution", "de")
        it.conc_locks = it.alloc(ListO([it.alloc(LockO(t)) for t in self.lock_terms()]))
        return it.call_fun(Fun(self.fi, None, it.de), [Const(0), Const(1)], {})

    def stopped(self, p, before=None):
        if running_false(p, Term("sym", ("de",)), "running", before) or \
           running_false(p, Term("sym", ("p",)), "running", before) or \
           Challenge.stopped_here(p, before):
            return True
        # The slots were cleared meanwhile
        lim = len(p.fact_list) if before is None else before.nf
        for f in p.fact_list[:lim]:
            if f.op in ("le", "lt") and p.facts[f][0] is (f.op == "le") and any(
                    isinstance(x, Term) and x.op == "len" and field_of(
                        x.args[0])[1] == self.roles.slots for x in f.args):
                return True
            if f.op == "truthy" and not p.facts[f][0] and field_of(
                    f.args[0])[1] == self.roles.slots:
                return True
        return False


def own_locks(ctx, roles):
    """Whatever adds a member adds one new lock."""
    su = Setup(ctx)
    for p in su.paths:
        if p.outcome != "return":
            continue
        adds = su.adds(p)
        new = new_locks(p, roles)
        ctx.ob("own-lock-per-slot", "members added by " + su.fi.qual,
               len(new) == len(adds), adds[0] if adds else su.fi.qual,
               "%d member(s) added with %d new lock(s)" % (len(adds), len(new)), p)
    ctx.need(any(su.adds(p) for p in su.paths), "setup adds no member")
    # A population that comes from a file
    fi = ctx.repo.method("Population", "__setstate__")
    for n in (0, 1, 3):
        def driver(it, n=n):
            it.pop = it.sym_inst("Population", "p")
            ms = [it.sym_inst("Individual", "i%d" % k) for k in range(n)]
            state = it.from_literal({})
            it.obj(state).items[Const(roles.slots)] = it.alloc(ListO(ms))
            it.obj(state).items[Const("running")] = it.sym("was_running")
            return it.call_fun(Fun(fi, None, it.pop), [state], {})
        cfg = config(types=roles.types(), latch=LATCH, opaque={"History.clear": "deferred"})
        a = ctx.explore("Population.__setstate__ of %d" % n, cfg, driver)
        for p in a.paths:
            o = p.it.obj(p.it.getattr(p.it.pop, roles.locks))
            got = []
            if isinstance(o, ListO) and o.items is not None:
                for x in o.items:
                    lo = p.it.obj(x)
                    if isinstance(lo, LockO) and lo.origin.op == "newlock":
                        got.append(lo.origin)
            ok = p.outcome == "return" and len(got) == len(set(got)) == n and \
                len(o.items) == n
            ctx.ob("own-lock-per-slot", "members restored by " + fi.qual, ok,
                   "%s:%d %s" % (fi.path, fi.node.lineno, fi.qual),
                   "%d member(s) restored with %d new lock(s)" % (n, len(set(got))), p)


def new_locks(p, roles):
    new = []
    for e in p.find("mut"):
        if field_of(e.d["origin"])[1] == roles.locks and e.d["args"]:
            o = p.it.obj(e.d["args"][-1])
            if isinstance(o, LockO) and o.origin.op == "newlock" and o.origin not in new:
                new.append(o.origin)
    return new


@check("C03", {
    "given-back": "every lock asked for is given back on every way out of a challenge",
    "one-go": "all locks are asked for without waiting in between",
    "asked-once": "no lock is asked for twice",
    "release-all": "releasing everything frees exactly the locks that are held",
    "abort-releases": "aborting the population frees every lock that is held",
    "failure-releases": "a run frees every held lock if a challenge fails",
})
def c03(ctx):
    cc = Concrete(ctx)
    for p in cc.paths:
        acq = p.find("acquire")
        seen = {}
        bal = {}
        for e in p.events:
            if e.kind == "acquire":
                lock = untag(e.d["lock"])
                ctx.ob("asked-once", "acquire in " + e.fi.qual, lock not in seen, e,
                       "the lock of slot %r is asked for twice" % (lock.args[0],), p)
                seen[lock] = e
                bal[lock] = bal.get(lock, 0) + 1
                first = acq[0]
                waits = [x for x in p.events[first.i:e.i] if x.kind == "suspend"]
                ctx.ob("one-go", "acquire in " + e.fi.qual, not waits, e,
                       "another lock is asked for after waiting with one held", p)
            elif e.kind == "release":
                lock = untag(e.d["lock"])
                if lock in bal:
                    bal[lock] -= 1
        left = [l for l, n in bal.items() if n > 0]
        ctx.ob("given-back", "exit of " + cc.fi.qual, not left,
               p.events[-1] if p.events else "",
               "locks of %s are still held at the end" % (
                   [l.args[0] for l in left],), p)
    ctx.need(any(p.find("acquire") for p in cc.paths), "a challenge asks for no lock")
    release_all(ctx, cc.roles)
    run_failure(ctx, cc.roles)


def locks_config(ctx, roles, states, **kw):
    """A population whose locks are in known states."""
    alias = dict(ONE_POP)
    alias[("Population", roles.locks)] = lambda it, ref: it.conc_locks
    return config(types=roles.types(), alias=alias, latch=LATCH, **kw)


def make_locks(it, states):
    refs = []
    for k, held in enumerate(states):
        t = Term("slotlock", (k,))
        refs.append(it.alloc(LockO(t, free=not held)))
        if held:
            it.held[t] = 1
    it.conc_locks = it.alloc(ListO(refs))


def judge_released(ctx, rule, key, p, states, fi):
    n = {}
    for e in p.find("release"):
        n[untag(e.d["lock"])] = n.get(untag(e.d["lock"]), 0) + 1
    ok = True
    msg = ""
    for k, held in enumerate(states):
        c = n.get(Term("slotlock", (k,)), 0)
        if held and c < 1:
            ok, msg = False, "the lock of slot %d of %d is held and not freed" % (
                k, len(states))
        elif not held and c:
            ok, msg = False, "a lock that is free is released"
        elif c > 1:
            ok, msg = False, "a lock is released twice"
    ctx.ob(rule, key, ok, "%s:%d %s" % (fi.path, fi.node.lineno, fi.qual), msg, p)


LOCK_STATES = [(True, True, True, True), (True, False, True, False),
               (False, False, False, True), (True, False, False, False),
               (False, False)]


def release_all(ctx, roles):
    for mname, rule in (("release", "release-all"), ("abort", "abort-releases")):
        fi = ctx.repo.method("Population", mname)
        for states in LOCK_STATES:
            def driver(it, fi=fi, states=states, mname=mname):
                it.pop = it.sym_inst("Population", "p")
                make_locks(it, states)
                # However it is called; release without indices is for all
                kw = {} if mname == "release" else {
                    a.arg: it.sym(a.arg) for a in fi.node.args.args[1:]}
                return it.call_fun(Fun(fi, None, it.pop), [], kw)
            cfg = locks_config(ctx, roles, states, opaque={
                "Reporter.abort": "none"})
            a = ctx.explore("Population.%s %s" % (mname, "".join(
                "H" if s else "-" for s in states)), cfg, driver)
            for p in a.paths:
                judge_released(ctx, rule, "Population." + mname, p, states, fi)


def run_failure(ctx, roles):
    """A failed challenge, or an abort, in the midst of a generation."""
    states = (True, False, True)
    fi = ctx.repo.method("DifferentialEvolution", "_run")

    def challenge(it, fun, args, kwargs, node, e):
        return it.alloc(DefO(True, NONE, "challenge"))

    def driver(it):
        it.pop = it.sym_inst("Population", "p")
        it.de = it.sym_inst("DifferentialEvolution", "de")
        make_locks(it, states)
        return it.call_fun(Fun(fi, None, it.de), [NONE], {})
    cfg = locks_config(ctx, roles, states, opaque={
        "DifferentialEvolution.challenge": challenge,
        "DifferentialEvolution.shutdown": opaque_shutdown,
        "Population.waitForReports": "deferred", "Population.report": "opaque",
        "Population.sample": opaque_sample, "Population.best": "opaque",
        "Population.kBest": "pure", "Population.KS": "pure",
        "Population.replacement": "opaque", "FManager.up": "none", "FManager.down": "none",
    }, max_loop=1)
    a = ctx.explore("DifferentialEvolution._run", cfg, driver)
    hit = False
    for p in a.paths:
        if not any(e.d.get("list_failed") for e in p.find("deferlist")):
            continue
        hit = True
        judge_released(ctx, "failure-releases", "DifferentialEvolution._run", p, states, fi)
    ctx.need(hit, "no path of a run on which a challenge fails")
