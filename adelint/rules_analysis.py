"""C34: what the analysis of the history hands out."""

from .absint import Const, ListO
from .core import check
from .hist_model import Hist, Roster
from .pop_model import level_of
from .rules_history import failure, where
from .source import AnalysisBroken

C34 = {
    "rows": "exactly the records that meet the restriction are returned",
    "order": "in order of increasing SSE",
    "columns": "the SSE first, then each named parameter in the order asked for",
    "answers": "the question is answered whatever is recorded",
}
NAMES = ("d", "a", "c")
ASKED = ((("c",), "one parameter"), (("d", "c"), "two parameters"),
         (("c", "a", "d"), "all parameters"), ((), "no names"))
FILTERS = {None: "every record", "inPop": "current members", "notInPop": "former members",
           "neverInPop": "those never in the population"}


class Records(Roster):
    def kind(self, row):
        for k, l in (("inPop", self.members), ("notInPop", self.former),
                     ("neverInPop", self.never)):
            if row in [self.row(i) for i in l]:
                return k
        return None

    def expected(self, flt, ratio):
        rows = self.rows()
        if rows is None:
            raise AnalysisBroken("unknown records")
        lev = {self.row(i): level_of(self.it, self.it.getattr(i, "SSE"))
               for i in self.members + self.former + self.never}
        zero = [r for r in rows if lev.get(r) == 0]
        low = min([bottom(lev[r]) for r in rows if r in lev] or [0])
        out = []
        for r in rows:
            if r not in lev:
                continue
            if flt and self.kind(r) != flt:
                continue
            if zero and lev[r] != 0:
                continue
            if not zero and bottom(lev[r]) > ratio * low:
                continue
            out.append(r)
        return sorted(out, key=lambda r: lev[r])

    def ask(self, names, flt=None, ratio=None):
        it = self.it
        kw = {}
        if flt:
            kw[flt] = Const(True)
        if ratio:
            kw["maxRatio"] = Const(ratio)
        want = self.expected(flt, ratio or 1000)
        v = self.call("value_vs_SSE", it.alloc(ListO([Const(x) for x in names])), **kw)
        cols = it.known_items(v)
        if cols is None:
            raise AnalysisBroken("unknown answer")
        got = []
        for c in cols:
            xs = it.known_items(c)
            if xs is None:
                raise AnalysisBroken("unknown column in the answer")
            got.append([it.T(x) for x in xs])
        names = names or sorted(NAMES)
        idx = [0] + [1 + NAMES.index(x) for x in names]
        return got, [[r[k] for r in want] for k in idx]


def bottom(lev):
    return 10 * lev + 1.5


def scenarios():
    def filled(r):
        for lev, never in ((5, 0), (2, 1), (1, 0), (3, 0), (4, 1)):
            r.add(r.individual(lev), bool(never))

    def withdrawn(r):
        filled(r)
        r.withdraw(r.members[0])
        yield "after one left"
        r.withdraw(r.members[1])
        yield "after two left"

    def nothing(r):
        yield "nothing recorded"

    def never(r):
        for lev in (3, 1):
            r.add(r.individual(lev), True)
        yield "no members"

    def purged(r):
        filled(r)
        r.withdraw(r.members[0])
        r.purge()
        yield "after the members are removed"
        r.add(r.individual(6))
        r.add(r.individual(7), True)
        yield "and others come"

    def cleared(r):
        filled(r)
        r.withdraw(r.members[0])
        r.clear()
        yield "after clearing"
        for lev, nv in ((4, 1), (2, 0), (3, 0)):
            r.add(r.individual(lev), bool(nv))
        r.withdraw(r.members[0])
        yield "after clearing, with others"

    def zero(r):
        filled(r)
        i = r.individual(0)
        r.it.setattr(i, "SSE", Const(0.0), None)
        r.add(i)
        yield "a zero SSE"
        r.withdraw(i)
        yield "a zero SSE that left"

    def single(r):
        r.add(r.individual(2))
        yield "one member"

    def mixed(r):
        filled(r)
        yield "members and others"

    def full(r):
        for lev in (3, 1, 5):
            r.add(r.individual(lev), True)
        for lev in (2, 4):
            r.add(r.individual(lev))
            yield "members in place of others"
        r.withdraw(r.members[0])
        r.add(r.individual(6), True)
        yield "others in place of members"
    full.capacity = 3
    return mixed, withdrawn, nothing, never, purged, cleared, zero, single, full


@check("C34", C34)
def c34(ctx):
    here = where(ctx.repo.method("Analysis", "value_vs_SSE"))
    hm = Hist(ctx)
    for steps in scenarios():
        for names, nm in ASKED:
            for flt, ratio in ((None, None), ("inPop", None), ("notInPop", None),
                               ("neverInPop", None), (None, 2.3), (None, 3), ("inPop", 3),
                               ("neverInPop", 2.3), ("notInPop", 3), (None, 1.3)):
                if len(names) != 2 and ratio and flt:
                    continue
                what = "%s%s" % (FILTERS[flt], " with a ratio up to %s" % ratio if ratio else "")

                def driver(it):
                    r = Records(it, getattr(steps, "capacity", 7), NAMES)
                    it.answers = []
                    for state in steps(r):
                        it.state = state
                        it.answers.append((state,) + r.ask(names, flt, ratio))
                for p in hm.explore("%s: %s, %s" % (steps.__name__, what, nm), driver).paths:
                    key = "%s: %s" % (FILTERS[flt], nm)
                    if p.outcome != "return":
                        st = getattr(p.it, "state", "-")
                        ctx.ob("answers", key, False, here, "asking for %s (%s) fails with %s: %s"
                               % (what, nm, st, failure(p)), p)
                        continue
                    ctx.ob("answers", key, True, here, "", p)
                    for st, got, want in p.it.answers:
                        ok = len(got) == len(want)
                        ctx.ob("columns", key, ok, here, "asking for %s gives %d columns instead "
                               "of %d" % (nm, len(got), len(want)), p)
                        if not ok:
                            continue
                        same = sorted(map(repr, got[0])) == sorted(map(repr, want[0]))
                        ctx.ob("rows", key, same, here, "asking for %s (%s) gives %d records where "
                               "%d meet it" % (what, st, len(got[0]), len(want[0])), p)
                        if not same:
                            continue
                        ctx.ob("order", key, got[0] == want[0], here, "the records are not in "
                               "order of SSE (%s, %s)" % (what, st), p)
                        if got[0] == want[0]:
                            ctx.ob("columns", key, got == want, here, "a column asked for (%s) is "
                                   "not that parameter (%s, %s)" % (nm, what, st), p)
