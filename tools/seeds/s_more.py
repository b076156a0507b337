S = []

DE = "ade/de.py"
POP = "ade/population.py"
IND = "ade/individual.py"
REP = "ade/report.py"
HIST = "ade/history.py"
UTIL = "ade/util.py"
CONS = "ade/constraints.py"
ABORT = "ade/abort.py"
EX = "ade/scripts/examples.py"


def seed(id, property, needs, breaks, edits, demo):
    S.append(dict(id=id, property=property, needs=needs, breaks=breaks,
                  edits=edits, demo=demo))


seed("C04-reflect-without-clip", "C04",
     "a value so far outside its bound that its reflection is outside the other one",
     "Values that did not need reflecting at the lower bound are not clipped any more, so one "
     "that overshoots the upper bound by more than the range ends up below the lower bound.",
     [(POP, "        values = np.where(values > self.maxs, 2*self.maxs - values, values)\n"
       "        return np.clip(values, self.mins, self.maxs)\n",
       "        return np.where(values > self.maxs, np.minimum(\n"
       "            2*self.maxs - values, self.maxs), np.maximum(values, self.mins))\n")],
     """
p = pop(Nd=2, bounds=[(0.0, 1.0), (-1.0, 3.0)])
rng = np.random.RandomState(1)
for _ in range(500):
    X = p.pm.limit(rng.uniform(-9, 9, 2))
    expect(np.all(X >= p.pm.mins) and np.all(X <= p.pm.maxs), "%s is out of bounds" % X)
done()
""")

seed("C05-constraint-names", "C05",
     "parameter names that are not in alphabetical order, and a constraint",
     "Constraints get the values of the wrong parameters.",
     [(POP, "        for name, value in zip(self.names, values):\n            params[name] = value\n",
       "        for k, name, value in self.sortedNamerator(values):\n"
       "            params[self.names[len(params)]] = value\n")],
     """
got = []
def check(params):
    got.append(dict(params))
    return True
p = Population(sphere, ["b", "a"], [(0.0, 1.0), (10.0, 11.0)], constraints=[check])
p.pm.passesConstraints(np.array([0.5, 10.5]))
expect(got == [{"b": 0.5, "a": 10.5}], "constraint called with %s" % got)
done()
""")

seed("C06-crossed-with-base", "C06",
     "nothing but a look at the vectors that are evaluated",
     "Parameters that do not keep their mutated value get the base's value instead of the target's.",
     [(DE, "self.crossover(iTarget, iChallenger)", "self.crossover(iBase, iChallenger)")],
     """
got = []
def func(values, xSSE=None):
    if values is None:
        return
    got.append(np.array(values))
    return sphere(values)

p = ready(func, bounds=[(-50.0, 50.0)] * 2)
for k in range(4):
    p.iList[k] = p.spawn(np.array([[1.0, 2.0], [3.0, 5.0], [7.0, 11.0], [4.0, 6.0]][k]))
    p.iList[k].SSE = 1.0
p.sample = lambda N, *exclude, **kw: [2, 3] if N == 2 else 1
de = DifferentialEvolution(p, logHandle=None, CR=0.0, F=0.5)
de.fm = FManager(0.5, 0.0, p.Np, False)
del got[:]
result_of(de.challenge(0, 1))
expect(len(got) == 1, "evaluated %s" % got)
expect(any(np.allclose(got[0], x) for x in ([4.5, 2.0], [1.0, 7.5])), "challenger is %s" % got[0])
done()
""")

seed("C08-fatal-initial-goes-on", "C08",
     "a population setup in which an evaluation fails",
     "A fatal evaluation of an initial individual no longer stops the setup.",
     [(POP, "            if not i:\n                msg(0, \"Bogus initial",
       "            if i.SSE < 0:\n                msg(0, \"Bogus initial")],
     """
n = [0]
def func(values, xSSE=None):
    if values is None:
        return
    n[0] += 1
    return -1 if n[0] == 7 else sphere(values)

p = pop(func)
r = result_of(p.setup())
expect(not r and p.running is False, "setup went on after a fatal evaluation")
done()
""")

seed("C09-evaluates-after-abort", "C09",
     "an abort of the population while a challenge with an early-exit SSE is about to be evaluated",
     "With an early-exit SSE, parameter values are still evaluated after an abort.",
     [(POP, "        if self.running is False:\n            values = None\n        if xSSE is None:\n",
       "        if xSSE is None and self.running is False:\n            values = None\n        if xSSE is None:\n")],
     """
calls = []
def func(values, xSSE=None):
    calls.append(values)
    return 1.0
p = ready(func)
i = p[0].copy()
p.abort()
del calls[:]
result_of(i.evaluate(xSSE=3.0))
expect(all(x is None for x in calls), "evaluated after the abort")
done()
""")

seed("C10-reports-not-awaited", "C10",
     "a report callback that takes its time",
     "A generation starts while report callbacks of the previous one are still pending.",
     [(DE, "            yield self.p.waitForReports()\n            if not self.running or",
       "            if not self.running or")],
     """
p = ready()
pending = []
def callback(values, counter, SSE):
    pending.append(1)
    return later(None, 0.05).addCallback(lambda _: pending.pop())
p.addCallback(callback)
de = DifferentialEvolution(p, logHandle=None, maxiter=12, bitterEnd=True)
started = []
real = de.challenge
def challenge(kt, kb):
    if kt == 0:
        started.append(len(pending))
    return real(kt, kb)
de.challenge = challenge
result_of(de())
expect(len(started) == 12, "generations: %s" % started)
expect(not any(started), "reports pending at the start of each generation: %s" % started)
done()
""")

seed("C11-dwell-never-reset", "C11",
     "a run that improves in between generations at the limit of the mutation weight",
     "Generations without enough improvement are counted since the start of the run instead of since "
     "the last successful one, so a run that still makes progress stops.",
     [(DE, "                self.fm.up()\n                self.dwellCount = 0\n",
       "                self.fm.up()\n")],
     """
p = ready()
de = DifferentialEvolution(p, logHandle=None, maxiter=12, dwellByGrave=2, F=0.5)
answers = []
def replacement(*args):
    if args: return
    answers.append(len(answers) % 2)
    return answers[-1] == 1
p.replacement = replacement
down = FManager.down
def limited(self):
    self.limited = True
FManager.down = limited
got = []
result_of(de(got.append))
expect(len(answers) == 12, "the run stopped after %d generations" % len(answers))
done()
""")

seed("C12-range-upside-down", "C12",
     "a range of weights adapted down until its limit",
     "The upper end of the range is lowered below the lower end.",
     [(DE, "            if proposedF > self.minHighestVsLowest * lowest:\n", "            if proposedF > self.criticalF:\n")],
     """
for low in (0.3, 0.35, 0.4, 0.45, 0.5, 0.55):
    for Np in (20, 30, 40, 60, 100):
        fm = FManager((low, 1.0), 0.8, Np, True)
        for _ in range(200):
            fm.down()
            expect(fm.F[1] > fm.F[0], "the range is %s" % fm.F)
done()
""")

seed("C13-repeated-sample", "C13",
     "a sample of more than one slot with a fractional randomness",
     "A partially random sample may contain the same slot twice.",
     [(POP, "                if k in result: continue\n                result.append(k)\n",
       "                if k in exclude: continue\n                result.append(k)\n")],
     """
p = ready()
for _ in range(300):
    K = p.sample(3, 0, 1, randomBase=0.2)
    expect(len(set(K)) == 3 and not set(K) & {0, 1}, "sampled %s" % K)
done()
""")

seed("C14-limit-in-batches", "C14",
     "evaluations that take time and a population of more than twice the number allowed in parallel",
     "More evaluations than allowed are under way at the same time during setup.",
     [(POP, "                    yield dt.deferUntilFewer(self.N_maxParallel)\n",
       "                    if not k % self.N_maxParallel:\n"
       "                        yield dt.deferUntilFewer(self.N_maxParallel)\n")],
     """
n = [0, 0, 0]
def func(values, xSSE=None):
    if values is None:
        return
    n[0] += 1
    n[1] = max(n[:2])
    n[2] += 1
    def over(x):
        n[0] -= 1
        return x
    return later(sphere(values), 0.6 if n[2] % 5 else 0.05).addCallback(over)
p = pop(func, popsize=30)
result_of(p.setup())
expect(len(p) == p.Np == 60, "%d members" % len(p))
expect(n[1] <= p.N_maxParallel, "%d evaluations at a time" % n[1])
done()
""")

seed("C15-tie-is-worse", "C15",
     "two individuals with the same SSE",
     "An individual counts as worse than one with the very same SSE.",
     [(IND, "        return float(self) > float(other)\n", "        return not self < other\n")],
     """
p = ready()
a, b, c = [p.spawn(np.array([float(k), 2.0])) for k in range(3)]
a.SSE, b.SSE, c.SSE = 3.0, 3.0, 4.0
expect(c > a and not a > c, "order of different SSEs")
expect(not a > b and not b > a and not a < b, "order of equal SSEs")
expect(not a > 3.0, "compared with its own SSE")
done()
""")


seed("C16-stale-sorted", "C16",
     "the sorted members asked for, a replacement, the ranking asked for, the sorted members again",
     "The list of sorted members is not renewed if the ranking was asked for first.",
     [(POP, "        self._KS = None\n        del self.iSorted\n", "        self._KS = None\n")],
     """
p = ready()
p.iSorted
i = p.spawn(np.zeros(2))
i.SSE = 0.0
p[p.KS[-1]] = i
p.kBest
expect(p.iSorted[0] is i and len({id(x) for x in p.iSorted}) == len(p), "stale sorted members")
done()
""")

seed("C17-push-keeps-protection", "C17",
     "an individual put in a slot whose member has the same SSE",
     "The record of a replaced member stays protected if its SSE is that of its replacement.",
     [(POP, "            self.history.notInPop(iPrev)\n",
       "            if float(iPrev.SSE) != float(i.SSE): self.history.notInPop(iPrev)\n")],
     """
p = ready()
iOld = p[3]
iNew = p.spawn(iOld.values + 0.01)
iNew.SSE = iOld.SSE
N = len(p.history.Kp)
p[3] = iNew
result_of(p.history.shutdown())
expect(len(p.history.Kp) == N, "%d protected records for %d members" % (len(p.history.Kp), N))
done()
""")

seed("C18-lock-not-given-back", "C18",
     "a purge of the population's records from a history that has none",
     "Purging an already purged history leaves it blocked.",
     [(HIST, "            self.kr.clear()\n        return self.dLock.run(gotLock)",
       "            self.kr.clear()\n            self.dLock.release()\n"
       "        if self.Kp: return self.dLock.run(gotLock)\n"
       "        return self.dLock.acquire().addCallback(lambda _: self.kr.clear())")]
     if False else
     [(HIST, "        return self.dLock.acquire().addCallback(lambda _: self.dLock.release())",
       "        return self.dLock.acquire().addCallback(\n"
       "            lambda _: self.dLock.waiting or self.dLock.release())")],
     """
p = ready()
h = p.history
d1, d2 = None, None
h.dLock.acquire()
d1, d2 = h.shutdown(), h.shutdown()
h.dLock.release()
got = []
d2.addCallback(got.append)
spin(0.1)
expect(got, "waiting for the history to settle does not end")
done()
""")

seed("C21-tie-becomes-best", "C21",
     "a forced report of an individual that ties the best one so far",
     "An individual that merely ties the best one becomes the best one.",
     [(REP, "        if self.iBest is None or i < self.iBest:\n            # Register",
       "        if self.iBest is None or not i > self.iBest:\n            # Register")],
     """
p = ready()
i, j = p.spawn(np.zeros(2)), p.spawn(np.ones(2))
i.SSE = j.SSE = 0.5
r = Reporter(p)
r(i)
r(j, force=True)
expect(r.iBest is i, "the best individual was replaced by one that is no better")
done()
""")

seed("C22-goes-on-after-abort", "C22",
     "two report callbacks, the first of which aborts the run",
     "After an abort the remaining report callbacks are still started.",
     [(REP, "                    if aborted(): break\n", "")],
     """
p = ready()
calls = []
def first(values, counter, SSE):
    calls.append(1)
    p.abort()
def second(values, counter, SSE):
    calls.append(2)
p.addCallback(first)
p.addCallback(second)
i = p.spawn(np.array([0.0, 0.0]))
i.SSE = 0.0
p.reporter.newBest(i)
spin(0.3)
expect(calls == [1], "callbacks called: %s" % calls)
done()
""")


seed("C23-zero-target", "C23",
     "a target whose SSE is exactly zero, with the early-exit option on",
     "A challenger of a perfect target is evaluated without an early-exit SSE.",
     [(POP, "        if xSSE is None:\n            return defer.maybeDeferred(self.func, values)\n",
       "        if not xSSE:\n            return defer.maybeDeferred(self.func, values)\n")],
     """
got = []
def func(values, **kw):
    got.append(kw)
    return 1.0
p = ready(func)
de = DifferentialEvolution(p, logHandle=None, xSSE=True)
de.fm = FManager(de.F, de.CR, p.Np, de.adaptive)
p[0].SSE = 0.0
del p.KS
del got[:]
result_of(de.challenge(0, 1))
expect(got == [{"xSSE": 0.0}], "evaluated with %s" % got)
done()
""")

seed("C24-flush-error", "C24",
     "a log destination whose flush fails",
     "A failing flush of the log destination raises in the middle of the program.",
     [(UTIL, "            self.fh.write(x)\n            self.fh.flush()\n            self.newlineNeeded = True\n        except: self._fhSet(None)\n",
       "            self.fh.write(x)\n            self.newlineNeeded = True\n        except: self._fhSet(None)\n        else: self.fh.flush()\n")],
     """
class Handle:
    def write(self, x): pass
    def flush(self): raise OSError("No space left on device")
    def close(self): pass
m = util.Messenger()
m(Handle())
try:
    m.writeChar("x")
except Exception as e:
    expect(False, "%r reaches the caller" % e)
expect(not m, "still logging")
done()
""")

seed("C25-overwrites", "C25",
     "an example file that exists as something else than a regular file, such as a directory",
     "Extraction writes into an existing directory of the name of an example file.",
     [(EX, "        if os.path.exists(ePath):\n", "        if os.path.isfile(ePath):\n")],
     """
import tempfile, shutil
home = tempfile.mkdtemp()
os.environ["HOME"] = home
try:
    from ade.scripts import examples
    os.makedirs(home + "/ade-examples/voc.py")
    try:
        examples.extract()
    except Exception:
        pass
    left = os.listdir(home + "/ade-examples/voc.py")
finally:
    shutil.rmtree(home)
expect(not left, "wrote into an existing directory")
done()
""")

seed("C28-runs-twice", "C28",
     "input that arrives while the actions of an abort are being run",
     "Abort actions run again if more input arrives while they are being run.",
     [(ABORT, "        while self.callbacks:\n            func = self.callbacks.pop(0)\n            func()\n",
       "        for func in self.callbacks:\n            func()\n        del self.callbacks[:]\n")],
     """
import importlib
importlib.reload(abort)
kb = abort.Keyboard.__new__(abort.Keyboard)
kb.callbacks, kb.ignoreAll, kb.triggerID = [], False, None
got = []
def first():
    got.append(1)
    if len(got) < 3:
        kb.dataReceived(b"x")
kb.callbacks.append(first)
kb.dataReceived(b"x")
expect(got == [1], "action run %d times" % len(got))
done()
""")

seed("C29-missing-rejects", "C29",
     "a constraint on linear and log-space parameters of which only a log-space one is missing",
     "A constraint one of whose log-space parameters is missing is applied to the others.",
     [(CONS, "                if not logParams.issubset(params):\n                    return True\n                for name in logParams:\n                    if name not in newParams:\n",
       "                for name in logParams.intersection(params):\n                    if name not in newParams:\n")],
     """
class C(Constraints):
    registry = {"check": (set("a"), set("bc"))}
    def check(self, params):
        return "c" in params
f = list(C())[0]
expect(f({"a": 1, "b": 2, "c": 3}), "rejects a complete set")
expect(f({"a": 1, "b": 2}), "does not accept with a parameter missing")
done()
""")

seed("C31-great-leap-capped", "C31",
     "a challenger more than ten times as good as its target",
     "A greater improvement adds no more than one by a factor of ten.",
     [(POP, "rir - 0.5", "min(rir, 10) - 0.5")],
     """
p = ready()
def score(rir):
    p.replacement()
    p.replacement(rir)
    return p.replacementScore
got = [score(x) for x in (0, 1, 2, 5, 10, 11, 50, 1000)]
expect(all(a < b for a, b in zip(got, got[1:])), "scores: %s" % got)
done()
""")


seed("C32-perfect-challenger", "C32",
     "a challenger with an SSE of zero",
     "Comparing a target with a perfect challenger fails.",
     [(REP, "            if not iDenom.SSE:\n                ratio = 1000\n            else:\n                ratio = np.round(\n                    float(iNum.SSE) / float(iDenom.SSE))\n",
       "            ratio = min(1000, np.round(\n                float(iNum.SSE) / float(iDenom.SSE)))\n")],
     """
p = ready()
a, b = [p.spawn(np.array([float(k), 2.0])) for k in range(2)]
a.SSE, b.SSE = 3.0, 0.0
try:
    r = p.reporter.msgRatio(a, b)
except Exception as e:
    r = e
expect(r == 1000, "ratio: %r" % (r,))
done()
""")


seed("C33-total-time", "C33",
     "a part that is called more often than another",
     "Parts are ranked by the average over one call too many, so that a part called once is "
     "taken to be twice as fast.",
     [(UTIL, "            avgTime = self.times[ID] / self.Ns[ID]\n",
       "            avgTime = self.times[ID] / (self.Ns[ID] + 1)\n")],
     """
import time
t = util.EvalTimer(0)
now = [0.0]
util.time.time = lambda: now[0]
def part(ID, dt):
    now[0] += dt
    return defer.succeed(None)
for k in range(9):
    t(part, "a", 1.0)
t(part, "b", 1.5)
expect(list(t) == ["a", "b"], "order is %s" % list(t))
done()
""")

seed("C34-former-members", "C34",
     "a history with records that never were members, asked for the former members",
     "Records that never were members are returned as former members.",
     [(HIST, "            K = [k for k in self.K if k not in self.Kp and k not in self.Kn]\n",
       "            K = [k for k in self.K if k not in self.Kp or k in self.Kn]\n")],
     """
X = np.array([[1.0, 10.0], [2.0, 20.0], [3.0, 30.0]])
a = Analysis(["x"], X, [0, 1, 2], {0}, {2})
got = a.value_vs_SSE(["x"], notInPop=True)
expect(list(got[1]) == [20.0], "former members: %s" % list(got[1]))
done()
""")

seed("C07-base-itself", "C07",
     "two members with the very same parameter values",
     "A challenger made from two equal individuals is the base itself, whose values are then changed.",
     [(IND, "        return self.spawn(self.values + other.values)\n",
       "        if not np.any(other.values): return self\n"
       "        return self.spawn(self.values + other.values)\n")],
     """
p = ready(bounds=[(-50.0, 50.0)] * 2)
for k in range(4):
    p.iList[k] = p.spawn(np.array([[1.0, 2.0], [3.0, 5.0], [7.0, 11.0], [7.0, 11.0]][k]))
    p.iList[k].SSE = 1.0
p.sample = lambda N, *exclude, **kw: [2, 3] if N == 2 else 1
de = DifferentialEvolution(p, logHandle=None, CR=0.0, F=0.5)
de.fm = FManager(0.5, 0.0, p.Np, False)
base = p.iList[1]
result_of(de.challenge(0, 1))
expect(list(base.values) == [3.0, 5.0] and base.SSE == 1.0, "the base is now %s" % list(base.values))
done()
""")

seed("C34-dropped-still-never", "C34",
     "a full history from which a record that never was a member is dropped",
     "A record that was dropped still counts as one that never was a member, and its row is reported as such "
     "when a member is recorded in it.",
     [(HIST, "        self.Kn.discard(kr)\n", "")],
     """
p = ready()
h = History(["p0", "p1"], N_max=4)
def ind(k, SSE):
    i = p.spawn(np.array([float(k), 2.0 * k]))
    i.SSE = SSE
    return i
kr = result_of(h.add(ind(1, 1.0), neverInPop=True))
h.purge(kr)
expect(result_of(h.add(ind(2, 2.0))) == kr, "recorded in another row")
got = result_of(h.value_vs_SSE(["p0"], neverInPop=True))
expect(len(got[0]) == 0, "never members: %s" % (got,))
done()
""")

seed("C27-zero-is-default", "C27",
     "an option set to zero",
     "An option that is given as zero is replaced by its default.",
     [(DE, "            if value is None: value = self.attributes[name]\n",
       "            if not value: value = self.attributes[name]\n")],
     """
p = ready()
de = DifferentialEvolution(p, logHandle=None, CR=0.0, dwellByGrave=0, adaptive=False)
expect(de.CR == 0.0, "CR is %s" % de.CR)
expect(de.dwellByGrave == 0, "dwellByGrave is %s" % de.dwellByGrave)
expect(de.adaptive is False, "adaptive is %s" % de.adaptive)
done()
""")

seed("C26-third-level", "C26",
     "an entry of a dict in a dict in a dict",
     "An entry three levels down is loaded with its second key left out.",
     [("ade/specs.py", """        while True:
            key = keys.pop(0)
            if keys:
                dct = dct.setdefault(key, {})
            else:
                dct[key] = value
                break
""", """        if len(keys) > 1:
            dct = dct.setdefault(keys[0], {})
        dct[keys[-1]] = value
""")],
     """
import os, tempfile
from ade.specs import SpecsLoader
d = tempfile.mkdtemp()
path = os.path.join(d, "x.specs")
with open(path, "w") as fh:
    fh.write("params\\n-----\\na:b:c 1\\na:b:d 2\\ne 3\\n-----\\n")
try:
    s = SpecsLoader(path)()
finally:
    os.remove(path)
    os.rmdir(d)
expect(s.params == {"a": {"b": {"c": 1.0, "d": 2.0}}, "e": 3.0}, "loaded: %s" % s.params)
done()
""")

seed("C26-known-name", "C26",
     "a dict with the name of a value that was defined before it",
     "A dict that is defined after a value of the same name is dropped.",
     [("ade/specs.py", "        setattr(self, name, value)\n",
       "        if not (isinstance(value, dict) and hasattr(self, name)):\n"
       "            setattr(self, name, value)\n")],
     """
import os, tempfile
from ade.specs import SpecsLoader
d = tempfile.mkdtemp()
path = os.path.join(d, "x.specs")
with open(path, "w") as fh:
    fh.write("x 3\\nx\\n-----\\na 1\\n-----\\nb 2\\n")
try:
    s = SpecsLoader(path)()
finally:
    os.remove(path)
    os.rmdir(d)
expect(vars(s).get("x") == {"a": 1.0} and s.b == 2.0, "loaded: %s" % vars(s))
done()
""")

seed("C19-small-rows", "C19",
     "a history with more than 256 records, saved",
     "The rows of the records that never were members are saved in single bytes, so a history that "
     "has such a record in a row beyond 255 does not come back.",
     [(HIST, "'Kn': seq2bytes(list(self.Kn), 'u2'),", "'Kn': seq2bytes(list(self.Kn), 'u1'),")],
     """
import pickle
h = History(["a", "b"], N_max=400)
p = pop(Nd=2)
for k in range(300):
    i = Individual(p, np.array([k/100.0, 1.0]))
    i.SSE = 1000.0 + k
    result_of(h.add(i, neverInPop=True))
h2 = None
try:
    h2 = pickle.loads(pickle.dumps(h))
except Exception as e:
    expect(False, "not saved and loaded: %r" % (e,))
expect(set(int(k) for k in h2.Kn) == set(int(k) for k in h.Kn), "other rows after loading")
done()
""")

seed("C19-fraction-forgotten", "C19",
     "a population with its own target fraction of challenger wins, saved",
     "The target fraction is not saved, so the loaded population has the default one.",
     [(POP, "'Nd', 'Np', 'popsize', 'targetFraction', 'statusQuoScore',",
       "'Nd', 'Np', 'popsize', 'statusQuoScore',")],
     """
import pickle
p = ready(targetFraction=0.11)
q = pickle.loads(pickle.dumps(p))
expect(getattr(q, "targetFraction", None) == 0.11,
       "target fraction is %s after loading" % getattr(q, "targetFraction", None))
done()
""")

seed("C19-one-lock", "C19",
     "a loaded population of which two members are locked",
     "All the members of a loaded population share one lock, so locking two of them at once never "
     "succeeds.",
     [(POP, "        for i in self.iList:\n            i.p = self\n"
       "            self.dLocks.append(defer.DeferredLock())\n\n    def save(",
       "        for i in self.iList: i.p = self\n"
       "        self.dLocks.extend([defer.DeferredLock()]*len(self.iList))\n\n    def save(")],
     """
import pickle
p = ready()
q = pickle.loads(pickle.dumps(p))
try:
    result_of(q.lock(0, 1), 5)
except RuntimeError as e:
    expect(False, "two members cannot be locked: %s" % e)
done()
""")
