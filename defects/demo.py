"""
Demonstrations, against the real code, of the defects that the checks
reported.  Not part of any check.  Each demonstration prints OK or FAIL;
at the repaired commit all of them print OK.

    /opt/venv/bin/python /verif/defects/demo.py [name ...]
"""
import io
import os
import subprocess
import sys
import tempfile

REPO = os.environ.get("ADE_REPO", "/repo")
sys.path.insert(0, REPO)

import numpy as np
from twisted.internet import defer, reactor

from ade import abort
abort.callOnAbort = lambda func: None

from ade.population import Population
from ade.de import DifferentialEvolution
from ade.individual import Individual
from ade.history import History, ClosestPairFinder
from ade.constraints import Constraints
from ade.specs import Specs, SpecsLoader
from ade import util

DEMOS = {}
STARTED = []


def demo(f):
    DEMOS[f.__name__] = f
    return f


def pop(func, Nd=2, **kw):
    names = ["p%d" % k for k in range(Nd)]
    return Population(func, names, [(-5.0, 5.0)] * Nd, popsize=10, **kw)


def sphere(values):
    return 1e9 if values is None else float(np.sum(np.square(values)))


def result_of(d, seconds=20):
    """Runs the reactor until the Deferred fires."""
    out = []
    d.addBoth(out.append)
    t = reactor.seconds() + seconds
    if not STARTED:
        STARTED.append(reactor.startRunning())
    while not out and reactor.seconds() < t:
        reactor.iterate(0.01)
    if not out:
        raise RuntimeError("Deferred never fired")
    if hasattr(out[0], "raiseException"):
        out[0].raiseException()
    return out[0]


def ready(func=sphere, **kw):
    p = pop(func, **kw)
    result_of(p.setup())
    return p


@demo
def goal_sse():
    p = ready()
    de = DifferentialEvolution(p, logHandle=None, maxiter=4, goalSSE=1e12)
    gens = []
    result_of(de(gens.append))
    return gens == [] or "generations %s" % gens


@demo
def restore_previous_best():
    p = ready()
    r = p.reporter
    seen = []
    r.complaintCallback = lambda i, result: None
    best = r.iBest

    def complain(values, counter, SSE):
        return 1 if SSE < 1e-3 else None
    r.addCallback(complain)
    i = p.spawn(np.zeros(2))
    i.SSE = 1e-6
    r.newBest(i)
    result_of(r.waitForCallbacks())
    return r.iBest is best or "iBest SSE is %s" % r.iBest.SSE


@demo
def history_lock_released_after_failure():
    h = History(["a", "b"], N_max=5)

    class I:
        SSE = 1.0
        values = [1.0, 2.0, 3.0, 4.0]   # wrong length: writing fails
    h.add(I()).addErrback(lambda f: None)
    return not h.dLock.locked or "still locked"


@demo
def full_roster_of_members():
    h = History(["a"], N_max=3)
    p = pop(sphere, Nd=1)
    for k in range(3):
        i = Individual(p, [float(k)])
        i.SSE = 1.0 + k
        result_of(h.add(i))
    i = Individual(p, [9.0])
    i.SSE = 0.5
    kr = result_of(h.add(i), 5)
    return (kr is None and len(h.K) == 3 and not h.dLock.locked) \
        or "kr=%s K=%s" % (kr, h.K)


@demo
def hash_across_processes():
    code = ("import sys; sys.path.insert(0, %r)\n"
            "import numpy as np\n"
            "from ade.individual import Individual\n"
            "class P: Nd = 2\n"
            "i = Individual(P(), np.array([1.0, 2.0])); i.SSE = 3.0\n"
            "print(hash(i))\n" % REPO)
    out = set()
    for seed in ("1", "2"):
        env = dict(os.environ, PYTHONHASHSEED=seed)
        out.add(subprocess.check_output([sys.executable, "-c", code], env=env))
    return len(out) == 1 or "hashes %s" % out


@demo
def hash_equal_individuals():
    class P:
        Nd = 2
    a = Individual(P(), [1, 2])
    b = Individual(P(), [1.0, 2.0])
    c = Individual(P(), [0.0, 2.0])
    d = Individual(P(), [-0.0, 2.0])
    for i in (a, b, c, d):
        i.SSE = 3.0
    return (a == b and hash(a) == hash(b) and c == d and hash(c) == hash(d)) \
        or "equal individuals with different hashes"


@demo
def hash_huge_sse():
    class P:
        Nd = 2
    a = Individual(P(), [1.0, 2.0])
    a.SSE = 1e60
    hash(a)
    return True


@demo
def kkr_free_row():
    """Rows 1,2 used, then a third record."""
    import random
    random.seed(3)
    for trial in range(400):
        N_max = random.randint(2, 9)
        h = History(["a"], N_max=N_max)
        h.X[:, 0] = np.arange(N_max)
        n = random.randint(1, N_max - 1)
        h.K = sorted(random.sample(range(N_max), n))
        k, kr = h.kkr(random.random() * N_max, n)
        if kr in h.K or not 0 <= kr < N_max:
            return "K=%s N_max=%d gives row %s" % (h.K, N_max, kr)
    return True


@demo
def line_written():
    m = util.Messenger()
    m(io.StringIO())
    m("Hello")
    return bool(m.lineWritten()) or "no line noted"


@demo
def eval_timer():
    et = util.EvalTimer(0)
    ds = {}

    def part(ID):
        ds[ID] = defer.Deferred()
        return ds[ID]
    import time
    et(part, "slow")
    time.sleep(0.2)
    ds["slow"].callback(None)
    et(part, "fast")
    ds["fast"].callback(None)
    return (list(et) == ["fast", "slow"] and et.times["slow"] < 10) \
        or "order %s times %s" % (list(et), et.times)


@demo
def nonconforming_initial():
    seen = []

    def func(values):
        if values is not None:
            seen.append(values)
        return 1.0
    p = pop(func, constraints=[lambda params: False])
    p.maxTries = 3
    result_of(p.setup())
    return (not seen and len(p) == 0) or "%d evaluated, %d admitted" % (len(seen), len(p))


@demo
def nonconforming_initial_blank():
    p = pop(sphere, constraints=[lambda params: False])
    p.maxTries = 3
    result_of(p.setup(blank=True))
    return len(p) == 0 or "%d admitted" % len(p)


@demo
def nan_admitted():
    n = [0]

    def func(values):
        if values is None:
            return 1e9
        n[0] += 1
        return float("nan") if n[0] % 3 == 0 else sphere(values)
    p = ready(func)
    bad = sum(1 for i in p if np.isnan(float(i.SSE)))
    return bad == 0 or "%d NaN members" % bad


@demo
def nan_ordering():
    p = pop(sphere)
    a, b = p.spawn(np.zeros(2)), p.spawn(np.ones(2))
    a.SSE = float("nan")
    b.SSE = 1.0
    return (b < a and a > b and not a < b) or "finite is not better than NaN"


@demo
def callback_failure_stops_run():
    p = ready()
    calls = []

    def cb(values, counter, SSE):
        if len(calls):
            raise ValueError("callback failed")
        calls.append(SSE)
    p.addCallback(cb)
    None_calls = []
    f0 = p.func

    def func(values):
        if values is None:
            None_calls.append(1)
            return 0.0
        return f0(values)
    p.func = func
    de = DifferentialEvolution(p, logHandle=None, maxiter=20, adaptive=False)
    gens = []
    result_of(de(gens.append))
    bad = [i for i in p if float(i.SSE) == 0.0]
    return (not bad and len(gens) < 19) or \
        "%d generations, %d members from evaluating None" % (len(gens), len(bad))


@demo
def challenge_failure_releases_locks():
    n = [0]

    def constraint(params):
        n[0] += 1
        if n[0] == 60:
            raise RuntimeError("constraint raised")
        return True
    p = ready(constraints=[constraint])
    de = DifferentialEvolution(p, logHandle=None, maxiter=4)
    result_of(de())
    held = [k for k, x in enumerate(p.dLocks) if x.locked]
    return not held or "locks %s still held" % held


@demo
def ranking_during_setup():
    p = pop(sphere)
    best = []

    def func(values):
        if values is None:
            return 1e9
        if len(p):
            b = p.best()
            m = min(float(i.SSE) for i in p)
            best.append((float(b.SSE), m))
        return sphere(values)
    p.func = func
    result_of(p.setup())
    bad = [x for x in best if x[0] != x[1]]
    return not bad or "best() wrong %d of %d times" % (len(bad), len(best))


@demo
def complaint_callback_failure():
    p = ready()
    r = p.reporter

    def boom(i, result):
        raise RuntimeError("complaint callback failed")
    r.complaintCallback = boom
    r.addCallback(lambda v, c, s: 1)
    i = p.spawn(np.zeros(2))
    i.SSE = 1e-6
    r.newBest(i)
    try:
        result_of(r.waitForCallbacks())
    except Exception:
        pass
    import gc
    gc.collect()
    return not r.cbrInProgress or "callback run still marked as in progress"


def specs(text):
    s = Specs()
    try:
        SpecsLoader("x").read(io.StringIO(text), s)
    except ValueError:
        return "rejected"
    return s


@demo
def specs_empty():
    return specs("") != "rejected"


@demo
def specs_unterminated():
    s = specs("d\n-----\na 1\nb 2\n")
    return s == "rejected" or getattr(s, "d", None) == {"a": 1.0, "b": 2.0} \
        or "silently dropped"


@demo
def specs_key_without_value():
    s = specs("d\n-----\na\n-----\n")
    return s == "rejected" or "accepted"


@demo
def specs_lone_name():
    s = specs("d\nx 1\n")
    return s == "rejected" or "silently dropped"


@demo
def specs_lone_name_at_end():
    s = specs("x 1\nd\n")
    return s == "rejected" or "silently dropped"


@demo
def constraints_wrappers():
    class C(Constraints):
        registry = {"one": [{"a"}, None], "two": [{"b"}, None]}

        def one(self, params):
            return params["a"] > 0

        def two(self, params):
            return params["b"] > 0
    checkers = list(C())
    return (checkers[0]({"a": -1, "b": 1}) is False or
            "first checker did not check its own parameter")


@demo
def constraints_repeated():
    class C(Constraints):
        registry = {"one": [{"a"}, None]}

        def one(self, params):
            return params["a"] > 0
    for f in C():
        f({"a": 1})
        return f({"a": -1}) is False or "second call judged by the first call's values"


@demo
def log_close_failure():
    class Bad:
        def write(self, x):
            raise IOError("disk full")

        def flush(self):
            pass

        def close(self):
            raise IOError("disk full")
    m = util.Messenger()
    m.fh = Bad()
    m("Hello there")
    return m.fh is None or "still logging"


@demo
def blacklisted_history():
    """A demoted member's history record stays protected after it leaves."""
    p = ready()
    i = p[3]
    i.blacklist()
    j = p.spawn(np.zeros(2))
    j.SSE = 1e-3
    p[3] = j
    result_of(p.history.shutdown())
    return len(p.history.Kp) == len(p) or \
        "%d protected records for %d members" % (len(p.history.Kp), len(p))


def main(names):
    code = 0
    for name, f in DEMOS.items():
        if names and name not in names:
            continue
        out, sys.stdout = sys.stdout, io.StringIO()
        try:
            r = f()
        except BaseException as e:
            r = "%s: %s" % (type(e).__name__, e)
        finally:
            sys.stdout = out
        if r is True:
            print("OK   %s" % name)
        else:
            print("FAIL %s: %s" % (name, r))
            code = 1
    return code


if __name__ == "__main__":
    code = main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(code)
