"""Helpers of the demonstration beside this file; run with cwd = the tree."""
import io
import os
import sys

sys.path.insert(0, os.getcwd())

import numpy as np
from twisted.internet import defer, reactor

from ade import abort
abort.callOnAbort = lambda func: None

from ade.population import Population, ParameterManager, ProbabilitySampler
from ade.de import DifferentialEvolution, FManager
from ade.individual import Individual
from ade.history import History, ClosestPairFinder, Analysis
from ade.report import Reporter
from ade.constraints import Constraints
from ade.specs import Specs, SpecsLoader
from ade import util

STARTED = []


def sphere(values, xSSE=None):
    return 1e9 if values is None else float(np.sum(np.square(values)))


def pop(func=sphere, Nd=2, bounds=None, **kw):
    names = ["p%d" % k for k in range(Nd)]
    kw.setdefault("popsize", 10)
    return Population(func, names, bounds or [(-5.0, 5.0)] * Nd, **kw)


def spin(seconds, until=lambda: False):
    if not STARTED:
        STARTED.append(reactor.startRunning())
    t = reactor.seconds() + seconds
    while not until() and reactor.seconds() < t:
        reactor.iterate(0.01)
    return until()


def result_of(d, seconds=20):
    """Runs the reactor until the Deferred fires."""
    out = []
    d.addBoth(out.append)
    if not spin(seconds, lambda: bool(out)):
        raise RuntimeError("Deferred never fired")
    if hasattr(out[0], "raiseException"):
        out[0].raiseException()
    return out[0]


def ready(func=sphere, **kw):
    p = pop(func, **kw)
    result_of(p.setup())
    return p


def later(value, seconds=0.0):
    d = defer.Deferred()
    reactor.callLater(seconds, d.callback, value)
    return d


def expect(cond, what):
    if not cond:
        sys.stdout.write("FAIL: %s\n" % what)
        sys.stdout.flush()
        os._exit(1)


def done():
    sys.stdout.write("OK\n")
    sys.stdout.flush()
    os._exit(0)
