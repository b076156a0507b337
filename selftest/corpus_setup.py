"""Edits of how the population is filled."""

from common import *

C = Corpus()
M, bug, ok = C.M, C.bug, C.ok

ADD = "            if isFinite and needMore(): addIndividual(i)\n"
bug("c14-overfill", "C14", (POP, ADD, "            if isFinite: addIndividual(i)\n"))
bug("c14-need-before", "C14", (POP, """                d = i.evaluate()
                d.addCallback(evaluated, d)
""", """                room = needMore()
                d = i.evaluate()
                d.addCallback(evaluated, room)
"""), (POP, "        def evaluated(i, d):", "        def evaluated(i, room):"),
    (POP, ADD, "            if isFinite and room: addIndividual(i)\n"))
bug("c14-le", "C14", (POP, "            return len(self.iList) < self.Np\n",
                      "            return len(self.iList) <= self.Np\n"))
bug("c14-count", "C14", (POP, "            while running() and needMore():",
                         "            while running() and k < self.Np:"))
bug("c14-inf", "C14", (POP, "isFinite = np.isfinite(float(i.SSE))", "isFinite = not np.isnan(float(i.SSE))"))
bug("c14-nan", "C14", (POP, "isFinite = np.isfinite(float(i.SSE))", "isFinite = not np.isinf(i.SSE)"))
bug("c14-none", "C14", (POP, "isFinite = np.isfinite(float(i.SSE))",
                        "isFinite = i._SSE is None or np.isfinite(float(i.SSE))"))
bug("c14-big", "C14", (POP, "isFinite = np.isfinite(float(i.SSE))", "isFinite = float(i.SSE) < 1E12"))
bug("c14-fatal-go-on", "C14", (POP, """                self.abort()
                return
            self.reporter(i)
""", """                return
            self.reporter(i)
"""))
bug("c14-fatal-add", "C14", (POP, """            if not i:
                msg(0, "Bogus initial evaluation of {}, aborting", i)
                self.abort()
                return
""", ""), (POP, "isFinite = np.isfinite(float(i.SSE))", "isFinite = np.isfinite(float(i._SSE))"))
bug("c14-done-true", "C14", (POP, """                self.initialize()
                return True
""", """                self.initialize()
            return True
"""))
bug("c14-no-lock", "C14", (POP, "            self.dLocks.append(defer.DeferredLock())\n            self.history",
                           "            self.history"))
bug("c14-parallel", "C14", (POP, "yield dt.deferUntilFewer(self.N_maxParallel)", "pass"))
bug("c14-parallel-np", "C14", (POP, "yield dt.deferUntilFewer(self.N_maxParallel)",
                               "yield dt.deferUntilFewer(self.Np)"))
bug("c14-parallel-put", "C14", (POP, "                    dt.put(d)\n", ""))
bug("c14-parallel-tail", "C14", (POP, "                else: yield d\n", "                else: dt.put(d)\n"))
bug("c14-blank-zero", "C14", (POP, "                    i.SSE = np.inf\n", "                    i.SSE = 0\n"))
bug("c14-blank-none", "C14", (POP, "                    i.SSE = np.inf\n", "                    pass\n"))
bug("c14-blank-eval", "C14", (POP, """                if blank:
                    i.SSE = np.inf
""", """                if blank:
                    yield i.evaluate()
                    i.SSE = np.inf
"""))
ok("c14-len", (POP, "            return len(self.iList) < self.Np\n", "            return self.Np - len(self) > 0\n"))
ok("c14-ne", (POP, ADD, "            if not isFinite: return\n            if len(self.iList) == self.Np: return\n"
                        "            addIndividual(i)\n"))
ok("c14-local", (POP, ADD, "            if isFinite:\n                if needMore():\n                    addIndividual(i)\n"))
ok("c14-finite", (POP, "isFinite = np.isfinite(float(i.SSE))", "isFinite = float(i) < float('inf')"))
ok("c14-inline", (POP, "if isFinite and needMore(): addIndividual(i)",
   "if isFinite and len(self.iList) < self.Np: addIndividual(i)"))
ok("c14-always-put", (POP, """                if k < self.Np:
                    dt.put(d)
                    yield dt.deferUntilFewer(self.N_maxParallel)
                else: yield d
""", """                dt.put(d)
                yield dt.deferUntilFewer(self.N_maxParallel)
"""))
ok("c14-always-wait", (POP, """                if k < self.Np:
                    dt.put(d)
                    yield dt.deferUntilFewer(self.N_maxParallel)
                else: yield d
""", """                yield d
"""))
ok("c14-while-true", (POP, """            while running() and needMore():
                i = getIndividual()
""", """            while True:
                if not running(): break
                if not needMore(): break
                i = getIndividual()
"""))
ok("c14-evaluate-helper", (POP, """                d = i.evaluate()
                d.addCallback(evaluated, d)
                d.addErrback(oops)
""", """                d = start(i)
"""), (POP, """        @defer.inlineCallbacks
        def populate():
""", """        def start(i):
            d = i.evaluate()
            d.addCallback(evaluated, d)
            return d.addErrback(oops)

        @defer.inlineCallbacks
        def populate():
"""))
ok("c14-callbacks", (POP, """                d.addCallback(evaluated, d)
                d.addErrback(oops)
""", """                d.addCallback(lambda i: evaluated(i, None))
                d.addErrback(oops)
"""))
ok("c14-done", (POP, """            if running():
                self.initialize()
                return True
            
""", """            if not running():
                return
            self.initialize()
            return True

"""))
