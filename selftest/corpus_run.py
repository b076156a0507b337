"""Edits of the code of a run: generations, stopping, sampling, improvement."""

from common import *

C = Corpus()
M, bug, ok = C.M, C.bug, C.ok

AWAIT = """                self.dChallenges = defer.DeferredList(
                    dList, fireOnOneErrback=True).addErrback(failed)
                result = yield self.dChallenges
                self.dChallenges = None
"""
bug("c10-range1", "C10", (DE, "for kt in range(self.p.Np):", "for kt in range(1, self.p.Np):"))
bug("c10-short", "C10", (DE, "for kt in range(self.p.Np):", "for kt in range(self.p.Np-1):"))
bug("c10-skip-best", "C10", (DE, "                d = self.challenge(kt, kb)\n",
                             "                if kb == kt: continue\n"
                             "                if kt == self.p.kBest: continue\n"
                             "                d = self.challenge(kt, kb)\n"))
bug("c10-not-collected", "C10", (DE, "                dList.append(d)\n",
                                 "                if not d.called: dList.append(d)\n                if kt: dList = dList[:-1]\n"))
bug("c10-first-fires", "C10", (DE, "dList, fireOnOneErrback=True)",
                               "dList, fireOnOneErrback=True, fireOnOneCallback=True)"))
bug("c10-no-yield", "C10", (DE, "result = yield self.dChallenges", "result = self.dChallenges"))
bug("c10-no-report-wait", "C10", (DE, "            yield self.p.waitForReports()\n"
                                  "            if not self.running or",
                                  "            yield\n"
                                  "            if not self.running or"))
bug("c10-one-more", "C10", (DE, "for kg in range(self.maxiter):",
                            "for kg in range(self.maxiter+1):"))
bug("c10-one-less", "C10 C11", (DE, "for kg in range(self.maxiter):",
                            "for kg in range(1, self.maxiter):"))
bug("c10-func-1based", "C10", (DE, "if func: func(kg)", "if func: func(kg+1)"))
bug("c10-func-sometimes", "C10", (DE, "            if func: func(kg)\n",
                                  "                if func: func(kg)\n"))
bug("c10-func-noarg", "C10", (DE, "if func: func(kg)", "if func: func()"))
bug("c10-func-early", "C10", (DE, "            if func: func(kg)\n", ""),
    (DE, "            if not self.running: break\n            if self.goalSSE",
     "            if not self.running: break\n            if func: func(kg)\n            if self.goalSSE"))
bug("c10-returns-none", "C10", (DE, "        defer.returnValue(self.p)\n", ""))
bug("c10-call-returns", "C10", (DE, "            return self._run(func)\n",
                                "            self._run(func)\n            return self.p\n"))
bug("c10-func-dropped", "C10", (DE, "return self._run(func)", "return self._run(None)"))
ok("c10-enumerate", (DE, """            for kt in range(self.p.Np):
""", """            for kt, _ in enumerate(range(self.p.Np)):
"""))
ok("c10-while", (DE, """        for kg in range(self.maxiter):
            self.p.reporter""", """        kg = -1
        while kg + 1 < self.maxiter:
            kg += 1
            self.p.reporter"""))
ok("c10-helper", (DE, """                if self.randomBase or kt == self.p.kBest:
                    kb = self.p.sample(1, kt, randomBase=self.randomBase)
                else: kb = self.p.kBest
""", """                kb = self._baseFor(kt)
"""), (DE, """    @defer.inlineCallbacks
    def _run(self, func):
""", """    def _baseFor(self, kt):
        kBest = self.p.kBest
        if self.randomBase or kt == kBest:
            return self.p.sample(1, kt, randomBase=self.randomBase)
        return kBest

    @defer.inlineCallbacks
    def _run(self, func):
"""))
ok("c10-await-helper", (DE, AWAIT, "                result = yield self._finish(dList, failed)\n"),
   (DE, """    @defer.inlineCallbacks
    def _run(self, func):
""", """    @defer.inlineCallbacks
    def _finish(self, dList, failed):
        self.dChallenges = defer.DeferredList(
            dList, fireOnOneErrback=True).addErrback(failed)
        result = yield self.dChallenges
        self.dChallenges = None
        defer.returnValue(result)

    @defer.inlineCallbacks
    def _run(self, func):
"""))
ok("c10-comprehension", (DE, """                d = self.challenge(kt, kb)
                dList.append(d)
""", """                dList += [self.challenge(kt, kb)]
"""))
ok("c10-gather", (DE, """                self.dChallenges = defer.DeferredList(
                    dList, fireOnOneErrback=True).addErrback(failed)
""", """                self.dChallenges = defer.gatherResults(dList)
                self.dChallenges.addErrback(failed)
"""), (DE, "if failureObj.type == abort.AbortError:", "if failureObj.check(abort.AbortError):"))
ok("c10-split-loop", (DE, "            if func: func(kg)\n",
                      "            if func is None: continue\n            func(kg)\n"))
ok("c10-maxiter-local", (DE, "        for kg in range(self.maxiter):\n            self.p.rep",
                         "        N = self.maxiter\n        for kg in range(0, N):\n            self.p.rep"))
ok("c10-reports-helper", (DE, "            yield self.p.waitForReports()\n"
                          "            if not self.running or",
                          "            d = self.p.waitForReports()\n"
                          "            yield d\n"
                          "            if not self.running or"))

bug("c11-goal-gt", "C11", (DE, "self.p.best() < self.goalSSE:", "self.p.best() > self.goalSSE:"))
bug("c11-goal-start", "C11", (DE, "if self.goalSSE and self.p.best() < self.goalSSE:",
                              "if self.goalSSE and iBest < self.goalSSE:"))
bug("c11-goal-nostop", "C11", (DE, """self.goalSSE)
                break
            elif""", """self.goalSSE)
            elif"""))
bug("c11-goal-only-on-fail", "C11", (DE, """            if self.goalSSE and self.p.best() < self.goalSSE:
                msg(-1,
                    "Goal SSE of {:.5g} has been met, stopped.", self.goalSSE)
                break
            elif self.p.replacement():""", """            if self.p.replacement():"""),
    (DE, "                self.fm.down()\n", """                self.fm.down()
                if self.goalSSE and self.p.best() < self.goalSSE:
                    break
"""))
bug("c11-dwell-ge", "C11", (DE, "if self.dwellCount > self.dwellByGrave:",
                            "if self.dwellCount >= self.dwellByGrave:"))
bug("c11-no-reset", "C11", (DE, "                self.dwellCount = 0\n", ""))
bug("c11-no-reset-start", "C11", (DE, "        self.dwellCount = 0\n        self.fm =",
                                  "        self.fm ="),
    (DE, "        self.running = True\n", "        self.running = True\n        self.dwellCount = 0\n"))
bug("c11-count-all", "C11", (DE, "if not self.bitterEnd and self.fm.limited:",
                             "if not self.bitterEnd:"))
bug("c11-bitter", "C11", (DE, "if not self.bitterEnd and self.fm.limited:",
                          "if self.fm.limited:"))
bug("c11-bitter-inv", "C11", (DE, "if not self.bitterEnd and self.fm.limited:",
                              "if self.bitterEnd and self.fm.limited:"))
bug("c11-swapped", "C11", (DE, "                self.fm.up()\n", "                self.fm.down()\n"))
bug("c11-reset-when-not-limited", "C11", (
    DE, "                if not self.bitterEnd and self.fm.limited:",
    "                if not self.fm.limited: self.dwellCount = 0\n"
    "                if not self.bitterEnd and self.fm.limited:"))
bug("c11-double", "C11", (DE, "                self.fm.up()\n",
                          "                self.fm.up()\n                self.p.replacement()\n"))
ok("c11-limited-local", (DE, "                if not self.bitterEnd and self.fm.limited:",
                         "                stuck = self.fm.limited\n                if stuck and not self.bitterEnd:"))
ok("c11-dwell-helper", (DE, """                if not self.bitterEnd and self.fm.limited:
                    self.dwellCount += 1
                    if self.dwellCount > self.dwellByGrave:
                        msg(-1, "Challengers failing too much, stopped.")
                        break
""", """                if self._hopeless():
                    msg(-1, "Challengers failing too much, stopped.")
                    break
"""), (DE, """    @defer.inlineCallbacks
    def _run(self, func):
""", """    def _hopeless(self):
        if self.bitterEnd or not self.fm.limited:
            return False
        self.dwellCount = self.dwellCount + 1
        return not self.dwellCount <= self.dwellByGrave

    @defer.inlineCallbacks
    def _run(self, func):
"""))
ok("c11-local-count", (DE, "                self.dwellCount = 0\n", "                dwell = 0\n"),
   (DE, """                    self.dwellCount += 1
                    if self.dwellCount > self.dwellByGrave:""", """                    dwell += 1
                    if dwell > self.dwellByGrave:"""),
   (DE, "        # Evolve!\n", "        dwell = 0\n        # Evolve!\n"))
ok("c11-goal-float", (DE, "if self.goalSSE and self.p.best() < self.goalSSE:",
                      "goal = self.goalSSE\n            if goal and not float(self.p.best()) >= goal:"))
ok("c11-goal-first", (DE, """            if self.goalSSE and self.p.best() < self.goalSSE:
                msg(-1,
                    "Goal SSE of {:.5g} has been met, stopped.", self.goalSSE)
                break
            elif self.p.replacement():""", """            if self._reached():
                break
            if self.p.replacement():"""), (DE, """    @defer.inlineCallbacks
    def _run(self, func):
""", """    def _reached(self):
        if not self.goalSSE: return False
        if self.p.best() < self.goalSSE:
            msg(-1, "Goal SSE of {:.5g} has been met, stopped.", self.goalSSE)
            return True
        return False

    @defer.inlineCallbacks
    def _run(self, func):
"""))

bug("c13-exclude-first", "C13", (POP, "if k not in exclude]", "if k not in exclude[:1]]"))
bug("c13-choices", "C13", (POP, "result = random.sample(K, N)", "result = [random.choice(K) for _ in range(N)]"))
bug("c13-dup", "C13", (POP, "                if k in result: continue\n", ""))
bug("c13-all-excl", "C13", (POP, "K = [k for k in self.KS if k not in exclude]",
                            "K = list(self.KS)\n        for k in exclude[-1:]: K.remove(k)"))
bug("c13-worst", "C13", (POP, "result = [K[0]]", "result = [K[-1]]"))
bug("c13-best-excluded", "C13", (POP, "result = [K[0]]", "result = [self.kBest]"))
bug("c13-ps-fullrank", "C13", (POP, "k = self.ps(K, rb)", "k = self.ps(self.KS, rb)"))
bug("c13-de-kb", "C13", (DE, "k0, k1 = self.p.sample(2, kt, kb)", "k0, k1 = self.p.sample(2, kt)"))
bug("c13-run-kt", "C13", (DE, "if self.randomBase or kt == self.p.kBest:", "if self.randomBase:"))
bug("c13-run-noexcl", "C13", (DE, "kb = self.p.sample(1, kt, randomBase=self.randomBase)",
                              "kb = self.p.sample(1, randomBase=self.randomBase)"))
bug("c13-rank-head", "C13", (POP, "result = random.sample(K, N)", "result = random.sample(K[:-1], N)"))
bug("c13-sampler-scaled", "C13", (POP, "return K[int(rv*len(K))]", "return int(rv*len(K))"))
ok("c13-set", (POP, "K = [k for k in self.KS if k not in exclude]",
               "out = set(exclude)\n        K = [k for k in self.KS if k not in out]"))
ok("c13-filter-loop", (POP, "        K = [k for k in self.KS if k not in exclude]\n", """        K = []
        for k in self.KS:
            if k in exclude: continue
            K.append(k)
"""))
ok("c13-filter", (POP, "K = [k for k in self.KS if k not in exclude]",
                  "K = list(filter(lambda k: k not in exclude, self.KS))"))
ok("c13-while", (POP, """                if k in result: continue
                result.append(k)
""", """                if k not in result:
                    result.append(k)
"""))
ok("c13-remove", (POP, """            result = []
            while len(result) < N:
                k = self.ps(K, rb)
                if k in result: continue
                result.append(k)
""", """            result = []
            for _ in range(N):
                k = self.ps([x for x in K if x not in result], rb)
                result.append(k)
"""))
ok("c13-return", (POP, "return result[0] if N == 1 else result",
                  "if N == 1:\n            return result[0]\n        return tuple(result)"))
ok("c13-helper", (POP, "K = [k for k in self.KS if k not in exclude]",
                  "K = self._eligible(exclude)"),
   (POP, "    def sample(self, N, *exclude, **kw):\n", """    def _eligible(self, exclude):
        return [k for k in self.KS if not k in exclude]

    def sample(self, N, *exclude, **kw):
"""))

RATIO = "        if ratio is not None and iNew < iOld: self.replacement(ratio)\n"
ADD = "addition = 0.1 if rir == 0 else rir - 0.5"
bug("c31-lost-scored", "C31", (POP, RATIO, "        self.replacement(ratio or 0)\n"))
bug("c31-ties-scored", "C31", (POP, RATIO, "        if ratio is not None: self.replacement(ratio)\n"))
bug("c31-zero-dropped", "C31", (POP, RATIO,
                                "        if ratio and iNew < iOld: self.replacement(ratio)\n"))
bug("c31-twice", "C31", (POP, RATIO, RATIO + "        if ratio == 9: self.replacement(ratio)\n"))
bug("c31-zero-neg", "C31", (POP, ADD, "addition = rir - 0.5"))
bug("c31-saturates", "C31", (POP, ADD, "addition = 0.1 if rir == 0 else min(rir, 3) - 0.5"))
bug("c31-assigned", "C31", (POP, "self.replacementScore += addition",
                            "self.replacementScore = addition"))
bug("c31-not-reset", "C31", (POP, "            self.replacementScore = 0\n"
                             "            if score is None:",
                             "            if score is None:\n"
                             "                self.replacementScore = 0"))
bug("c31-first-no", "C31", (POP, "                return True\n            return self._keep",
                            "                score = 0\n            return self._keep"))
bug("c31-reset-first", "C31", (POP, "            score = self.replacementScore\n"
                               "            self.replacementScore = 0\n",
                               "            self.replacementScore = 0\n"
                               "            score = self.replacementScore\n"))
bug("c31-none-first", "C31", (POP, "        if self.replacementScore is not None:\n            # 0",
                              "        if self.replacementScore:\n            # 0"))
ok("c31-addition", (POP, ADD, "addition = max(0.1, rir - 0.5)"))
ok("c31-if", (POP, ADD, """addition = rir - 0.5
            if not rir: addition = 0.1"""))
ok("c31-nested", (POP, RATIO, """        if ratio is None: return
        if iNew < iOld:
            self.replacement(rir=ratio)
"""))
ok("c31-swap", (POP, "            score = self.replacementScore\n"
                "            self.replacementScore = 0\n",
                "            score, self.replacementScore = self.replacementScore, 0.0\n"))
ok("c31-helper", (POP, ADD, "addition = self._weightOf(rir)"),
   (POP, "    def replacement(self, rir=None, sqs=None):\n", """    def _weightOf(self, rir):
        if rir == 0: return 0.1
        return rir - 0.5

    def replacement(self, rir=None, sqs=None):
"""))
