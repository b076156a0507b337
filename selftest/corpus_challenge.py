"""Edits of the code of a challenge."""

DE = "ade/de.py"
POP = "ade/population.py"
IND = "ade/individual.py"
M = []


def bug(id, props, *edits):
    M.append({"id": id, "kind": "bug", "props": props.split(), "edits": list(edits)})


def ok(id, *edits):
    M.append({"id": id, "kind": "ok", "props": [], "edits": list(edits)})


bug("c01-le", "C01", (DE, "if iChallenger < iTarget:", "if not iTarget < iChallenger:"))
bug("c01-lt-le", "C01 C15", (IND, "return float(self) < float(other)",
                             "return float(self) <= float(other)"))
bug("c01-kb", "C01", (DE, "self.p[kt] = iChallenger", "self.p[kb] = iChallenger"))
bug("c01-base", "C01", (DE, "if iChallenger < iTarget:", "if iChallenger < iBase:"))
bug("c01-nostore", "C01", (DE, "                            self.p[kt] = iChallenger\n",
                           "                            pass\n"))
bug("c01-push", "C01", (DE, "                            self.p[kt] = iChallenger\n",
                        "                            self.p.push(iChallenger)\n"))
bug("c01-reporter-restore", "C01", (
    "ade/report.py", "                self.iBest = iPrevBest\n",
    "                self.iBest = iPrevBest\n                self.p[self.p.kBest] = iPrevBest\n"))
bug("c01-xsse-skip", "C01", (DE, "                    if iChallenger and self.running \\\n",
                             "                    if self.xSSE and not iTarget.dt:\n"
                             "                        pass\n"
                             "                    elif iChallenger and self.running \\\n"))
bug("c01-clip-after", "C01", (DE, "                            self.p[kt] = iChallenger\n",
                              "                            self.p.limit(iChallenger)\n"
                              "                            self.p[kt] = iChallenger\n"))
bug("c02-early-release", "C02", (DE, "self.p.release(kb, k0, k1)",
                                 "self.p.release(kt, kb, k0, k1)"),
    (DE, "                self.p.release(kt)\n", ""))
bug("c02-release-before-store", "C02", (
    DE, "                            self.p[kt] = iChallenger\n",
    "                            self.p.release(kt)\n"
    "                            self.p[kt] = iChallenger\n"))
bug("c02-read-before-lock", "C02", (
    DE, "            yield self.p.lock(kt, kb, k0, k1)\n            if self.running:\n"
    "                sample = self.p.individuals(kt, kb, k0, k1)\n",
    "            sample = self.p.individuals(kt, kb, k0, k1)\n"
    "            yield self.p.lock(kt, kb, k0, k1)\n            if self.running:\n"
    "                pass\n"))
bug("c02-not-all-locked", "C02 C03", (DE, "yield self.p.lock(kt, kb, k0, k1)",
                                      "yield self.p.lock(kt, kb, k0)"))
bug("c02-one-of", "C02", (POP, "return defer.DeferredList(dList).addErrback(oops)",
                          "return defer.DeferredList(\n            dList, fireOnOneCallback="
                          "True).addErrback(oops)"))
bug("c02-not-awaited", "C02", (DE, "yield self.p.lock(kt, kb, k0, k1)",
                               "self.p.lock(kt, kb, k0, k1)"))
bug("c02-shared-lock", "C02", (POP, """            self.dLocks.append(defer.DeferredLock())
            self.history.add(i)""", """            if not self.dLocks:
                self.dLocks.append(defer.DeferredLock())
            else: self.dLocks.append(self.dLocks[0])
            self.history.add(i)"""))
bug("c02-release-all", "C02", (DE, "self.p.release(kb, k0, k1)", "self.p.release()"))
bug("c02-setstate-shared", "C02 C19", (
    POP, "        for i in self.iList:\n            i.p = self\n"
    "            self.dLocks.append(defer.DeferredLock())\n",
    "        for i in self.iList:\n            i.p = self\n"
    "        self.dLocks = [defer.DeferredLock()]*len(self.iList)\n"))
bug("c03-constraint-leak", "C03", (
    DE, "                # Now that the individual at the target index has been\n"
    "                # determined, we can finally release the lock for that\n"
    "                # index\n                self.p.release(kt)\n",
    "                    return\n                self.p.release(kt)\n"))
bug("c03-leak-k1", "C03", (DE, "self.p.release(kb, k0, k1)", "self.p.release(kb, k0)"))
bug("c03-two-steps", "C03", (DE, "yield self.p.lock(kt, kb, k0, k1)",
                             "yield self.p.lock(kt)\n            yield self.p.lock("
                             "kb, k0, k1)"))
bug("c03-fatal-leak", "C03", (DE, "                        self.shutdown()\n                else:\n",
                              "                        self.shutdown()\n"
                              "                        return\n                else:\n"))
bug("c03-relall-skip", "C03", (POP, "for dLock in self.dLocks:", "for dLock in self.dLocks[1:]:"))
bug("c03-relall-break", "C03", (POP, "        for dLock in self.dLocks:\n            tryRelease(dLock)\n",
                                "        for dLock in self.dLocks:\n"
                                "            if not dLock.locked: break\n"
                                "            tryRelease(dLock)\n"))
bug("c03-abort-norelease", "C03 C09", (POP, '        msg("Releasing locks")\n        self.release()\n',
                                       '        msg("Releasing locks")\n'
                                       '        if not ignoreReporter: self.release()\n'))
bug("c03-run-norelease", "C03", (DE, "                    self.shutdown()\n                    self.p.release()\n",
                                 "                    self.shutdown()\n"))
bug("c03-shutdown-leak", "C03", (DE, "                # Shutting down!\n                self.p.release()\n",
                                 "                # Shutting down!\n                self.p.release(kt)\n"))

ok("ok-noop", (DE, "        if self.running:\n            # Indices of two",
               "        _unused = 0\n        if self.running:\n            # Indices of two"))
ok("ok-early-return", (DE, "            if self.running:\n                sample = self.p.individuals(kt, kb, k0, k1)\n            else: sample = None\n",
                       "            sample = self.p.individuals(kt, kb, k0, k1) if self.running else None\n"))
ok("ok-helper-judge", (DE, """                    if iChallenger and self.running \\
                       and self.p.running is not False:
                        if iChallenger < iTarget:
                            # The challenger won the tournament, replace
                            # the target
                            self.p[kt] = iChallenger
                        elif not self.xSSE:
                            # Not doing partial evaluations with xSSE,
                            # so can make some use of failed challenge
                            # by recording its SSE in history
                            yield self.p.history.add(
                                iChallenger, neverInPop=True)
                        self.p.report(iChallenger, iTarget)
                    else:
                        # Oops! Fatal error occurred!
                        self.shutdown()
""", """                    yield self._judge(kt, iChallenger, iTarget)
"""), (DE, "    @defer.inlineCallbacks\n    def _run(self, func):", """    @defer.inlineCallbacks
    def _judge(self, k, ic, it):
        ok = bool(ic) and self.running and self.p.running is not False
        if not ok:
            self.shutdown()
            return
        won = ic < it
        if won:
            self.p[k] = ic
        if not won and not self.xSSE:
            yield self.p.history.add(ic, neverInPop=True)
        self.p.report(ic, it)

    @defer.inlineCallbacks
    def _run(self, func):"""))
ok("ok-gt", (DE, "if iChallenger < iTarget:", "if iTarget > iChallenger:"))
ok("ok-sse", (DE, "if iChallenger < iTarget:", "if float(iChallenger) < float(iTarget):"))
ok("ok-lock-try", (POP, """        dList = []
        for k in indices:
            if indices.count(k) > 1:
                raise ValueError(
                    "Requesting the same lock twice will result in deadlock!")
            if k >= len(self.dLocks):
                # Invalid index, we must be shutting down
                self.release()
                return defer.succeed(None)
            dList.append(self.dLocks[k].acquire())
        return defer""", """        for k in indices:
            if indices.count(k) > 1:
                raise ValueError(
                    "Requesting the same lock twice will result in deadlock!")
        if any(k >= len(self.dLocks) for k in indices):
            # Invalid index, we must be shutting down
            self.release()
            return defer.succeed(None)
        dList = [self.dLocks[k].acquire() for k in indices]
        return defer"""))
ok("ok-lock-set", (POP, """            if indices.count(k) > 1:
                raise ValueError(
                    "Requesting the same lock twice will result in deadlock!")
            if k >= len(self.dLocks):""", """            if k >= len(self.dLocks):"""),
   (POP, """        dList = []
        for k in indices:
            if k >=""", """        dList = []
        if len(set(indices)) != len(indices):
            raise ValueError(
                "Requesting the same lock twice will result in deadlock!")
        for k in indices:
            if k >=""") if False else (POP, "        dList = []\n        for k in indices:\n",
                                       "        if len(set(indices)) < len(indices):\n"
                                       "            raise ValueError('deadlock!')\n"
                                       "        dList = []\n        for k in indices:\n"))
ok("ok-release-range", (POP, "        for dLock in self.dLocks:\n            tryRelease(dLock)\n",
                        "        for k in range(len(self.dLocks)):\n"
                        "            tryRelease(self.dLocks[k])\n"))
ok("ok-release-while", (POP, "        for dLock in self.dLocks:\n            tryRelease(dLock)\n",
                        "        k = 0\n        while k < len(self.dLocks):\n"
                        "            tryRelease(self.dLocks[k])\n            k += 1\n"))
ok("ok-release-locs", (POP, """        if indices:
            for k in indices:
                tryRelease(self.dLocks[k])
            return
        for dLock in self.dLocks:
            tryRelease(dLock)
""", """        dLocks = [self.dLocks[k] for k in indices] if indices else self.dLocks
        for dLock in dLocks:
            if dLock.locked: dLock.release()
"""))
ok("ok-setitem-order", (POP, """        self.history.add(i)
        # Here is the only place iList should ever be set directly
        self.iList[k] = i
        # Invalidate sorting
        del self.KS
""", """        self.iList[k] = i
        del self.KS
        self.history.add(i)
"""))
ok("ok-individuals-comp", (POP, """        result = []
        for k in indices:
            if k >= len(self.iList): return
            result.append(self.iList[k])
        return result[0] if len(result) == 1 else result
""", """        N = len(self.iList)
        if not all(k < N for k in indices): return
        result = [self.iList[k] for k in indices]
        if len(result) == 1: return result[0]
        return result
"""))
ok("ok-addind", (POP, """            self.iList.append(i)
            self.dLocks.append(defer.DeferredLock())
            self.history.add(i)
            del self.KS
""", """            dLock = defer.DeferredLock()
            self.dLocks.append(dLock)
            self.iList.append(i)
            del self.KS
            self.history.add(i)
"""))
ok("ok-addind-method", (POP, """            self.iList.append(i)
            self.dLocks.append(defer.DeferredLock())
            self.history.add(i)
            del self.KS
""", """            self._addIndividual(i)
"""), (POP, "    def initialize(self):\n", """    def _addIndividual(self, i):
        self.iList.append(i)
        self.dLocks.append(defer.DeferredLock())
        self.history.add(i)
        del self.KS

    def initialize(self):
"""))
ok("ok-evaluate-kw", (DE, """                    if self.xSSE:
                        yield iChallenger.evaluate(iTarget.SSE)
                    else: yield iChallenger.evaluate()
""", """                    xSSE = iTarget.SSE if self.xSSE else None
                    yield iChallenger.evaluate(xSSE=xSSE)
"""))
ok("ok-mutate-stepwise", (DE, "                iChallenger = iBase + (i0 - i1) * self.fm.get()\n",
                          "                F = self.fm.get()\n                diff = i0 - i1\n"
                          "                iChallenger = iBase + diff*F\n"))
ok("ok-mutate-helper", (DE, """                iChallenger = iBase + (i0 - i1) * self.fm.get()
                self.crossover(iTarget, iChallenger)
                # Continue with Pr(values) / Pr(midpoints)
                self.p.limit(iChallenger)
""", """                iChallenger = self.makeChallenger(iTarget, iBase, i0, i1)
"""), (DE, "    @defer.inlineCallbacks\n    def challenge(self", """    def makeChallenger(self, iTarget, iBase, i0, i1):
        iMutant = iBase + (i0 - i1) * self.fm.get()
        self.crossover(iTarget, iMutant)
        self.p.limit(iMutant)
        return iMutant

    @defer.inlineCallbacks
    def challenge(self"""))
ok("ok-crossover-comp", (DE, """        j = random.randint(0, self.p.Nd-1)
        for k in range(self.p.Nd):
            if k == j:
                # The mutant gets to keep at least this one value
                continue
            if self.CR < random.uniform(0, 1.0):
""", """        N = self.p.Nd
        j = random.randint(0, N-1)
        for k in range(N):
            if k != j and random.uniform(0, 1.0) > self.CR:
"""))
ok("ok-finally", (DE, """                    # Failed constraints
                    self.p.showFailedConstraint()
                # Now""", """                    # Failed constraints
                    showFailed = self.p.showFailedConstraint
                    showFailed()
                # Now"""))
ok("ok-setstate-zip", (POP, "        for i in self.iList:\n            i.p = self\n"
    "            self.dLocks.append(defer.DeferredLock())\n",
    "        for i in self.iList:\n            i.p = self\n"
    "        self.dLocks = [defer.DeferredLock() for _ in self.iList]\n"))
