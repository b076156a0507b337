from common import Corpus, IND, POP, REP

C = Corpus()
M, bug, ok = C.M, C.bug, C.ok

# C21
bug("c21-le", "C21", (REP, "        if self.iBest is None or i < self.iBest:\n            # Reg", "        if self.iBest is None or i < self.iBest or not self.iBest < i:\n            # Reg"))
bug("c21-always", "C21", (REP, "        else: isBest = False\n", "        else:\n            self.iBest = i\n            isBest = False\n"))
bug("c21-late-best", "C21", (REP, "            self.iBest = i\n            isBest = True\n", "            if not self.isEquivSSE(i, self.iLastReported) and not self.cbrInProgress: self.iBest = i\n            isBest = True\n"))
bug("c21-force-best", "C21", (REP, "        if self.iBest is None or i < self.iBest:\n            # Reg", "        if self.iBest is None or force or i < self.iBest:\n            # Reg"))
bug("c21-no-restore", "C21", (REP, "                        if iPrevBest and iPrevBest < self.iBest:\n                            self.iBest = iPrevBest\n", ""))
bug("c21-restore-always", "C21", (REP, "if iPrevBest and iPrevBest < self.iBest:", "if iPrevBest:"))
bug("c21-restore-first", "C21", (REP, """                        i.blacklist()
                        if iPrevBest and iPrevBest < self.iBest:
                            self.iBest = iPrevBest
""", """                        if iPrevBest and iPrevBest < self.iBest:
                            self.iBest = iPrevBest
                        i.blacklist()
"""))
bug("c21-restore-current", "C21", (REP, "if iPrevBest and iPrevBest < self.iBest:", "if iPrevBest and i is not self.iBest:"))
bug("c21-prev-late", "C21", (REP, "                        if iPrevBest and iPrevBest < self.iBest:", "                        iPrevBest = self.cbrPrevBest\n                        if iPrevBest and iPrevBest < self.iBest:"))
bug("c21-prev-once", "C21", (REP, "        self.cbrPrevBest = iPrevBest\n        if self.cbrInProgress:\n            return\n", "        if self.cbrInProgress:\n            return\n        self.cbrPrevBest = iPrevBest\n"))
bug("c21-prev-after", "C21", (REP, "        else: isBest = False\n", "        else: isBest = False\n        iPrevBest = self.iBest\n"))
bug("c21-prev-last", "C21", (REP, "            self.runCallbacks(i, iPrevBest)\n", "            self.runCallbacks(i)\n"))
bug("c21-no-blacklist", "C21", (REP, "                        i.blacklist()\n", "                        self.p.history.notInPop(i)\n"))
bug("c21-blacklist-best", "C21", (REP, "                        i.blacklist()\n", "                        self.iBest.blacklist()\n"))
bug("c21-truthy", "C21", (REP, "if result is not None and i and not aborted():", "if result and i and not aborted():"))
bug("c21-complaint-cb", "C21", (REP, "                                    failed, self.complaintCallback)\n", "                                    failed, self.complaintCallback)\n                            continue\n"))
bug("c21-blacklist-none", "C21", (IND, "        self.SSE = float('+inf')\n        del self.p.KS", "        self.SSE = 1.0\n        del self.p.KS"))
bug("c21-not-i", "C21", (REP, "            if not i:\n                # Fatal error in evaluation\n", "            if not i and self.iBest:\n") if False else
    (REP, "        if i and (self.iBest is None or i < self.iBest):", "        if self.iBest is None or i < self.iBest:"))
bug("c21-other-best", "C21", (REP, "        if i and (self.iBest is None or i < self.iBest):", "        if i and self.iBest and i < self.iBest:"))
bug("c21-other-ratio", "C21", (REP, "        if i and (self.iBest is None or i < self.iBest):", "        if i and rir and (self.iBest is None or i < self.iBest):"))

ok("c21-ok-helper", (REP, """                        i.blacklist()
                        if iPrevBest and iPrevBest < self.iBest:
                            self.iBest = iPrevBest
""", """                        self._demote(i, iPrevBest)
"""), (REP, "    def waitForCallbacks(self):\n", """    def _demote(self, i, iOther):
        i.blacklist()
        if iOther is None or not iOther:
            return
        if float(iOther) < float(self.iBest):
            self.iBest = iOther

    def waitForCallbacks(self):
"""))
ok("c21-ok-best", (REP, """        iPrevBest = self.iBest
        if self.iBest is None or i < self.iBest:
            # Register new best, regardless of whether it gets reported
            self.iBest = i
            isBest = True
        else: isBest = False
""",
                   "        iPrevBest = self.iBest\n        isBest = iPrevBest is None or iPrevBest > i\n        if isBest:\n            self.iBest = i\n"))
ok("c21-ok-call", (REP, "        if i and (self.iBest is None or i < self.iBest):", "        better = self.iBest is None or i < self.iBest\n        if better and i:"))

# C22
bug("c22-no-flag", "C22", (REP, "            self.cbrInProgress = True\n", ""))
bug("c22-flag-early", "C22", (REP, "                    if isinstance(result, CallbackFailureToken):\n", "                    self.cbrInProgress = False\n                    if isinstance(result, CallbackFailureToken):\n"))
bug("c22-flag-kept", "C22", (REP, "            self.cbrInProgress = False\n\n", "\n"))
bug("c22-flag-abort", "C22", (REP, "                        self.abort()\n                        break\n", "                        break\n"))
bug("c22-no-check", "C22", (REP, "        if self.cbrInProgress:\n            return\n        self.dt.put", "        self.dt.put"))
bug("c22-drop", "C22", (REP, "        self.cbrScheduled(i)\n        self.cbrPrevBest = iPrevBest\n        if self.cbrInProgress:\n            return\n", "        if self.cbrInProgress:\n            return\n        self.cbrScheduled(i)\n        self.cbrPrevBest = iPrevBest\n"))
bug("c22-first-kept", "C22", (REP, "        self.cbrScheduled(i)\n        self.cbrPrevBest", "        if not self.cbrScheduled: self.cbrScheduled(i)\n        self.cbrPrevBest"))
bug("c22-if", "C22", (REP, "            while not aborted() and self.cbrScheduled:\n", "            for _ in range(1 if not aborted() and self.cbrScheduled else 0):\n"))
bug("c22-peek", "C22", (REP, "                i = self.cbrScheduled.pop()\n", "                i = self.cbrScheduled()\n") if False else
    (REP, "                i = self.cbrScheduled.pop()\n", "                i = self.cbrScheduled.pop() or iPrev\n                if len(self.callbacks) > 1 and iPrev: break\n"))
bug("c22-pop-late", "C22", (REP, "                i = self.cbrScheduled.pop()\n", "                i = self.cbrScheduled()\n"),
    (REP, "                        if iPrevBest and iPrevBest < self.iBest:\n                            self.iBest = iPrevBest\n", "                        if iPrevBest and iPrevBest < self.iBest:\n                            self.iBest = iPrevBest\n                self.cbrScheduled.pop()\n"))
bug("c22-reversed", "C22", (REP, "for func, args, kw in self.callbacks:", "for func, args, kw in reversed(self.callbacks):"))
bug("c22-insert", "C22", (REP, "        self.callbacks.append((func, args, kw))", "        self.callbacks.insert(0, (func, args, kw))"))
bug("c22-fail-continue", "C22", (REP, "                        self.abort()\n                        break\n", "                        self.abort()\n"), (REP, "                    if aborted(): break\n", ""))
bug("c22-no-abort-check", "C22", (REP, "                    if aborted(): break\n", ""))
bug("c22-no-abort-loop", "C22", (REP, "            while not aborted() and self.cbrScheduled:\n", "            while self.cbrScheduled:\n"), (REP, "                    if aborted(): break\n", ""))
bug("c22-abort-none", "C22", (REP, "            return self.p.running is False\n", "            return self.p.running is None\n"))
bug("c22-fail-none", "C22", (REP, "            return CallbackFailureToken()\n", "            return\n"))
bug("c22-best-args", "C22", (REP, "func, i.values, counter, i.SSE, *args, **kw)", "func, self.iBest.values, counter, self.iBest.SSE, *args, **kw)"))
bug("c22-kw", "C22", (REP, "func, i.values, counter, i.SSE, *args, **kw)", "func, i.values, counter, i.SSE, *args)"))
bug("c22-no-put", "C22", (REP, "        self.dt.put(runUntilFree())", "        runUntilFree()"))
bug("c22-no-quit", "C22", (REP, "        self.dt.quitWaiting()\n", ""))
bug("c22-pop-abort", "C22", (REP, "        self.p.abort(ignoreReporter=True)\n", ""))
bug("c22-no-wait", "C22", (REP, "                    result = yield d\n", "                    result = None\n                    d.addCallback(lambda r: r)\n"))
bug("c22-lastreported", "C22", (REP, "            if self.iLastReported and i == self.iLastReported:\n", "            if False:\n"))
bug("c22-force-only", "C22", (REP, "            if force:\n                # Unless", "            if force and isBest:\n                # Unless"))
bug("c22-not-best", "C22", (REP, "            if i < self.iBest or force:\n", "            if True:\n"),
    (REP, "            if not isBest:\n", "            if False:\n"))
bug("c22-reported-best", "C22", (REP, "            self.iLastReported = i\n            self.runCallbacks(i, iPrevBest)\n", "            self.iLastReported = i\n            self.runCallbacks(iPrevBest or i, iPrevBest)\n"))
bug("c22-busy-skip", "C22", (REP, "            self.iLastReported = i\n            self.runCallbacks(i, iPrevBest)\n", "            self.iLastReported = i\n            if not self.cbrInProgress: self.runCallbacks(i, iPrevBest)\n"))
bug("c22-complaint-break", "C22", (REP, "                        if iPrevBest and iPrevBest < self.iBest:\n                            self.iBest = iPrevBest\n", "                        if iPrevBest and iPrevBest < self.iBest:\n                            self.iBest = iPrevBest\n                        self.cbrScheduled.pop()\n"))
bug("c22-complaint-failed", "C22", (REP, """                            yield defer.maybeDeferred(
                                self.complaintCallback, i, result).addErrback(
                                    failed, self.complaintCallback)
""", """                            yield defer.maybeDeferred(
                                self.complaintCallback, i, result)
"""))

ok("c22-ok-finally", (REP, "            if msg.lineWritten(): self.progressChar()\n            self.cbrInProgress = False\n", "            self.cbrInProgress = False\n            if msg.lineWritten(): self.progressChar()\n"))
ok("c22-ok-flag", (REP, "            self.cbrInProgress = True\n", ""), (REP, "        self.dt.put(runUntilFree())", "        self.cbrInProgress = True\n        d = runUntilFree()\n        self.dt.put(d)"))
ok("c22-ok-run", (REP, """                for func, args, kw in self.callbacks:
                    if aborted(): break
                    d = defer.maybeDeferred(
                        func, i.values, counter, i.SSE, *args, **kw)
                    d.addErrback(failed, func)
                    result = yield d
                    if isinstance(result, CallbackFailureToken):
                        self.abort()
                        break
""", """                for stuff in list(self.callbacks):
                    func, args, kw = stuff
                    if aborted(): break
                    try:
                        result = yield defer.maybeDeferred(
                            func, i.values, counter, i.SSE, *args, **kw)
                    except Exception as e:
                        msg(0, "FATAL ERROR in report callback {}: {}", func, e)
                        self.abort()
                        break
"""))
ok("c22-ok-errback", (REP, "            return CallbackFailureToken()\n", "            self.abort()\n            return CallbackFailureToken()\n"),
   (REP, "                        self.abort()\n                        break\n", "                        break\n"))
ok("c22-ok-loop", (REP, "            while not aborted() and self.cbrScheduled:\n                i = self.cbrScheduled.pop()\n", "            while True:\n                if aborted() or not self.cbrScheduled:\n                    break\n                i = self.cbrScheduled.pop()\n"))
ok("c22-ok-goahead", (REP, """            if force:
                # Unless the report would be an exact duplicate,
                # always proceed if forced.
                return True
            if not isBest:
                # Not best so nope.
                return False
            # Best and not forced, so reporting depends on whether SSE
            # is considered equivalent.
            return not self.isEquivSSE(i, self.iLastReported)
""", """            return force or (
                isBest and not self.isEquivSSE(i, self.iLastReported))
"""))
ok("c22-ok-method", (REP, "        def aborted():\n            return self.p.running is False\n", "        aborted = self._aborted\n"), (REP, "    def waitForCallbacks(self):\n", "    def _aborted(self):\n        return self.p.running is False\n\n    def waitForCallbacks(self):\n"))
