"""Edits of what happens on an abort."""

from common import *

C = Corpus()
M, bug, ok = C.M, C.bug, C.ok

bug("c09-eval", "C09", (POP, """        if self.running is False:
            values = None
        if xSSE""", """        if xSSE"""))
bug("c09-eval-xsse", "C09", (POP, """        if self.running is False:
            values = None
        if xSSE is None:
            return""", """        if xSSE is None:
            if self.running is False: values = None
            return"""))
bug("c09-store", "C09", (DE, """if iChallenger and self.running \\
                       and self.p.running is not False:""", "if iChallenger and self.running:"))
bug("c09-early-check", "C09", (DE, "                    if self.xSSE:\n                        yield iCh",
                               "                    alive = self.p.running is not False\n"
                               "                    if self.xSSE:\n                        yield iCh"),
    (DE, "                       and self.p.running is not False:", "                       and alive:"))
bug("c09-run-check", "C09", (DE, "if not self.running or self.p.running is False: break",
                             "if not self.running: break"))
bug("c09-check-before-wait", "C09", (DE, """            yield self.p.waitForReports()
            if not self.running or self.p.running is False: break
""", """            if not self.running or self.p.running is False: break
            yield self.p.waitForReports()
"""))
bug("c09-generation-shutdown", "C09", (DE, "if not self.running or self.p.running is False: break",
                                       "if self.p.running is False: break"),
    (DE, "            if not self.running: break\n            if self.goalSSE",
     "            if self.goalSSE"))
bug("c09-start", "C09", (DE, """        if self.p.running is False:
            # Population setup got aborted
            return defer.succeed(self.p)
""", ""), (DE, "if not self.running or self.p.running is False: break",
           "if not self.running: break"))
bug("c09-start-returns", "C09", (DE, "return defer.succeed(self.p)", "return"))
bug("c09-shutdown-nofire", "C09", (DE, """            if self.dChallenges and not self.dChallenges.called:
                self.dChallenges.errback(abort.AbortError())
""", ""))
bug("c09-shutdown-late", "C09", (DE, """            self.running = False
            msg(0, "Shutting down DE...")
            if self.dChallenges and not self.dChallenges.called:
                self.dChallenges.errback(abort.AbortError())
""", """            msg(0, "Shutting down DE...")
            if self.dChallenges and not self.dChallenges.called:
                self.dChallenges.errback(abort.AbortError())
            self.running = False
"""))
bug("c09-shutdown-twice", "C09", (DE, "if self.dChallenges and not self.dChallenges.called:",
                                  "if self.dChallenges:"))
bug("c09-setup-true", "C09 C14", (POP, """            if running():
                self.initialize()
                return True
""", """            if running():
                self.initialize()
            return True
"""))
bug("c09-setup-start", "C09", (POP, """        if not running():
            return defer.succeed(None)
        if self: self.clear()
""", """        if self: self.clear()
"""), (POP, "while running() and needMore():", "while needMore():"),
    (POP, "                if not running(): break\n", ""))
bug("c09-lock", "C09", (POP, """        if self.running is False:
            return defer.succeed(None)
        dList = []
""", """        dList = []
"""))
bug("c09-abort-locks", "C09 C03", (POP, """        msg("Releasing locks")
        self.release()
""", ""))
bug("c09-abort-first-lock", "C09 C03", (POP, """        msg("Releasing locks")
        self.release()
""", """        self.release(0)
"""))
bug("c09-abort-reporter", "C09", (POP, """            self.reporter.abort()
""", ""))
bug("c09-quit", "C09", (REP, "        self.dt.quitWaiting()\n", ""))
bug("c09-reporter-no-abort", "C09", (REP, "        self.p.abort(ignoreReporter=True)\n", ""))
bug("c09-abort-running", "C09", (POP, """        self.running = False
        if not ignoreReporter:""", """        self.running = None
        if not ignoreReporter:"""))
bug("c09-wait", "C09", (POP, """        if not self.running:
            return defer.succeed(None)
        return defer.DeferredList([""", """        return defer.DeferredList(["""))
bug("c09-register", "C09", (POP, "        abort.callOnAbort(self.abort)\n", ""))
bug("c09-register-load", "C09", (POP, "        abort.callOnAbort(p.abort)\n", ""))
bug("c09-register-de", "C09", (DE, "        abort.callOnAbort(self.shutdown)\n", ""))
bug("c09-failure", "C09", (DE, """                if result is None:
                    self.shutdown()
                    self.p.release()
""", ""))
ok("c09-local", (DE, """                    if iChallenger and self.running \\
                       and self.p.running is not False:""", """                    alive = self.running and \\
                        self.p.running is not False
                    if iChallenger and alive:"""))
ok("c09-helper", (DE, """if not self.running or self.p.running is False: break""",
                  """if self._stopped(): break"""),
   (DE, """    @defer.inlineCallbacks
    def _run(self, func):
""", """    def _stopped(self):
        return not self.running or self.p.running is False

    @defer.inlineCallbacks
    def _run(self, func):
"""))
ok("c09-eval-order", (POP, """        if self.running is False:
            values = None
        if xSSE is None:
            return defer.maybeDeferred(self.func, values)
        return defer.maybeDeferred(self.func, values, xSSE=xSSE)
""", """        kw = {} if xSSE is None else {'xSSE': xSSE}
        X = None if self.running is False else values
        return defer.maybeDeferred(self.func, X, **kw)
"""))
ok("c09-abort-order", (POP, """        msg("Releasing locks")
        self.release()
""", """        for dLock in self.dLocks:
            if dLock.locked: dLock.release()
"""))
ok("c09-register-lambda", (POP, "abort.callOnAbort(p.abort)", "abort.callOnAbort(lambda: p.abort())"))
ok("c09-shutdown", (DE, """            if self.dChallenges and not self.dChallenges.called:
                self.dChallenges.errback(abort.AbortError())
""", """            d = self.dChallenges
            if d is None or d.called: return
            d.errback(abort.AbortError())
"""))
ok("c09-running-helper", (POP, """        if self.running is False:
            return defer.succeed(None)
        dList = []
""", """        if self._aborted():
            return defer.succeed(None)
        dList = []
"""), (POP, """    def lock(self, *indices):
""", """    def _aborted(self):
        return self.running is False

    def lock(self, *indices):
"""))
ok("c09-done", (POP, """            if running():
                self.initialize()
                return True
""", """            if not running(): return
            self.initialize()
            return True
"""))
bug("c09-key-first", "C09", (ABORT, """        while self.callbacks:
            func = self.callbacks.pop(0)
            func()
""", """        if self.callbacks:
            func = self.callbacks.pop(0)
            func()
"""))
bug("c09-key-skip", "C09", (ABORT, """        while self.callbacks:
            func = self.callbacks.pop(0)
            func()
""", """        for func in self.callbacks:
            func()
            self.callbacks.remove(func)
"""))
bug("c09-key-late", "C09", (ABORT, """        if self.KB.triggerID is None:
            # Already aborted! But let the reactor iterate before
            # calling
            reactor.callLater(0, func)
        else: self.KB.addCallback(func)""", """        self.KB.addCallback(func)"""))
bug("c09-key-last", "C09", (ABORT, "        self.callbacks.append(func)", "        self.callbacks[:] = [func]"))
ok("c09-key-loop", (ABORT, """        while self.callbacks:
            func = self.callbacks.pop(0)
            func()
""", """        while True:
            if not self.callbacks: break
            callbacks, self.callbacks = self.callbacks, []
            for func in callbacks:
                func()
"""))
ok("c09-key-lambda", (ABORT, "reactor.callLater(0, func)", "reactor.callLater(0, lambda: func())"))
