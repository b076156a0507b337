"""Edits of how challengers are made and evaluated (C04-C08, C23)."""

DE = "ade/de.py"
POP = "ade/population.py"
IND = "ade/individual.py"
M = []


def bug(id, props, *edits):
    M.append({"id": id, "kind": "bug", "props": props.split(), "edits": list(edits)})


def ok(id, *edits):
    M.append({"id": id, "kind": "ok", "props": [], "edits": list(edits)})


MUT = "iChallenger = iBase + (i0 - i1) * self.fm.get()"
bug("c06-target-base", "C06", (DE, MUT, "iChallenger = iTarget + (i0 - i1) * self.fm.get()"))
bug("c06-sum", "C06", (DE, MUT, "iChallenger = iBase + (i0 + i1) * self.fm.get()"))
bug("c06-forced-drop", "C06", (DE, "            if k == j:\n", "            if k == j and self.CR:\n"))
bug("c06-randint", "C06", (DE, "random.randint(0, self.p.Nd-1)", "random.randint(0, self.p.Nd)"))
bug("c06-first-forced", "C06", (DE, "j = random.randint(0, self.p.Nd-1)", "j = 0"))
bug("c06-inverted", "C06", (DE, "if self.CR < random.uniform(0, 1.0):", "if self.CR > random.uniform(0, 1.0):"))
bug("c06-one-draw", "C06", (DE, "        for k in range(self.p.Nd):\n            if k == j:\n",
    "        u = random.uniform(0, 1.0)\n        for k in range(self.p.Nd):\n            if k == j:\n"),
    (DE, "if self.CR < random.uniform(0, 1.0):", "if self.CR < u:"))
bug("c06-cross-base", "C06", (DE, "self.crossover(iTarget, iChallenger)", "self.crossover(iBase, iChallenger)"))
bug("c06-last-not", "C06", (DE, "for k in range(self.p.Nd):\n            if k == j:", "for k in range(self.p.Nd-1):\n            if k == j:"))
bug("c06-mul", "C06", (IND, "return self.spawn(self.values * F)", "return self.spawn(self.values * abs(F) * 0.5)"))
bug("c06-sub-rev", "C06", (IND, "return self.spawn(self.values - other.values)", "return self.spawn(np.abs(self.values - other.values))"))
bug("c06-sample-shift", "C06", (DE, "iTarget, iBase, i0, i1 = sample", "iBase, iTarget, i0, i1 = sample"))
bug("c06-scaled-base", "C06", (DE, MUT, "iChallenger = (iBase + i0 - i1) * self.fm.get()"))
bug("c06-crossmid", "C06", (DE, "mutant[k] = parent[k]", "mutant[k] = parent[j]"))

bug("c07-iadd", "C07", (IND, "        return self.spawn(self.values + other.values)",
    "        self.values += other.values\n        return self.spawn(self.values)"))
bug("c07-crossover-swapped", "C07 C06", (DE, "self.crossover(iTarget, iChallenger)", "self.crossover(iChallenger, iTarget)"))
bug("c07-limit-out", "C07", (POP, "self.crossover(iTarget, iChallenger)", "") if False else
    (DE, "self.p.limit(iChallenger)", "self.p.limit(iChallenger); self.p.limit(iTarget)"))
bug("c07-copy-shares", "C07", (IND, "i = Individual(self.p, list(self.values))", "i = Individual(self.p, self.values)"))
bug("c07-mul-inplace", "C07", (IND, "return self.spawn(self.values * F)", "self.values *= F\n        return self"))
bug("c07-dt", "C07", (DE, "self.p.limit(iChallenger)\n", "self.p.limit(iChallenger)\n                iTarget.SSE = iTarget.SSE * 1.0001\n"))
bug("c07-limit-clip-out", "C07 C08 C04", (POP, "        values = self.pm.limit(i.values)\n        i.update(values)\n",
    "        np.clip(i.values, self.pm.mins, self.pm.maxs, out=self.pm.mins)\n"))
bug("c06-share-target", "C06", (DE, "                self.crossover(iTarget, iChallenger)\n",
    "                if not self.CR: iChallenger.values = iTarget.values\n"
    "                else: self.crossover(iTarget, iChallenger)\n"))

bug("c08-nobool", "C08 C01", (DE, "if iChallenger and self.running \\", "if self.running \\"))
bug("c08-no-shutdown", "C08", (DE, "                        self.shutdown()\n                else:\n", "                        if self.running: msg(0, 'oops')\n                else:\n"))
bug("c08-failed-none", "C08", (IND, "            self.SSE = -1\n", "            self.SSE = None\n"))
bug("c08-noerrback", "C08", (IND, "d.addCallbacks(done, failed)", "d.addCallback(done)"))
bug("c08-sync", "C08", (POP, "            return defer.maybeDeferred(self.func, values)\n", "            return defer.succeed(self.func(values))\n"))
bug("c08-history", "C08", (DE, "                    if iChallenger and self.running \\", "                    if not iChallenger: self.p.history.add(iChallenger, neverInPop=True)\n                    if iChallenger and self.running \\"))
bug("c08-setup-continue", "C08 C14", (POP, "                msg(0, \"Bogus initial evaluation of {}, aborting\", i)\n                self.abort()\n                return\n", "                msg(0, \"Bogus initial evaluation of {}, skipping\", i)\n                return\n"))
bug("c08-setup-report", "C08", (POP, "            if not i:\n                msg(0, \"Bogus", "            self.reporter(i)\n            if not i:\n                msg(0, \"Bogus"))
bug("c08-shutdown-noflag", "C08 C09", (DE, "            self.running = False\n            msg(0, \"Shutting down DE...\")", "            msg(0, \"Shutting down DE...\")"))

bug("c23-best", "C23", (DE, "yield iChallenger.evaluate(iTarget.SSE)", "yield iChallenger.evaluate(self.p.best().SSE)"))
bug("c23-base", "C23", (DE, "yield iChallenger.evaluate(iTarget.SSE)", "yield iChallenger.evaluate(iBase.SSE)"))
bug("c23-always", "C23", (DE, "                    if self.xSSE:\n                        yield iChallenger.evaluate(iTarget.SSE)\n                    else: yield iChallenger.evaluate()\n", "                    yield iChallenger.evaluate(iTarget.SSE)\n"))
bug("c23-never", "C23", (POP, "        return defer.maybeDeferred(self.func, values, xSSE=xSSE)", "        return defer.maybeDeferred(self.func, values)"))
bug("c23-add-xsse", "C23", (DE, "elif not self.xSSE:", "else:"))
bug("c23-add-inpop", "C23 C17", (DE, "iChallenger, neverInPop=True)", "iChallenger)"))
bug("c23-scaled", "C23", (IND, "else: d = self.p.evalFunc(self.values, xSSE=xSSE)", "else: d = self.p.evalFunc(self.values, xSSE=0.99*xSSE)"))
bug("c23-zero", "C23", (IND, "        if xSSE is None:\n            d = self", "        if not xSSE:\n            d = self"))
bug("c23-inf", "C23", (POP, "        if xSSE is None:\n            return", "        if xSSE is None or not np.isfinite(xSSE):\n            return"))

ok("ok-ops-local", (IND, "        return self.spawn(self.values - other.values)", "        diff = np.subtract(self.values, other.values)\n        return self.spawn(diff)"))
ok("ok-crossover-while", (DE, "        for k in range(self.p.Nd):\n            if k == j:\n                # The mutant gets to keep at least this one value\n                continue\n", "        k = -1\n        while k+1 < self.p.Nd:\n            k += 1\n            if k == j:\n                # The mutant gets to keep at least this one value\n                continue\n"))
ok("ok-crossover-randrange", (DE, "random.randint(0, self.p.Nd-1)", "random.randrange(self.p.Nd)"))
ok("ok-crossover-random", (DE, "if self.CR < random.uniform(0, 1.0):", "if not random.random() <= self.CR:"))
ok("ok-crossover-values", (DE, "mutant[k] = parent[k]", "mutant.values[k] = parent.values[k]"))
ok("ok-crossover-list", (DE, "        for k in range(self.p.Nd):\n            if k == j:\n                # The mutant gets to keep at least this one value\n                continue\n", "        for k in [x for x in range(self.p.Nd) if x != j]:\n"))
ok("ok-crossover-enum", (DE, "        for k in range(self.p.Nd):\n            if k == j:", "        for k, value in enumerate(parent):\n            if k == j:"), (DE, "mutant[k] = parent[k]", "mutant[k] = value"))
ok("ok-mut-order", (DE, MUT, "F = self.fm.get()\n                iChallenger = (i0 - i1)*F + iBase"))
ok("ok-evaluate-inner", (IND, """        if xSSE is None:
            d = self.p.evalFunc(self.values)
        else: d = self.p.evalFunc(self.values, xSSE=xSSE)
""", """        kw = {}
        if xSSE is not None:
            kw['xSSE'] = xSSE
        d = self.p.evalFunc(self.values, **kw)
"""))
ok("ok-evalfunc-kw", (POP, """        if xSSE is None:
            return defer.maybeDeferred(self.func, values)
        return defer.maybeDeferred(self.func, values, xSSE=xSSE)
""", """        args = [self.func, None if self.running is False else values]
        kw = {} if xSSE is None else {'xSSE': xSSE}
        return defer.maybeDeferred(*args, **kw)
"""), )
ok("ok-evaluate-addboth", (IND, "        d.addCallbacks(done, failed)\n        return d\n", "        return d.addCallbacks(done, failed)\n"))
ok("ok-evaluate-two", (IND, "        d.addCallbacks(done, failed)\n        return d\n", "        d.addCallback(done)\n        d.addErrback(failed)\n        return d\n"))
ok("ok-evaluated-nested", (POP, """            self.reporter(i)
            isFinite = np.isfinite(float(i.SSE))
            if isFinite and needMore(): addIndividual(i)
""", """            self.reporter(i)
            if not np.isfinite(float(i.SSE)):
                return
            if needMore():
                addIndividual(i)
"""))
ok("ok-shutdown-early", (DE, """        if self.running:
            self.running = False
            msg(0, "Shutting down DE...")
            if self""", """        if not self.running:
            return
        if True:
            self.running = False
            msg(0, "Shutting down DE...")
            if self"""))
