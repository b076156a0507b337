"""Edits of the management of the mutation weight."""

from common import *

C = Corpus()
M, bug, ok = C.M, C.bug, C.ok

bug("c12-no-clamp", "C12", (DE, "return min([x*(scale**-self.scaleUpPower), upperLimit])",
                            "return x*(scale**-self.scaleUpPower)"),
    (DE, """        if value > self.origHighest:
            value = self.origHighest
""", ""))
ok("c12-one-clamp", (DE, "return min([x*(scale**-self.scaleUpPower), upperLimit])",
                     "return x*(scale**-self.scaleUpPower)"))
ok("c12-other-clamp", (DE, """        if value > self.origHighest:
            value = self.origHighest
""", ""))
bug("c12-ge-scaled", "C12", (DE, "if proposedF > self.criticalF:", "if lowest > self.criticalF:"))
bug("c12-no-critical", "C12", (DE, "if proposedF > self.criticalF:", "if proposedF > 0:"))
bug("c12-critical-eq", "C12", (DE, "if proposedF > self.criticalF:",
                               "if proposedF >= self.criticalF:"))
bug("c12-not-adaptive-up", "C12", (DE, """        if not self.is_adaptive:
            return
        self.limited = False
""", """        self.limited = False
"""), (DE, """        if not self.is_adaptive:
            return
        lowest = self.lowest
""", """        lowest = self.lowest
"""))
bug("c12-shared", "C12", (DE, "self.F = list(F)", "self.F = F if isinstance(F, list) else list(F)"))
bug("c12-limited-always", "C12", (DE, """                self.highest = proposedF
                return
""", """                self.highest = proposedF
"""))
bug("c12-never-limited", "C12", (DE, "        self.limited = True\n", ""))
bug("c12-limited-stays", "C12", (DE, """            return
        self.limited = False
        highest = self.highest
""", """            return
        highest = self.highest
        if highest < self.origHighest: self.limited = False
"""))
bug("c12-crossed", "C12", (DE, "if proposedF > self.minHighestVsLowest * lowest:",
                           "if proposedF > self.criticalF:"))
bug("c12-highest-first", "C12", (DE, "minHighestVsLowest = 3", "minHighestVsLowest = 0.3"))
bug("c12-scale-up", "C12", (DE, "scaleLowest = 0.89", "scaleLowest = 1.089"))
bug("c12-up-power", "C12", (DE, "x*(scale**-self.scaleUpPower)", "x*(scale**self.scaleUpPower)"))
bug("c12-orig-swapped", "C12", (DE, "self.lowest = scaleUp(lowest, self.scales[0], self.origLowest)",
                                "self.lowest = self.highest"),
    (DE, """        if value > self.origLowest:
            value = self.origLowest
""", ""))
bug("c12-critical-formula", "C12", (DE, "np.sqrt((1.0 - 0.5*CR) / Np)", "np.sqrt(1.0 - 0.5*CR) / Np"))
bug("c12-zero-adaptive", "C12", (DE, "                self.is_adaptive = False\n", ""))
bug("c12-zero-kept", "C12", (DE, "                self.F[0] = self.criticalF\n", ""))
bug("c12-get-orig", "C12", (DE, "return random.uniform(*self.F)",
                            "return random.uniform(self.origLowest, self.F[1])"))
bug("c12-get-gauss", "C12", (DE, "return random.uniform(*self.F)",
                             "return random.gauss(0.5*sum(self.F), 0.1)"))
bug("c12-ctor-args", "C12", (DE, "FManager(self.F, self.CR, self.p.Np, self.adaptive)",
                             "FManager(self.F, self.CR, self.adaptive, self.p.Np)"))
bug("c12-ctor-not-adaptive", "C12", (DE, "FManager(self.F, self.CR, self.p.Np, self.adaptive)",
                                     "FManager(self.F, self.CR, self.p.Np)"))
bug("c12-orig-late", "C12", (DE, "        self.highest = self.origHighest\n", "") if False else
    (DE, "self.highest = scaleUp(highest, self.scales[1], self.origHighest)",
     "self.F[1] = scaleUp(highest, self.scales[1], 1.0)"))
bug("c12-up-stuck", "C12", (DE, "if self.is_sequence and highest < self.origHighest:",
                            "if self.is_sequence:"))
ok("c12-elif", (DE, """        lowest = self.lowest
        if lowest < self.origLowest:
            self.lowest = scaleUp(lowest, self.scales[0], self.origLowest)
""", """        lowest = self.lowest
        if lowest >= self.origLowest: return
        raised = lowest / self.scales[0]**self.scaleUpPower
        self.lowest = raised if raised < self.origLowest else self.origLowest
"""))
ok("c12-max", (DE, """        if value > self.origLowest:
            value = self.origLowest
""", """        value = min(value, self.origLowest)
"""))
ok("c12-else", (DE, """        if proposedF > self.criticalF:
            self.lowest = proposedF
            return
        if self.is_sequence:
""", """        if not proposedF <= self.criticalF:
            self.lowest = proposedF
        elif self.is_sequence:
"""), (DE, """                self.highest = proposedF
                return
        self.limited = True
""", """                self.highest = proposedF
            else: self.limited = True
        else: self.limited = True
"""))
ok("c12-helper", (DE, """        lowest = self.lowest
        proposedF = self.scales[0] * lowest
        if proposedF > self.criticalF:
            self.lowest = proposedF
            return
""", """        lowest = self.lowest
        if self._lower(lowest): return
"""), (DE, """    def down(self):
""", """    def _lower(self, lowest):
        proposed = lowest * self.scales[0]
        if self.criticalF < proposed:
            self.lowest = proposed
            return True
        return False

    def down(self):
"""))
ok("c12-get", (DE, "return random.uniform(*self.F)",
               "return random.uniform(self.lowest, self.highest)"))
ok("c12-get2", (DE, "return random.uniform(*self.F)",
                "low, high = self.F\n            return low + (high - low)*random.random()"))
ok("c12-get3", (DE, "return random.uniform(*self.F)",
                "return np.random.uniform(self.F[0], self.F[1])"))
ok("c12-critical", (DE, "np.sqrt((1.0 - 0.5*CR) / Np)", "np.sqrt((2.0 - CR) / (2.0*Np))"))
ok("c12-critical2", (DE, "np.sqrt((1.0 - 0.5*CR) / Np)", "((1.0 - CR/2.0) / Np)**0.5"))
ok("c12-ctor-kw", (DE, "FManager(self.F, self.CR, self.p.Np, self.adaptive)",
                   "FManager(self.F, self.CR, Np=self.p.Np, adaptive=self.adaptive)"))
ok("c12-copy", (DE, "self.F = list(F)", "self.F = [x for x in F]"))
ok("c12-copy2", (DE, "self.F = list(F)", "self.F = [F[0], F[1]]"))
