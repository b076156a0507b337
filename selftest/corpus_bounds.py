"""Edits of bounds and constraints (C04, C05)."""

from common import *  # noqa: F401,F403

C = Corpus()
M, bug, ok = C.M, C.bug, C.ok

CLIP = "        return np.clip(values, self.mins, self.maxs)"
W1 = "        values = np.where(values < self.mins, 2*self.mins - values, values)\n"
W2 = "        values = np.where(values > self.maxs, 2*self.maxs - values, values)\n"
LIM = "                self.p.limit(iChallenger)\n"
PASS = "                if self.p.pm.passesConstraints(iChallenger.values):\n"
MINS = "        self.mins = np.array([x[0] for x in bounds])\n"
MAXS = "        self.maxs = np.array([x[1] for x in bounds])\n"

bug("c04-no-clip", "C04", (POP, CLIP, "        return values"))
ok("ok-clip-low", (POP, CLIP, "        return np.maximum(values, self.mins)"))
bug("c04-clip-scale", "C04", (POP, CLIP, "        return np.clip(values, self.mins, self.mins + 2*self.scales)"))
bug("c04-limit-after-eval", "C04", (DE, LIM, "                if not self.xSSE: self.p.limit(iChallenger)\n"))
bug("c04-no-limit", "C04", (DE, LIM, ""))
bug("c04-load-order", "C04", (POP, "            p.pm.setup(bounds)\n            for i in p:\n                p.limit(i)\n",
    "            for i in p:\n                p.limit(i)\n            p.pm.setup(bounds)\n"))
bug("c04-load-best", "C04", (POP, "            for i in p:\n                p.limit(i)\n", "            p.limit(p[0])\n"))
bug("c04-load-discard", "C04", (POP, "            for i in p:\n                p.limit(i)\n", "            for i in p:\n                p.pm.limit(i.values)\n"))
bug("c04-maxs", "C04", (POP, MAXS, "        self.maxs = np.array([x[-1] for x in bounds]) + abs(self.mins)*1E-3\n"))
bug("c04-mins-sorted", "C04", (POP, MINS, "        self.mins = np.array(sorted(x[0] for x in bounds))\n"))
bug("c04-fromunity", "C04", (POP, "Individual(self, self.pm.limit(values))", "Individual(self, values)"),
    (POP, "scaled = self.scales * values\n", "scaled = self.maxs * values\n"))
bug("c04-crossover-after", "C04", (DE, "                self.crossover(iTarget, iChallenger)\n", ""),
    (DE, LIM, LIM + "                iChallenger = iChallenger + (iTarget - iBase)\n                self.crossover(iTarget, iChallenger)\n"))
bug("c04-mids", "C04", (POP, "        self.mids = self.mins + 0.5 * self.scales\n", "        self.mids = self.mins\n        self.mids += 0.5 * self.scales\n"))
bug("c04-limit-any", "C04", (POP, "        values = self.pm.limit(i.values)\n        i.update(values)\n",
    "        values = i.values\n        if np.any(values < self.pm.mins) and np.any(values > self.pm.maxs):\n            values = self.pm.limit(values)\n        i.update(values)\n"))

bug("c05-before-limit", "C05", (DE, LIM + "\n" if False else LIM, ""), (DE, PASS,
    "                ok = self.p.pm.passesConstraints(iChallenger.values)\n                self.p.limit(iChallenger)\n                if ok:\n"))
bug("c05-any", "C05", (POP, "            if not func(params):\n                # This constraint was violated, bail out\n                return False\n        return True",
    "            if func(params):\n                # This constraint was violated, bail out\n                return True\n        return False"))
bug("c05-last-only", "C05", (POP, "            if not func(params):\n                # This constraint was violated, bail out\n                return False\n        return True",
    "            result = func(params)\n        return result"))
bug("c05-first-only", "C05", (POP, "            if not func(params):\n                # This constraint was violated, bail out\n                return False\n        return True",
    "            return bool(func(params))\n        return True"))
bug("c05-partial-map", "C05", (POP, "        for name, value in zip(self.names, values):\n            params[name] = value\n",
    "        for name, value in zip(self.names[1:], values[1:]):\n            params[name] = value\n"))
bug("c05-sorted-names", "C05", (POP, "        for name, value in zip(self.names, values):\n            params[name] = value\n",
    "        for name, value in zip(sorted(self.names, reverse=True), values):\n            params[name] = value\n"))
bug("c05-target", "C05", (DE, PASS, "                if self.p.pm.passesConstraints(iTarget.values):\n"))
bug("c05-no-abort", "C05", (POP, "                msg(0, \"Couldn't generate a conforming Individual, aborting!\")\n                self.abort()\n",
    "                msg(0, \"Couldn't generate a conforming Individual, aborting!\")\n"))
bug("c05-fresh", "C05", (POP, "return Individual(self, self.pm.limit(values))", "return Individual(self, self.pm.limit(getNextIV()))"))
bug("c05-init-tuple", "C05", (POP, "            if notseq(constraints) else constraints", "            if notseq(constraints) else constraints[:1]"))
bug("c05-set-first", "C05", (POP, "        self.constraints = list(args)", "        self.constraints = list(args[:1])"))
bug("c05-set-pop", "C05", (POP, "        self.pm.setConstraints(*args)", "        self.pm.setConstraints(args[0])"))
bug("c05-blank", "C05", (POP, "                if self.pm.passesConstraints(values):\n", "                if blank or self.pm.passesConstraints(values):\n"))
bug("c05-skip-eval", "C05", (DE, PASS, "                if self.p.pm.passesConstraints(iChallenger.values) and self.p.pm.passesConstraints(iBase.values):\n"))
bug("c04-clip-low", "C04", (POP, W2 + CLIP, "        return np.maximum(values, self.mins)"))
bug("c05-ignore", "C05", (POP, "            if not func(params):", "            if func(params) is False:"))

ok("ok-limit-minmax", (POP, CLIP, "        return np.minimum(np.maximum(values, self.mins), self.maxs)"))
ok("ok-limit-steps", (POP, W1 + W2 + CLIP, """        below = values < self.mins
        reflected = np.where(below, 2*self.mins - values, values)
        above = reflected > self.maxs
        reflected = np.where(above, 2*self.maxs - reflected, reflected)
        low = np.maximum(reflected, self.mins)
        return np.minimum(low, self.maxs)"""))
ok("ok-limit-mask", (POP, W1 + W2, """        values = np.array(values)
        under = values < self.mins
        values[under] = 2*self.mins[under] - values[under]
        over = values > self.maxs
        values[over] = 2*self.maxs[over] - values[over]
"""))
ok("ok-limit-loop", (POP, W1 + W2 + CLIP, """        result = []
        for k, value in enumerate(values):
            low, high = self.mins[k], self.maxs[k]
            if value < low:
                value = 2*low - value
            if value > high:
                value = 2*high - value
            result.append(min(max(value, low), high))
        return np.array(result)"""))
ok("ok-limit-loop-if", (POP, W1 + W2 + CLIP, """        result = np.array(values)
        for k in range(len(values)):
            if result[k] < self.mins[k]:
                result[k] = 2*self.mins[k] - result[k]
            if result[k] > self.maxs[k]:
                result[k] = 2*self.maxs[k] - result[k]
            if result[k] < self.mins[k]:
                result[k] = self.mins[k]
            elif result[k] > self.maxs[k]:
                result[k] = self.maxs[k]
        return result"""))
ok("ok-limit-helper", (POP, W1 + W2 + CLIP, """        return np.clip(self._reflected(values), self.mins, self.maxs)

    def _reflected(self, values):
        values = np.where(values < self.mins, 2*self.mins - values, values)
        return np.where(values > self.maxs, 2*self.maxs - values, values)"""))
ok("ok-clip-method", (POP, CLIP, "        return values.clip(self.mins, self.maxs)"))
ok("ok-bounds-unpack", (POP, MINS + MAXS, "        self.mins = np.array([lower for lower, _ in bounds])\n        self.maxs = np.array([upper for _, upper in bounds])\n"))
ok("ok-bounds-zip", (POP, MINS + MAXS, "        lower, upper = zip(*bounds)\n        self.mins = np.array(lower)\n        self.maxs = np.array(upper)\n"))
ok("ok-bounds-2d", (POP, MINS + MAXS, "        B = np.array(bounds)\n        self.mins = B[:,0]\n        self.maxs = B[:,1]\n"))
ok("ok-bounds-T", (POP, MINS + MAXS, "        self.mins, self.maxs = np.array(bounds).T\n"))
ok("ok-bounds-loop", (POP, MINS + MAXS, "        mins = []; maxs = []\n        for bound in bounds:\n            mins.append(bound[0])\n            maxs.append(bound[1])\n        self.mins = np.array(mins)\n        self.maxs = np.array(maxs)\n"))
ok("ok-load-list", (POP, "            for i in p:\n                p.limit(i)\n", "            for i in p.iList:\n                i.update(p.pm.limit(i.values))\n"))
ok("ok-load-range", (POP, "            for i in p:\n                p.limit(i)\n", "            for k in range(len(p)):\n                p.limit(p[k])\n"))
ok("ok-limit-pop", (POP, "        values = self.pm.limit(i.values)\n        i.update(values)\n", "        i.update(self.pm.limit(i.values))\n"))
ok("ok-passes-all", (POP, "        for func in self.constraints:\n            if not func(params):\n                # This constraint was violated, bail out\n                return False\n        return True",
    "        return all(func(params) for func in self.constraints)"))
ok("ok-passes-any", (POP, "        for func in self.constraints:\n            if not func(params):\n                # This constraint was violated, bail out\n                return False\n        return True",
    "        return not any(not func(params) for func in self.constraints)"))
ok("ok-passes-dict", (POP, "        params = {}\n        for name, value in zip(self.names, values):\n            params[name] = value\n", "        params = dict(zip(self.names, values))\n"))
ok("ok-passes-comp", (POP, "        params = {}\n        for name, value in zip(self.names, values):\n            params[name] = value\n", "        params = {name: values[k] for k, name in enumerate(self.names)}\n"))
ok("ok-passes-flag", (POP, "            if not func(params):\n                # This constraint was violated, bail out\n                return False\n        return True",
    "            ok = func(params)\n            if ok:\n                continue\n            return False\n        return True"))
ok("ok-passes-while", (POP, "        for func in self.constraints:\n            if not func(params):\n                # This constraint was violated, bail out\n                return False\n        return True",
    "        k = 0\n        while k < len(self.constraints):\n            if not self.constraints[k](params):\n                return False\n            k += 1\n        return True"))
ok("ok-passes-noguard", (POP, "        if not self.constraints: return True\n", ""))
ok("ok-tries-while", (POP, """            for k in range(self.maxTries):
                values = getNextIV()
                if self.pm.passesConstraints(values):
                    break
                self.showFailedConstraint()
            else:
                msg(0, "Couldn't generate a conforming Individual, aborting!")
                self.abort()
            return Individual(self, self.pm.limit(values))
""", """            tries = 0
            while tries < self.maxTries:
                values = getNextIV()
                if self.pm.passesConstraints(values):
                    return Individual(self, self.pm.limit(values))
                self.showFailedConstraint()
                tries += 1
            msg(0, "Couldn't generate a conforming Individual, aborting!")
            self.abort()
            return Individual(self, self.pm.limit(values))
"""))
ok("ok-tries-early", (POP, """                if self.pm.passesConstraints(values):
                    break
                self.showFailedConstraint()
            else:
                msg(0, "Couldn't generate a conforming Individual, aborting!")
                self.abort()
            return Individual(self, self.pm.limit(values))
""", """                if self.pm.passesConstraints(values):
                    return Individual(self, self.pm.limit(values))
                self.showFailedConstraint()
            msg(0, "Couldn't generate a conforming Individual, aborting!")
            self.abort()
"""))
ok("ok-challenge-notpass", (DE, PASS, "                conforms = self.p.pm.passesConstraints(iChallenger.values)\n                if conforms:\n"))
ok("ok-setup-spawn", (POP, "return Individual(self, self.pm.limit(values))", "return self.spawn(self.pm.limit(values))"))
ok("ok-row", (POP, "            return IV[k,:]\n", "            return IV[k]\n"))
ok("ok-unity-inline", (POP, "        scaled = self.scales * values\n        return self.mins + scaled", "        return values * self.scales + self.mins"))
ok("ok-unity-span", (POP, "        scaled = self.scales * values\n        return self.mins + scaled", "        return self.mins + (self.maxs - self.mins) * values"))
