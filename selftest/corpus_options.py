from common import Corpus, DE

C = Corpus()
M, bug, ok = C.M, C.bug, C.ok

LOOP = """        for name in self.attributes:
            value = kw.get(name, getattr(self, name, None))
            if value is None: value = self.attributes[name]
            setattr(self, name, value)
"""
FH = "        fh = kw['logHandle'] if 'logHandle' in kw else True\n        msg(fh)\n"
CRC = """        if self.CR < 0.0 or self.CR > 1.0:
"""
FM = "        self.fm = FManager(self.F, self.CR, self.p.Np, self.adaptive)\n"
RB = "                    kb = self.p.sample(1, kt, randomBase=self.randomBase)\n"

bug("c27-or", "C27", (DE, LOOP, LOOP.replace("if value is None: value = self.attributes[name]", "value = value or self.attributes[name]")))
bug("c27-not", "C27", (DE, LOOP, LOOP.replace("if value is None", "if not value")))
bug("c27-pop", "C27", (DE, LOOP, LOOP.replace("setattr(self, name, value)", "setattr(type(self), name, value)")))
bug("c27-update", "C27", (DE, LOOP, "        self.attributes.update(kw)\n        for name, value in self.attributes.items():\n            setattr(self, name, value)\n"))
bug("c27-own-dict", "C27", (DE, LOOP, LOOP.replace("            setattr(self, name, value)", "            self.attributes[name] = value\n            setattr(self, name, value)")))
bug("c27-none", "C27", (DE, LOOP, LOOP.replace("            if value is None: value = self.attributes[name]\n", "").replace("getattr(self, name, None)", "self.attributes[name]")))
bug("c27-none-kept", "C27", (DE, LOOP, "        for name, value in self.attributes.items():\n            setattr(self, name, kw.get(name, value))\n"))
bug("c27-in-wrong", "C27", (DE, LOOP, LOOP.replace("kw.get(name, getattr", "kw.get(name.lower(), getattr")))
bug("c27-default-cr", "C27", (DE, "        'CR':           0.8,\n", "        'CR':           0.9,\n"))
bug("c27-default-f", "C27", (DE, "        'F':           (0.5, 1.0),\n", "        'F':           (0.5, 0.9),\n"))
bug("c27-default-adaptive", "C27", (DE, "        'adaptive':     True,\n", "        'adaptive':     False,\n"))
bug("c27-default-dwell", "C27", (DE, "        'dwellByGrave': 5,\n", "        'dwellByGrave': 7,\n"))
bug("c27-missing", "C27", (DE, "        'xSSE':         False,\n", ""), (DE, "    def __init__(self, population, **kw):\n        \"\"\"C{DifferentialEvolution(", "    xSSE = False\n    def __init__(self, population, **kw):\n        \"\"\"C{DifferentialEvolution("))
bug("c27-cr-open", "C27", (DE, CRC, "        if self.CR <= 0.0 or self.CR > 1.0:\n"))
bug("c27-cr-open1", "C27", (DE, CRC, "        if not 0.0 <= self.CR < 1.0:\n"))
bug("c27-cr-unchecked", "C27", (DE, CRC, "        if self.CR < 0.0:\n"))
bug("c27-log-or", "C27", (DE, FH, "        msg(kw.get('logHandle') or True)\n"))
bug("c27-log-none", "C27", (DE, FH, "        msg(kw.get('logHandle', None))\n"))
bug("c27-log-true", "C27", (DE, FH, FH.replace("msg(fh)", "msg(True)")))
bug("c27-log-skip", "C27", (DE, FH, FH.replace("msg(fh)", "if fh: msg(fh)")))
bug("c27-adaptive", "C27", (DE, FM, FM.replace(", self.adaptive", "")))
bug("c27-adaptive-true", "C27", (DE, FM, FM.replace("self.adaptive", "True")))
bug("c27-f-class", "C27", (DE, FM, FM.replace("self.F", "self.attributes['F']")))
bug("c27-cr-class", "C27", (DE, "            if self.CR < random.uniform(0, 1.0):\n", "            if self.attributes['CR'] < random.uniform(0, 1.0):\n"))
bug("c27-maxiter", "C27", (DE, "        for kg in range(self.maxiter):\n", "        for kg in range(self.attributes['maxiter']):\n"))
bug("c27-maxiter-1", "C27", (DE, "        for kg in range(self.maxiter):\n", "        for kg in range(max(1, self.maxiter-1)):\n"))
bug("c27-rb", "C27", (DE, RB, "                    kb = self.p.sample(1, kt, randomBase=True)\n"))
bug("c27-rb-default", "C27", (DE, RB, "                    kb = self.p.sample(1, kt)\n"))
bug("c27-rb-bool", "C27", (DE, RB, "                    kb = self.p.sample(1, kt, randomBase=bool(self.randomBase))\n"))
bug("c27-rb-is", "C27", (DE, "                if self.randomBase or kt == self.p.kBest:\n", "                if self.randomBase is True or kt == self.p.kBest:\n"))
bug("c27-dwell", "C27", (DE, "                    if self.dwellCount > self.dwellByGrave:\n", "                    if self.dwellCount > 5:\n"))
bug("c27-bitter", "C27", (DE, "                if not self.bitterEnd and self.fm.limited:\n", "                if self.fm.limited:\n"))
bug("c27-goal", "C27", (DE, "            if self.goalSSE and self.p.best() < self.goalSSE:\n", "            if self.goalSSE and self.p.best().SSE == self.goalSSE:\n"))
bug("c27-goal-bitter", "C27", (DE, "            if self.goalSSE and self.p.best() < self.goalSSE:\n", "            if self.goalSSE and not self.bitterEnd and self.p.best() < self.goalSSE:\n"))
bug("c27-xsse", "C27", (DE, "                    if self.xSSE:\n                        yield iChallenger.evaluate(iTarget.SSE)\n                    else: yield iChallenger.evaluate()\n", "                    yield iChallenger.evaluate()\n"))
bug("c27-xsse-recorded", "C27", (DE, "                        elif not self.xSSE:\n", "                        else:\n"))
bug("c27-xsse-uniform", "C27", (DE, "                    if self.xSSE:\n", "                    if self.xSSE and not self.bitterEnd:\n"))

ok("c27-ok-dict", (DE, LOOP, "        options = {name: kw[name] for name in self.attributes if kw.get(name) is not None}\n        for name in self.attributes:\n            if name in options:\n                setattr(self, name, options[name])\n            elif getattr(self, name, None) is None:\n                setattr(self, name, self.attributes[name])\n"))
ok("c27-ok-items", (DE, LOOP, "        for name, default in self.attributes.items():\n            value = kw[name] if name in kw else getattr(self, name, None)\n            setattr(self, name, default if value is None else value)\n"))
ok("c27-ok-helper", (DE, LOOP, "        for name in self.attributes:\n            setattr(self, name, self._option(kw, name))\n"), (DE, "    def shutdown(self):\n        \"\"\"\n        Call this", "    def _option(self, kw, name):\n        value = kw.get(name, getattr(self, name, None))\n        if value is not None:\n            return value\n        return self.attributes[name]\n\n    def shutdown(self):\n        \"\"\"\n        Call this"))
ok("c27-ok-update", (DE, LOOP, "        options = dict(self.attributes)\n        for name in options:\n            value = kw.get(name, getattr(self, name, None))\n            if value is not None:\n                options[name] = value\n        self.__dict__.update(options)\n"))
ok("c27-ok-log", (DE, FH, "        msg(kw.get('logHandle', True))\n"))
ok("c27-ok-log-pop", (DE, FH, "        if 'logHandle' in kw:\n            msg(kw.pop('logHandle'))\n        else:\n            msg(True)\n"))
ok("c27-ok-cr", (DE, CRC, "        if not 0.0 <= self.CR <= 1.0:\n"))
ok("c27-ok-cr2", (DE, CRC, "        if not (self.CR >= 0 and self.CR <= 1):\n"))
ok("c27-ok-fm", (DE, FM, "        self.fm = FManager(\n            self.F, self.CR, self.p.Np, adaptive=self.adaptive)\n"))
ok("c27-ok-rb", (DE, RB, "                    rb = self.randomBase\n                    kb = self.p.sample(1, kt, randomBase=rb)\n"))
ok("c27-ok-order", (DE, "        self.running = True\n        self.dChallenges = None\n        abort.callOnAbort(self.shutdown)\n", "        self.dChallenges = None\n        self.running = True\n        abort.callOnAbort(self.shutdown)\n"))
ok("c27-ok-attrs", (DE, "        'xSSE':         False,\n    }\n", "        'xSSE':         False}\n"), (DE, "        'CR':           0.8,\n        'F':           (0.5, 1.0),\n", "        'F':           (0.5, 1.0),\n        'CR':           0.8,\n"))
