"""Edits of the ranking."""

from common import *

C = Corpus()
M, bug, ok = C.M, C.bug, C.ok

KS = "            self._KS = np.argsort([float(i.SSE) for i in self.iList])\n"
SET = "        self.iList[k] = i\n        # Invalidate sorting\n        del self.KS\n"
DELKS = "        self._KS = None\n        del self.iSorted\n"
bug("c16-keep-sorted", "C16", (POP, DELKS, "        self._KS = None\n"),
    (POP, "        if self._KS is None or self._iSorted is None:\n", "        if self._iSorted is None:\n"))
bug("c16-sorted-test", "C16", (POP, "        if self._KS is None or self._iSorted is None:\n",
                               "        if self._iSorted is None:\n"),
    (POP, "        self._iSorted = None\n\n    @property", "        pass\n\n    @property"))
bug("c16-keep-KS", "C16", (POP, DELKS, "        del self.iSorted\n"))
bug("c16-desc", "C16", (POP, KS, "            self._KS = np.argsort([-float(i.SSE) for i in self.iList])\n"))
bug("c16-reverse", "C16", (POP, KS, KS.replace("iList])", "iList])[::-1]")))
bug("c16-setitem-first", "C16", (POP, SET,
                                 "        del self.KS\n        kBest = self.kBest\n        self.iList[k] = i\n"))
bug("c16-setitem-none", "C16", (POP, SET,
                                "        self.iList[k] = i\n"))
bug("c16-setitem-better", "C16", (POP, SET,
                                  "        better = i < self.iList[k]\n        self.iList[k] = i\n        if better: del self.KS\n"))
bug("c16-setitem-kbest", "C16", (POP, SET,
                                 "        self.iList[k] = i\n        if k != self.kBest: del self.KS\n"))
bug("c16-blacklist", "C16", (IND, "        del self.p.KS\n", ""))
bug("c16-blacklist-early", "C16", (IND, "        self.SSE = float('+inf')\n        del self.p.KS\n",
                                   "        del self.p.KS\n        self.p.history\n        best = self.p.best()\n        self.SSE = float('+inf')\n"))
bug("c16-blacklist-sorted", "C16", (IND, "        del self.p.KS\n", "        del self.p.iSorted\n"))
bug("c16-clear", "C16", (POP, "        self.replacementScore = None\n        del self.KS\n",
                         "        self.replacementScore = None\n"))
bug("c16-add", "C16", (POP, "            self.history.add(i)\n            del self.KS\n",
                       "            self.history.add(i)\n"),
    (POP, "        del self.KS\n        self.running = True\n", "        self.running = True\n"))
bug("c16-sort-raw", "C16", (POP, KS, "            self._KS = list(range(len(self.iList)))\n"))
bug("c16-partial", "C16", (POP, KS, "            self._KS = np.argsort([float(i.SSE) for i in self.iList[:-1]])\n"))
bug("c16-finite-only", "C16", (POP, KS, "            self._KS = [k for k in np.argsort([float(i.SSE) for i in self.iList]) if np.isfinite(self.iList[k].SSE)]\n"))
bug("c16-worst", "C16", (POP, "            return self.KS[0]\n", "            return self.KS[-1]\n"))
bug("c16-best-first", "C16", (POP, "            return self.iList[self.kBest]\n", "            return self.iList[0]\n"))
bug("c16-best-cached", "C16", (POP, "            return self.iList[self.kBest]\n",
                               "            if not hasattr(self, '_best'): self._best = self.iList[self.kBest]\n            return self._best\n"))
bug("c16-rank", "C16", (POP, KS, "            self._KS = np.argsort(np.argsort([float(i.SSE) for i in self.iList]))\n"))

ok("c16-ok-sorted", (POP, KS, "            self._KS = sorted(range(len(self.iList)), key=lambda k: float(self.iList[k].SSE))\n"))
ok("c16-ok-nocache", (POP, "        if self._KS is None and self.iList:\n" + KS + "        return self._KS\n",
                      "        if self.iList:\n            return np.argsort([float(i.SSE) for i in self.iList])\n"))
ok("c16-ok-iSorted", (POP, "                self._iSorted = [self.iList[k] for k in self.KS]\n",
                      "                self._iSorted = sorted(self.iList, key=lambda i: float(i.SSE))\n"))
ok("c16-ok-iSorted-lt", (POP, "                self._iSorted = [self.iList[k] for k in self.KS]\n",
                      "                self._iSorted = sorted(self.iList)\n"))
ok("c16-ok-helper", (POP, KS, "            self._KS = self._rank()\n"),
   (POP, "    @property\n    def KS(self):", """    def _rank(self):
        SSEs = []
        for i in self.iList:
            SSEs.append(float(i.SSE))
        return np.argsort(np.array(SSEs))

    @property
    def KS(self):"""))
ok("c16-ok-min", (POP, "            return self.iList[self.kBest]\n",
                  "            return min(self.iList, key=lambda i: float(i.SSE))\n"))
ok("c16-ok-min-lt", (POP, "            return self.iList[self.kBest]\n",
                  "            return min(self.iList)\n"))
ok("c16-ok-argmin", (POP, "        if self.KS is not None:\n            return self.KS[0]\n",
                     "        if self.iList:\n            return np.argmin([float(i.SSE) for i in self.iList])\n"))
ok("c16-ok-listsort", (POP, KS, """            pairs = [(float(i.SSE), k) for k, i in enumerate(self.iList)]
            pairs.sort()
            self._KS = [k for _, k in pairs]
"""))
ok("c16-ok-order", (POP, "        self.history.add(i)\n        # Here is the only place iList should ever be set directly\n" + SET,
                    "        self.iList[k] = i\n        del self.KS\n        self.history.add(i)\n"))
ok("c16-ok-reset", (POP, DELKS, "        self._KS = self._iSorted = None\n"))
ok("c16-ok-push", (POP, "        kWorst = self.KS[-1]\n        self[kWorst] = i\n        del self.KS\n",
                   "        self[self.KS[-1]] = i\n"))
