from common import Corpus, HIST

C = Corpus()
M, bug, ok = C.M, C.bug, C.ok

bug("c34-inpop-kn", "C34", (HIST, "K = [k for k in self.K if k in self.Kp]", "K = [k for k in self.K if k not in self.Kn]"))
bug("c34-inpop-order", "C34", (HIST, "K = [k for k in self.K if k in self.Kp]", "K = sorted(self.Kp)"))
bug("c34-inpop-list", "C34", (HIST, "K = [k for k in self.K if k in self.Kp]", "K = list(self.Kp)"))
bug("c34-never-order", "C34", (HIST, "K = [k for k in self.K if k in self.Kn]", "K = sorted(self.Kn)"))
bug("c34-notinpop-never", "C34", (HIST, "K = [k for k in self.K if k not in self.Kp and k not in self.Kn]", "K = [k for k in self.K if k not in self.Kp]"))
bug("c34-never-notin", "C34", (HIST, "K = [k for k in self.K if k in self.Kn]", "K = [k for k in self.K if k not in self.Kp]"))
bug("c34-kwarg", "C34", (HIST, "elif kw.get('neverInPop', False):", "elif kw.get('never', False):"))
bug("c34-filter-ignored", "C34", (HIST, "if kw.get('inPop', False):\n            K =", "if kw.pop('inpop', False):\n            K ="))
bug("c34-ratio-ignored", "C34", (HIST, "        maxRatio = kw.get('maxRatio', 1000)\n", "        maxRatio = 1000\n"))
bug("c34-ratio-strange", "C34", (HIST, "        maxRatio = kw.get('maxRatio', 1000)\n", "        maxRatio = kw.get('maxRatio', 1.5)\n"))
bug("c34-ratio-dir", "C34", (HIST, "self.X[K,0] <= maxRatio*SSE_best", "self.X[K,0]*maxRatio <= SSE_best"))
bug("c34-ratio-ge", "C34", (HIST, "self.X[K,0] <= maxRatio*SSE_best", "self.X[K,0] >= maxRatio*SSE_best"))
bug("c34-ratio-sub", "C34", (HIST, "np.flatnonzero(self.X[K,0] <= maxRatio*SSE_best)", "np.flatnonzero(self.X[K,0] - SSE_best <= maxRatio)"))
bug("c34-best-filtered", "C34", (HIST, "        KK = np.flatnonzero(self.X[K,0] <=", "        SSE_best = self.X[K[:1],0]\n        KK = np.flatnonzero(self.X[K,0] <="))
bug("c34-best-row0", "C34", (HIST, "SSE_best = self.X[self.K[:1],0]", "SSE_best = self.X[:1,0]"))
bug("c34-no-KK", "C34", (HIST, "        K = np.array(K)[KK]\n", "        K = np.array(K)\n"))
bug("c34-KK-rows", "C34", (HIST, "        K = np.array(K)[KK]\n", "        K = KK\n"))
bug("c34-K-full", "C34", (HIST, "        K = np.array(K)[KK]\n", "        K = np.array(self.K)[KK]\n"))
bug("c34-subset-K", "C34", (HIST, "return self.X[K,kCol] if len(K) else K", "return self.X[K,kCol] if len(K) else self.X[:,kCol]"))
bug("c34-sorted-names", "C34", (HIST, "            if not isinstance(arg, int): return args\n", "            if not isinstance(arg, int): return sorted(args)\n"))
bug("c34-name2k", "C34", (HIST, "        return self.names.index(name) + 1\n", "        return sorted(self.names).index(name) + 1\n"))
bug("c34-name2k-off", "C34", (HIST, "        return self.names.index(name) + 1\n", "        return self.names.index(name)\n"))
bug("c34-no-sse", "C34", (HIST, "        result = [subset(0)]\n        for name", "        result = []\n        for name"))
bug("c34-sse-last", "C34", (HIST, "        return result\n\n    def lineFit", "        return result[1:] + result[:1]\n\n    def lineFit"))
bug("c34-history-kw", "C34", (HIST, "return self.a.value_vs_SSE(*args, **kw)", "return self.a.value_vs_SSE(*args)"))
bug("c34-old-divide", "C34", (HIST, "self.X[K,0] <= maxRatio*SSE_best", "self.X[K,0]/SSE_best <= maxRatio"))
bug("c34-alias-Kp", "C34 C17",
    (HIST, "            self.Kp.discard(kr)\n", "            self.Kp = self.Kp - set([kr])\n"))
bug("c34-clear-alias", "C34", (HIST, "            self.Kn.clear()\n", "            self.Kn = set()\n"))

ok("c34-ok-set", (HIST, "K = [k for k in self.K if k in self.Kp]", "K = list(filter(self.Kp.__contains__, self.K))"))
ok("c34-ok-loop", (HIST, """        for name in names:
            result.append(subset(self.name2k(name)))
        return result
""", """        return result + [subset(self.name2k(name)) for name in names]
"""))
ok("c34-ok-mask", (HIST, "        KK = np.flatnonzero(self.X[K,0] <= maxRatio*SSE_best)\n        K = np.array(K)[KK]\n",
                   "        limit = maxRatio*SSE_best\n        K = [k for k in K if self.X[k,0] <= limit]\n"))
ok("c34-ok-bool", (HIST, "        KK = np.flatnonzero(self.X[K,0] <= maxRatio*SSE_best)\n        K = np.array(K)[KK]\n",
                   "        K = np.array(K, dtype=int)\n        K = K[self.X[K,0] <= maxRatio*SSE_best]\n"))
ok("c34-ok-helper", (HIST, """        if kw.get('inPop', False):
            K = [k for k in self.K if k in self.Kp]
        elif kw.get('notInPop', False):
            K = [k for k in self.K if k not in self.Kp and k not in self.Kn]
        elif kw.get('neverInPop', False):
            K = [k for k in self.K if k in self.Kn]
        else: K = self.K
""", """        K = self._selected(**kw)
"""), (HIST, "    def lineFit(self, k1, k2, K):\n", """    def _selected(self, inPop=False, notInPop=False, neverInPop=False, **kw):
        def wanted(k):
            if inPop: return k in self.Kp
            if notInPop: return not (k in self.Kp or k in self.Kn)
            return k in self.Kn
        if not (inPop or notInPop or neverInPop):
            return self.K
        K = []
        for k in self.K:
            if wanted(k):
                K.append(k)
        return K

    def lineFit(self, k1, k2, K):
"""))
ok("c34-ok-diff", (HIST, "K = [k for k in self.K if k not in self.Kp and k not in self.Kn]",
                   "other = self.Kp | self.Kn\n            K = [k for k in self.K if k not in other]"))
ok("c34-ok-subset", (HIST, "            return self.X[K,kCol] if len(K) else K\n", "            if len(K) == 0:\n                return np.array([])\n            return self.X[:,kCol][K]\n"))
ok("c34-ok-lock", (HIST, """        def gotLock():
            return self.a.value_vs_SSE(*args, **kw)
        return self.dLock.run(gotLock)
""", """        return self.dLock.run(self.a.value_vs_SSE, *args, **kw)
"""))
ok("c34-ok-names", (HIST, """        for arg in args:
            if not isinstance(arg, int): return args
        return sorted""", """        if any(not isinstance(arg, int) for arg in args):
            return args
        return sorted"""))
ok("c34-ok-enum", (HIST, "        return self.names.index(name) + 1\n", "        for k, x in enumerate(self.names, 1):\n            if x == name:\n                return k\n        raise ValueError(name)\n"))
