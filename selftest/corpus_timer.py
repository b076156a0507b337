from common import Corpus, UTIL

C = Corpus()
M, bug, ok = C.M, C.bug, C.ok

T = "            self.times[ID] = self.times.get(ID, 0) + time.time() - t0\n"
N = "            self.Ns[ID] = self.Ns.get(ID, 0) + 1\n"
CALL = "        t0 = time.time()\n        return func(*args, **kw).addBoth(done)\n"
IT = ("        pairs = []\n        for ID in self.times:\n            avgTime = self.times[ID] / self.Ns[ID]\n            pairs.append([ID, avgTime])\n"
      "        for ID, avgTime in sorted(pairs, key=lambda x: x[1]):\n            yield ID\n")
bug("c33-sum", "C33", (UTIL, "self.times[ID] / self.Ns[ID]", "self.times[ID]"))
bug("c33-last", "C33", (UTIL, T, "            self.times[ID] = time.time() - t0\n"))
bug("c33-count", "C33", (UTIL, N, "            self.Ns[ID] = len(self.times)\n"))
bug("c33-count-ok", "C33", (UTIL, CALL, CALL.replace("addBoth", "addCallback")))
bug("c33-swallow", "C33", (UTIL, "            return result\n\n        t0", "            if not isinstance(result, failure.Failure):\n                return result\n\n        t0") if False else (UTIL, CALL, CALL.replace("addBoth(done)", "addBoth(done).addErrback(lambda _: None)")))
bug("c33-no-result", "C33", (UTIL, N + "            return result\n", N))
bug("c33-self-t0", "C33", (UTIL, T, T.replace("t0", "self.t0")), (UTIL, CALL, CALL.replace("t0", "self.t0")))
bug("c33-key-0", "C33", (UTIL, "ID = args[self.k]", "ID = args[0]"))
bug("c33-reverse", "C33", (UTIL, "sorted(pairs, key=lambda x: x[1])", "sorted(pairs, key=lambda x: -x[1])"))
bug("c33-by-id", "C33", (UTIL, "sorted(pairs, key=lambda x: x[1])", "sorted(pairs)"))
bug("c33-unsorted", "C33", (UTIL, "sorted(pairs, key=lambda x: x[1])", "pairs"))
bug("c33-drop-kw", "C33", (UTIL, CALL, CALL.replace("*args, **kw", "*args")))
bug("c33-after", "C33", (UTIL, CALL, "        d = func(*args, **kw).addBoth(done)\n        t0 = time.time()\n        return d\n"))
bug("c33-early", "C33", (UTIL, T, "            self.times[ID] = self.times.get(ID, 0) + t1 - t0\n"), (UTIL, CALL, "        t0 = time.time()\n        d = func(*args, **kw)\n        t1 = time.time()\n        return d.addBoth(done)\n"))
bug("c33-first-only", "C33", (UTIL, N, "            self.Ns[ID] = self.Ns.get(ID, 1)\n"))
bug("c33-count-start", "C33", (UTIL, N, ""), (UTIL, CALL, "        self.Ns[args[self.k]] = self.Ns.get(args[self.k], 0) + 1\n" + CALL))
bug("c33-skip-once", "C33", (UTIL, "            pairs.append([ID, avgTime])\n", "            if self.Ns[ID] > 1:\n                pairs.append([ID, avgTime])\n"))
bug("c33-class-state", "C33", (UTIL, "self.Ns[ID] = self.Ns.get(ID, 0) + 1", "self.Ns[ID] = self.Ns.get(ID, 0) + 2 - bool(self.Ns.get(ID))"))
bug("c33-yield-twice", "C33", (UTIL, "            pairs.append([ID, avgTime])\n", "            pairs.extend([[ID, avgTime]]*self.Ns[ID])\n"))

ok("c33-ok-sorted", (UTIL, IT, "        return iter(sorted(self.times, key=lambda ID: self.times[ID]/self.Ns[ID]))\n"))
ok("c33-ok-method", (UTIL, IT, "        pairs = sorted((self._average(ID), n, ID) for n, ID in enumerate(self.times))\n        for _, _, ID in pairs:\n            yield ID\n\n    def _average(self, ID):\n        return self.times[ID] / self.Ns[ID]\n"))
ok("c33-ok-lists", (UTIL, T + N, "            self.times.setdefault(ID, []).append(time.time() - t0)\n"), (UTIL, "self.times[ID] / self.Ns[ID]", "sum(self.times[ID]) / len(self.times[ID])"))
ok("c33-ok-mean", (UTIL, T + N, "            self.times.setdefault(ID, []).append(time.time() - t0)\n"), (UTIL, "self.times[ID] / self.Ns[ID]", "np.mean(self.times[ID])"), (UTIL, "import os, sys, re, time", "import os, sys, re, time\nimport numpy as np"))
ok("c33-ok-order", (UTIL, T + N, N + T))
ok("c33-ok-id", (UTIL, CALL, "        ID = args[self.k]\n" + CALL), (UTIL, "            ID = args[self.k]\n", ""))
ok("c33-ok-both", (UTIL, CALL, "        t0 = time.time()\n        d = func(*args, **kw)\n        d.addCallbacks(done, done)\n        return d\n"))
ok("c33-ok-in", (UTIL, T + N, "            if ID not in self.times:\n                self.times[ID], self.Ns[ID] = 0.0, 0\n            self.times[ID] += time.time() - t0\n            self.Ns[ID] += 1\n"))
ok("c33-ok-perf", (UTIL, T, T.replace("time.time()", "time.perf_counter()")), (UTIL, CALL, CALL.replace("time.time()", "time.perf_counter()")))
ok("c33-ok-inline", (UTIL, "    def __call__(self, func, *args, **kw):\n", "    @defer.inlineCallbacks\n    def __call__(self, func, *args, **kw):\n"),
   (UTIL, "        def done(result):\n            ID = args[self.k]\n" + T + N + "            return result\n        \n" + CALL,
   "        ID = args[self.k]\n        t0 = time.time()\n        try:\n            result = yield func(*args, **kw)\n        finally:\n            self.times[ID] = self.times.get(ID, 0) + time.time() - t0\n            self.Ns[ID] = self.Ns.get(ID, 0) + 1\n        defer.returnValue(result)\n"), (UTIL, "from twisted.python import failure", "from twisted.internet import defer\nfrom twisted.python import failure"))
