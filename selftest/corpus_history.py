"""Edits of the history."""

from common import *

C = Corpus()
M, bug, ok = C.M, C.bug, C.ok

MIN = "        return k, min(set(range(len(K)+1)) - set(K))\n"
FIRST = "        if len(K) and K[0] > 0:\n            return k, K[0]-1\n"
# -- rows and order -------------------------------------------------------------
bug("c30-len", "C30", (HIST, MIN, "        return k, len(K)\n"))
bug("c30-N", "C30", (HIST, MIN, "        return k, N\n"))
bug("c30-max", "C30", (HIST, MIN, "        return k, max(K)+1\n"))
bug("c30-first", "C30", (HIST, "            return k, K[0]-1\n", "            return k, K[0]+1\n"))
bug("c30-next", "C30", (HIST, "            if K[kk+2] != kr+1:\n", "            if K[kk+1] != kr+1:\n"))
bug("c30-prev", "C30", (HIST, "            if K[kk] != kr-1:\n", "            if K[kk+1] != kr-1:\n"))
bug("c30-prev2", "C30", (HIST, "            if K[kk] != kr-1:\n                return k, kr-1\n", "            if K[kk] != kr-1:\n                return k, kr-2\n"))
bug("c30-unsorted", "C30", (HIST, "        K.sort()\n", ""))
bug("c30-append", "C30", (HIST, "            self.K.insert(k, kr)\n", "            self.K.append(kr)\n"))
bug("c30-sorted-before", "C30", (HIST, "        k = np.searchsorted(self.X[K,0], SSE)\n", ""),
    (HIST, "        K.sort()\n", "        K.sort()\n        k = np.searchsorted(self.X[K,0], SSE)\n"))
bug("c30-col", "C30", (HIST, "np.searchsorted(self.X[K,0], SSE)", "np.searchsorted(self.X[K,1], SSE)"))
bug("c30-raw-X", "C30", (HIST, "np.searchsorted(self.X[K,0], SSE)", "np.searchsorted(self.X[:N,0], SSE)"))
bug("c30-full-late", "C30", (HIST, "elif N < self.N_max:", "elif N <= self.N_max:"))
bug("c30-full-early", "C30", (HIST, "elif N < self.N_max:", "elif N < self.N_max - 1:"))
bug("c30-no-purge", "C30", (HIST, "                    self.purge(kr)\n", ""))
bug("c30-reuse-row", "C30", (HIST, "                    self.purge(kr)\n                    k, kr = self.kkr(SSE, N)\n",
                             "                    k = self.K.index(kr)\n                    self.purge(kr)\n"))
bug("c30-k-before-purge", "C30", (HIST, "                    self.purge(kr)\n                    k, kr = self.kkr(SSE, N)\n",
                                  "                    k = np.searchsorted(self.X[self.K,0], SSE)\n                    self.purge(kr)\n"))
bug("c30-none-purge", "C30 C17", (HIST, """                    if kr is None:
                        # Everybody is in the current population
                        defer.returnValue(None)
""", """                    if kr is None:
                        kr = self.K[-1]
"""))
bug("c30-row-k", "C30", (HIST, "            self.X[kr,:] = SV\n", "            self.X[k,:] = SV\n"))
bug("c30-values-only", "C30", (HIST, "            self.X[kr,:] = SV\n", "            self.X[kr,1:] = SV[1:]\n"))
bug("c30-clear-K", "C30 C17", (HIST, "            del self.K[:]\n", "            self.K.clear\n"))
bug("c30-N-stale", "C30 C18", (HIST, "        if np.isfinite(SSE):\n            yield", "        N = len(self.K)\n        if np.isfinite(SSE):\n            yield"),
    (HIST, "                N = len(self.K)\n                if N == 0:", "                if N == 0:"))
bug("c30-getitem", "C30", (HIST, "        kr = self.K[k]\n", "        kr = k\n"))
bug("c30-purge-K", "C30 C17", (HIST, "        self.K.remove(kr)\n", "        self.K.pop(kr)\n"))
bug("c30-insert-after", "C30", (HIST, "            self.K.insert(k, kr)\n", "            self.K.insert(k+1, kr)\n"))
bug("c30-desc", "C30", (HIST, "np.searchsorted(self.X[K,0], SSE)", "len(K) - np.searchsorted(self.X[K,0], SSE)"))

ok("c30-ok-right", (HIST, "np.searchsorted(self.X[K,0], SSE)", "np.searchsorted(self.X[K,0], SSE, side='right')"))
ok("c30-ok-original", (HIST, """        K.sort()
        for kk, kr in enumerate(K[1:-1]):
            if kr == 0: continue
            if kr == N-1: break
            if K[kk] != kr-1:
                return k, kr-1
            if K[kk+2] != kr+1:
                return k, kr+1
        if len(K) and K[0] > 0:
            return k, K[0]-1
""" + MIN, """        used = set(self.K)
        for kr in range(self.N_max):
            if kr not in used:
                return k, kr
"""))
ok("c30-ok-bisect", (HIST, "        k = np.searchsorted(self.X[K,0], SSE)\n", """        k = 0
        while k < len(self.K) and self.X[self.K[k],0] < SSE:
            k += 1
"""))
ok("c30-ok-view", (HIST, "            self.X[kr,:] = SV\n", "            row = self.X[kr]\n            row[:] = SV\n"))
ok("c30-ok-two", (HIST, "            self.X[kr,:] = SV\n", "            self.X[kr,0] = SSE\n            self.X[kr,1:] = i.values\n"))
ok("c30-ok-slice", (HIST, "            self.K.insert(k, kr)\n", "            self.K[k:k] = [kr]\n"))
ok("c30-ok-sortK", (HIST, "            self.K.insert(k, kr)\n", "            self.K.append(kr)\n            self.K.sort(key=lambda x: self.X[x,0])\n"))
ok("c30-ok-first0", (HIST, "                if N == 0:\n                    # First addition\n                    k, kr = 0, 0\n                elif", "                if"))
ok("c30-ok-next", (HIST, MIN, "        return k, next(kr for kr in range(len(K)+1) if kr not in K)\n"))
ok("c30-ok-order", (HIST, "            self.K.insert(k, kr)\n            self.N_total += 1           # Add to the lifetime total count\n",
                    "            self.N_total += 1           # Add to the lifetime total count\n            self.K.insert(k, kr)\n"))
ok("c30-ok-full-first", (HIST, """                elif N < self.N_max:
                    # Roster not yet full, no need to search for somebody
                    # to bump first
                    k, kr = self.kkr(SSE, N)
                else:
""", """                else:
                  if N >= self.N_max:
"""), (HIST, """                    # Roster is full, we will need to bump somebody (those
                    # in the current population are protected and exempt)
                    # before adding
                    kr = yield self.cpf()
                    if kr is None:
                        # Everybody is in the current population
                        defer.returnValue(None)
                    self.purge(kr)
                    k, kr = self.kkr(SSE, N)
""", """                    kr = yield self.cpf()
                    if kr is None:
                        # Everybody is in the current population
                        defer.returnValue(None)
                    self.purge(kr)
                  k, kr = self.kkr(SSE, N)
"""))

# -- members' records -------------------------------------------------------------
bug("c17-no-withdraw", "C17", (POP, "            self.history.notInPop(iPrev)\n", "            pass\n"))
bug("c17-withdraw-new", "C17", (POP, "            self.history.notInPop(iPrev)\n", "            self.history.notInPop(i)\n"))
bug("c17-withdraw-late", "C17", (POP, "            self.history.notInPop(iPrev)\n        self.history.add(i)\n",
                                 "            self.history.add(i)\n            self.history.notInPop(iPrev)\n        else: self.history.add(i)\n"))
bug("c17-after", "C17", (POP, """            iPrev = self.iList[k]
            self.history.notInPop(iPrev)
        self.history.add(i)
        # Here is the only place iList should ever be set directly
        self.iList[k] = i
""", """            pass
        self.history.add(i)
        # Here is the only place iList should ever be set directly
        self.iList[k] = i
        self.history.notInPop(self.iList[k])
"""))
bug("c17-no-add", "C17", (POP, "        self.history.add(i)\n        # Here", "        # Here"))
bug("c17-no-add-setup", "C17", (POP, "            self.history.add(i)\n            del self.KS\n", "            del self.KS\n"))
bug("c17-add-never", "C17", (POP, "        self.history.add(i)\n        # Here", "        self.history.add(i, neverInPop=True)\n        # Here"))
bug("c17-better-only", "C17", (POP, "        if len(self.iList) > k:\n", "        if len(self.iList) > k and i < self.iList[k]:\n"))
bug("c17-blacklist-late", "C17", (IND, "        self.p.history.notInPop(self)\n        self.SSE = float('+inf')\n",
                                  "        self.SSE = float('+inf')\n        self.p.history.notInPop(self)\n"))
bug("c17-blacklist-none", "C17", (IND, "        self.p.history.notInPop(self)\n", ""))
bug("c17-key-late", "C17", (HIST, "        key = hash(x)\n        def gotLock():\n", "        def gotLock():\n            key = hash(x)\n"))
bug("c17-add-key-late", "C17", (HIST, "                kh = key\n                while kh in", "                kh = hash(i)\n                while kh in"))
bug("c17-add-sse-late", "C17 C30", (HIST, "            SV = np.array([SSE] + list(i.values))\n", "            SV = np.array([i.SSE] + list(i.values))\n"))
ok("c17-ok-no-clearRow", (HIST, "        self.cpf.clearRow(kr)\n        self.Kp.discard(kr)     #", "        self.Kp.discard(kr)     #"))
bug("c17-no-setRow", "C17", (HIST, "            self.cpf.setRow(kr, self.X[kr,:])\n        return", "            pass\n        return"))
bug("c17-Kp-kept", "C17", (HIST, "            self.Kp.discard(kr)\n            # This row is no longer", "            # This row is no longer"))
bug("c17-kr-kept", "C17", (HIST, "                kr = self.kr.pop(kh)\n", "                kr = self.kr[kh]\n"))
bug("c17-purge-kr", "C17", (HIST, "                self.purge(kr)\n            self.kr.clear()\n", "                self.purge(kr)\n"))
bug("c17-clear-kr", "C17", (HIST, "            self.kr.clear()\n            self.N_total = 0\n", "            self.N_total = 0\n"))
ok("c17-ok-clear-cpf", (HIST, "            self.cpf.clear()\n", ""))
bug("c17-clear-Kp", "C17", (HIST, "            self.Kp.clear()\n", ""))
bug("c17-member-setRow", "C17", (HIST, "                self.cpf.clearRow(kr)\n                # Add", "                self.cpf.setRow(kr, self.X[kr,:])\n                # Add"))
bug("c17-inf", "C17", (HIST, "        if np.isfinite(SSE):\n            yield", "        if not np.isnan(SSE):\n            yield"))
bug("c17-purge-all", "C17", (HIST, "            while self.Kp:\n                kr = self.Kp.pop()\n                self.purge(kr)\n",
                             "            for kr in list(self.K):\n                self.purge(kr)\n"))
bug("c17-purge-one", "C17", (HIST, "            while self.Kp:\n                kr = self.Kp.pop()", "            if self.Kp:\n                kr = self.Kp.pop()"))
bug("c17-cpf-second", "C17 C30", (HIST, "            kr = K1[np.argmin(D),0]\n", "            kr = np.argmin(D)\n"))
bug("c17-cpf-one", "C17 C30", (HIST, "            return defer.succeed(list(self.K)[0])\n", "            return defer.succeed(0)\n"))
bug("c17-cpf-clearRow", "C17 C30", (HIST, "            self.K.remove(k)\n            self.Kn.discard(k)\n", "            self.Kn.discard(k)\n"))
bug("c17-cpf-pairs", "C17 C30", (HIST, "K1, K2 = np.meshgrid(list(self.K), list(self.K), indexing='ij')", "N = len(self.K)\n        K1, K2 = np.meshgrid(range(N), range(N), indexing='ij')"))

ok("c17-ok-purge", (HIST, "            while self.Kp:\n                kr = self.Kp.pop()\n                self.purge(kr)\n",
                    "            for kr in list(self.Kp):\n                self.purge(kr)\n"))
ok("c17-ok-purge-order", (HIST, "        self.Kp.discard(kr)     # May already have been discarded with .pop\n        self.Kn.discard(kr)\n",
                          "        for K in (self.Kn, self.Kp):\n            if kr in K: K.remove(kr)\n"))
ok("c17-ok-pop", (HIST, "                if key not in self.kr: return\n                kh = key\n                while kh+1 in self.kr: kh += 1\n                kr = self.kr.pop(kh)\n",
                  "                kh = key\n                while kh+1 in self.kr: kh += 1\n                kr = self.kr.pop(kh, None)\n                if kr is None: return\n"))
bug("c17-twins-add", "C17", (HIST, "                while kh in self.kr: kh += 1\n", ""))
bug("c17-twins-leave", "C17", (HIST, "                while kh+1 in self.kr: kh += 1\n", ""))
ok("c17-ok-setitem", (POP, "            iPrev = self.iList[k]\n            self.history.notInPop(iPrev)\n",
                      "            self.history.notInPop(self.iList[k])\n"))
ok("c17-ok-clear", (HIST, "            del self.K[:]\n            self.Kp.clear()\n            self.Kn.clear()\n",
                    "            for K in (self.K, self.Kp, self.Kn):\n                K.clear()\n"))
ok("c17-ok-cpf", (HIST, "        if Nr == 1:\n            return defer.succeed(list(self.K)[0])\n",
                  "        if Nr == 1:\n            k, = self.K\n            return defer.succeed(k)\n"))
ok("c17-ok-finite", (HIST, "        if np.isfinite(SSE):\n            yield self", "        if not (np.isnan(SSE) or np.isinf(SSE)):\n            yield self"))
ok("c17-ok-return", (HIST, "        else: kr = None\n        defer.returnValue(kr)\n", "            defer.returnValue(kr)\n"))
ok("c17-ok-helper", (HIST, "                self.Kp.add(kr)\n", "                self._protect(kr)\n"),
   (HIST, "    def purge(self, kr):\n", "    def _protect(self, kr):\n        self.Kp.add(kr)\n\n    def purge(self, kr):\n"))

# -- the lock -------------------------------------------------------------------
TRY = "            yield self.dLock.acquire()\n            try:\n"
bug("c18-no-lock", "C18", (HIST, TRY, "            try:\n"), (HIST, "                self.dLock.release()\n        else", "                pass\n        else"))
bug("c18-no-finally", "C18", (HIST, "                writeRecord(k, kr)\n            finally:\n                self.dLock.release()\n",
                              "                writeRecord(k, kr)\n                self.dLock.release()\n            except IndexError:\n                self.dLock.release()\n                raise\n"))
bug("c18-except", "C18", (HIST, "            finally:\n                self.dLock.release()\n", "            except ValueError:\n                self.dLock.release()\n                raise\n            self.dLock.release()\n"))
bug("c18-early-release", "C18", (HIST, "                writeRecord(k, kr)\n            finally:\n                self.dLock.release()\n",
                                 "            finally:\n                self.dLock.release()\n            writeRecord(k, kr)\n"))
bug("c18-release-wait", "C18", (HIST, "                    kr = yield self.cpf()\n", "                    self.dLock.release()\n                    kr = yield self.cpf()\n                    yield self.dLock.acquire()\n")) 
bug("c18-look-first", "C18", (HIST, "            yield self.dLock.acquire()\n            try:\n                N = len(self.K)\n",
                              "            N = len(self.K)\n            yield self.dLock.acquire()\n            try:\n"))
bug("c18-kkr-first", "C18", (HIST, "            yield self.dLock.acquire()\n            try:\n", "            kk = self.kkr(SSE, len(self.K)) if self.K else None\n            yield self.dLock.acquire()\n            try:\n"),
    (HIST, "                    k, kr = self.kkr(SSE, N)\n                else:", "                    k, kr = kk or self.kkr(SSE, N)\n                else:"))
bug("c18-twice", "C18", (HIST, "                    self.purge(kr)\n                    k, kr", "                    self.purge(kr)\n                    self.dLock.release()\n                    k, kr"))
bug("c18-notInPop", "C18", (HIST, "            self.cpf.setRow(kr, self.X[kr,:])\n        return self.dLock.run(gotLock)",
                            "            self.cpf.setRow(kr, self.X[kr,:])\n        return defer.maybeDeferred(gotLock)"))
bug("c18-clear", "C18", (HIST, "            self.N_total = 0\n        return self.dLock.run(gotLock)", "            self.N_total = 0\n        return defer.maybeDeferred(gotLock)"))
bug("c18-purge-outside", "C18", (HIST, "        def gotLock():\n            while self.Kp:\n                kr = self.Kp.pop()\n                self.purge(kr)\n            self.kr.clear()\n        return",
                                 "        self.kr.clear()\n        def gotLock():\n            while self.Kp:\n                kr = self.Kp.pop()\n                self.purge(kr)\n        return"))
bug("c18-nested", "C18", (HIST, "                    self.purge(kr)\n                    k, kr", "                    yield self.dLock.run(self.purge, kr)\n                    k, kr"))
bug("c18-two-locks", "C18", (HIST, "        self.dLock = defer.DeferredLock()\n", "        self.dLock = defer.DeferredLock()\n        self.pLock = defer.DeferredLock()\n"),
    (HIST, "                self.purge(kr)\n            self.kr.clear()\n        return self.dLock.run(gotLock)", "                self.purge(kr)\n            self.kr.clear()\n        return self.pLock.run(gotLock)"))
bug("c18-shutdown", "C18", (HIST, "        return self.dLock.acquire().addCallback(lambda _: self.dLock.release())", "        return defer.succeed(None)"))
bug("c18-shutdown-hold", "C18", (HIST, "        return self.dLock.acquire().addCallback(lambda _: self.dLock.release())", "        return self.dLock.acquire()"))
bug("c18-none-return", "C18", (HIST, """                        # Everybody is in the current population
                        defer.returnValue(None)
                    self.purge(kr)
                    k, kr = self.kkr(SSE, N)
                writeRecord(k, kr)
            finally:
                self.dLock.release()
""", """                        # Everybody is in the current population
                        defer.returnValue(None)
                    self.purge(kr)
                    k, kr = self.kkr(SSE, N)
                writeRecord(k, kr)
            except Exception:
                self.dLock.release()
                raise
            else: self.dLock.release()
"""))
ok("c18-ok-run", (HIST, "        return self.dLock.acquire().addCallback(lambda _: self.dLock.release())", "        return self.dLock.run(lambda: None)"))
ok("c18-ok-acquire", (HIST, "            self.cpf.setRow(kr, self.X[kr,:])\n        return self.dLock.run(gotLock)",
                      "            self.cpf.setRow(kr, self.X[kr,:])\n        dLock = self.dLock\n        return dLock.run(gotLock)"))
ok("c18-ok-inner", (HIST, TRY, "            dLock = self.dLock\n            yield dLock.acquire()\n            try:\n"),
   (HIST, "                self.dLock.release()\n        else", "                dLock.release()\n        else"))
ok("c18-ok-cb", (HIST, "                self.purge(kr)\n            self.kr.clear()\n        return self.dLock.run(gotLock)",
                 "                self.purge(kr)\n            self.kr.clear()\n        def done(result):\n            self.dLock.release()\n            return result\n        d = self.dLock.acquire()\n        d.addCallback(lambda _: gotLock())\n        d.addBoth(done)\n        return d"))
