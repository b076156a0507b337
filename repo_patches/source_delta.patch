From ad3e909f9e37f62a38546fa0dedb0e09c5b94f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:23:06 +0000
Subject: [PATCH 01/26] fix: compare the best individual, not the method, with
 goalSSE

A run with goalSSE set raised TypeError after its first generation.
---
 ade/de.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ade/de.py b/ade/de.py
index ed8b67e..748fec5 100644
--- a/ade/de.py
+++ b/ade/de.py
@@ -608,7 +608,7 @@ class DifferentialEvolution(object):
                 if result is None:
                     self.shutdown()
             if not self.running: break
-            if self.goalSSE and self.p.best < self.goalSSE:
+            if self.goalSSE and self.p.best() < self.goalSSE:
                 msg(-1,
                     "Goal SSE of {:.5g} has been met, stopped.", self.goalSSE)
                 break
-- 
2.43.0


From 8b709987846a41a5c25df778c3bb246c66281148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:23:13 +0000
Subject: [PATCH 02/26] fix: restore the previous best individual after a
 complaint

The backup was taken after the new best had been registered, so the
individual complained about was "restored" in its own place. Also use the
previous best of the individual being reported on, not of the one that
started the run of callbacks.
---
 ade/report.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ade/report.py b/ade/report.py
index b9c0e34..b821bef 100644
--- a/ade/report.py
+++ b/ade/report.py
@@ -156,6 +156,7 @@ class Reporter(object):
             iPrev = None
             while not aborted() and self.cbrScheduled:
                 i = self.cbrScheduled.pop()
+                iPrevBest = self.cbrPrevBest
                 if iPrev and i == iPrev:
                     continue
                 iPrev = i
@@ -187,6 +188,7 @@ class Reporter(object):
             self.cbrInProgress = False
 
         self.cbrScheduled(i)
+        self.cbrPrevBest = iPrevBest
         if self.cbrInProgress:
             return
         self.dt.put(runUntilFree())
@@ -241,6 +243,7 @@ class Reporter(object):
             # is considered equivalent.
             return not self.isEquivSSE(i, self.iLastReported)
         
+        iPrevBest = self.iBest
         if self.iBest is None or i < self.iBest:
             # Register new best, regardless of whether it gets reported
             self.iBest = i
@@ -250,8 +253,7 @@ class Reporter(object):
             if self.p.debug:
                 msg(0, "{}\n\t--->\n{}\n", self.iBest, i)
             self.iLastReported = i
-            iBackupBest = self.iBest
-            self.runCallbacks(i, iBackupBest)
+            self.runCallbacks(i, iPrevBest)
         
     def msgRatio(self, iNum, iDenom, bogus_char="!", noProgress=False):
         """
-- 
2.43.0


From cb1f350e3985e828e809bbcab0f580253be92e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:23:13 +0000
Subject: [PATCH 03/26] fix: survive a failing complaint callback

The failure left the reporter marked as running callbacks for good, so no
callback was ever run again.
---
 ade/report.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ade/report.py b/ade/report.py
index b821bef..7448e96 100644
--- a/ade/report.py
+++ b/ade/report.py
@@ -172,7 +172,8 @@ class Reporter(object):
                     if result is not None and i and not aborted():
                         if self.complaintCallback:
                             yield defer.maybeDeferred(
-                                self.complaintCallback, i, result)
+                                self.complaintCallback, i, result).addErrback(
+                                    failed, self.complaintCallback)
                         else:
                             text = sub(
                                 "\n\n" +\
-- 
2.43.0


From e990eef2737f2802d6c93534312a79190e88f925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:23:13 +0000
Subject: [PATCH 04/26] fix: fire with None if there is no expendable row

As documented. Instead an empty argmin failed.
---
 ade/history.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ade/history.py b/ade/history.py
index e5255e3..2241f01 100644
--- a/ade/history.py
+++ b/ade/history.py
@@ -792,6 +792,8 @@ class ClosestPairFinder(object):
         """
         # The number of active rows
         Nr = len(self.K)
+        if Nr == 0:
+            return defer.succeed(None)
         if Nr == 1:
             return defer.succeed(list(self.K)[0])
         if Np is None: Np = self.Np_max
-- 
2.43.0


From 6dada005579315759307c35b72d87604be268390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:23:13 +0000
Subject: [PATCH 05/26] fix: always pick an unallocated row for a new history
 record

With rows 0 and 2 allocated, row 2 was picked again. With a full roster
the row could be beyond the end of the array.
---
 ade/history.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ade/history.py b/ade/history.py
index 2241f01..7b0fc0a 100644
--- a/ade/history.py
+++ b/ade/history.py
@@ -986,7 +986,7 @@ class History(object):
         inspected with each iteration. (It may be just as fast with a
         local sorted list instead of a Numpy array.)
         """
-        K = np.array(self.K)
+        K = np.array(self.K, dtype=int)
         # Find the index in K of the row index for the closest
         # recorded SSE above i.SSE
         k = np.searchsorted(self.X[K,0], SSE)
@@ -1000,9 +1000,9 @@ class History(object):
                 return k, kr-1
             if K[kk+2] != kr+1:
                 return k, kr+1
-        if K[0] > 0:
+        if len(K) and K[0] > 0:
             return k, K[0]-1
-        return k, min([N, K[-1]+1])
+        return k, min(set(range(len(K)+1)) - set(K))
 
     @defer.inlineCallbacks
     def add(self, i, neverInPop=False):
-- 
2.43.0


From 171535bb9b47443de057e5ebf824e54bd6b60436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:24:02 +0000
Subject: [PATCH 06/26] fix: release the history lock however an addition ends

A failure while adding a record left the history locked, and the run
waiting for it. A full roster without any expendable record is now left
as it is instead of being written beyond its end.
---
 ade/history.py | 39 ++++++++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/ade/history.py b/ade/history.py
index 7b0fc0a..b402de9 100644
--- a/ade/history.py
+++ b/ade/history.py
@@ -1050,23 +1050,28 @@ class History(object):
         SSE = i.SSE
         if np.isfinite(SSE):
             yield self.dLock.acquire()
-            N = len(self.K)
-            if N == 0:
-                # First addition
-                k, kr = 0, 0
-            elif N < self.N_max:
-                # Roster not yet full, no need to search for somebody
-                # to bump first
-                k, kr = self.kkr(SSE, N)
-            else:
-                # Roster is full, we will need to bump somebody (those
-                # in the current population are protected and exempt)
-                # before adding
-                kr = yield self.cpf()
-                if kr is not None: self.purge(kr)
-                k, kr = self.kkr(SSE, N)
-            writeRecord(k, kr)
-            self.dLock.release()
+            try:
+                N = len(self.K)
+                if N == 0:
+                    # First addition
+                    k, kr = 0, 0
+                elif N < self.N_max:
+                    # Roster not yet full, no need to search for somebody
+                    # to bump first
+                    k, kr = self.kkr(SSE, N)
+                else:
+                    # Roster is full, we will need to bump somebody (those
+                    # in the current population are protected and exempt)
+                    # before adding
+                    kr = yield self.cpf()
+                    if kr is None:
+                        # Everybody is in the current population
+                        defer.returnValue(None)
+                    self.purge(kr)
+                    k, kr = self.kkr(SSE, N)
+                writeRecord(k, kr)
+            finally:
+                self.dLock.release()
         else: kr = None
         defer.returnValue(kr)
 
-- 
2.43.0


From 2fbdaca4df202f98d4a7e827fa4cc6cf303ce02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:24:02 +0000
Subject: [PATCH 07/26] fix: record an individual as it was when the history
 was told of it

While an addition waits for its turn, a report callback may complain about
the individual. Its SSE is then set to infinity, which was written to the
roster, under a hash by which it wasn't found again.
---
 ade/history.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ade/history.py b/ade/history.py
index b402de9..5b83237 100644
--- a/ade/history.py
+++ b/ade/history.py
@@ -1028,7 +1028,7 @@ class History(object):
             array, and inserts the row index I{kr} into my I{K} list
             at position I{k}.
             """
-            SV = np.array([i.SSE] + list(i.values))
+            SV = np.array([SSE] + list(i.values))
             self.X[kr,:] = SV
             self.K.insert(k, kr)
             self.N_total += 1           # Add to the lifetime total count
@@ -1045,9 +1045,10 @@ class History(object):
                 self.cpf.clearRow(kr)
                 # Add to the individual-row map so it can be removed
                 # from the population later
-                self.kr[hash(i)] = kr
+                self.kr[key] = kr
 
         SSE = i.SSE
+        key = hash(i)
         if np.isfinite(SSE):
             yield self.dLock.acquire()
             try:
@@ -1100,6 +1101,7 @@ class History(object):
         that was added via L{add} to remove its row of my I{X} array
         from being considered part of the current population.
         """
+        key = hash(x)
         def gotLock():
             if isinstance(x, (int, np.int64)):
                 # This was tricky to find; sometimes shows up as int,
@@ -1108,7 +1110,6 @@ class History(object):
                 kr = x
             else:
                 # Must be an Individual
-                key = hash(x)
                 if key not in self.kr: return
                 kr = self.kr.pop(key)
             self.Kp.discard(kr)
-- 
2.43.0


From 21162bd109803608648cef7ea6b962dd62c824f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:24:02 +0000
Subject: [PATCH 08/26] fix: stop protecting the history record of a demoted
 individual

The record was not found anymore when the individual got replaced, because
the individual's hash had changed with its SSE. So it stayed protected as
that of a population member.
---
 ade/individual.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ade/individual.py b/ade/individual.py
index 7ffe76d..8e3dcea 100644
--- a/ade/individual.py
+++ b/ade/individual.py
@@ -246,6 +246,8 @@ class Individual(object):
         Sets my SSE to the worst possible value and forces my population
         to update its sorting to account for my degraded status.
         """
+        # My hash, by which history knows me, changes with my SSE
+        self.p.history.notInPop(self)
         self.SSE = float('+inf')
         del self.p.KS
     
-- 
2.43.0


From 9bdb17751390d7beeef5c4a40cf91707c0f8e55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:24:02 +0000
Subject: [PATCH 09/26] fix: make the hash of an individual the same in every
 process

History keeps the hashes of the current population's individuals when
saved, but they were useless after loading. Also, equal individuals now
always have equal hashes, and a large SSE does not overflow.
---
 ade/individual.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ade/individual.py b/ade/individual.py
index 8e3dcea..3532f69 100644
--- a/ade/individual.py
+++ b/ade/individual.py
@@ -31,7 +31,7 @@ L{Population} set up a population full of them, and have
 L{DifferentialEvolution} create challengers as it does its thing.
 """
 
-import random, pickle, time, struct
+import random, pickle, time, hashlib
 
 import numpy as np
 from twisted.internet import defer, task
@@ -187,8 +187,10 @@ class Individual(object):
         return SSE >= 0
 
     def __hash__(self):
-        return hash(
-            struct.pack('<f', self.SSE) + np.array(self.values).tobytes())
+        # Not the built-in hash of bytes, which is different in each
+        # process. Adding zero makes any negative zero positive.
+        SV = np.array([float(self.SSE)] + list(self.values), dtype=float) + 0.0
+        return int(hashlib.md5(SV.tobytes()).hexdigest()[:15], 16)
     
     def __eq__(self, other):
         """
-- 
2.43.0


From 86d34240e96deb82848681e1667a388220a439a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:24:02 +0000
Subject: [PATCH 10/26] fix: treat an SSE of NaN as worst possible

An individual with an SSE of NaN was admitted to the population and could
never be replaced there, because nothing is less than NaN.
---
 ade/individual.py | 3 ++-
 ade/population.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/ade/individual.py b/ade/individual.py
index 3532f69..6543e1b 100644
--- a/ade/individual.py
+++ b/ade/individual.py
@@ -148,7 +148,8 @@ class Individual(object):
         I can be evaluated as a float using my SSE. A negative SSE
         translates to C{inf} because it indicates a fatal error.
         """
-        return float('+inf' if self.SSE < 0 else self.SSE)
+        SSE = float(self.SSE)
+        return SSE if SSE >= 0 else float('+inf')
     
     def __getitem__(self, k):
         """
diff --git a/ade/population.py b/ade/population.py
index 75a3a24..c6abdce 100644
--- a/ade/population.py
+++ b/ade/population.py
@@ -809,7 +809,7 @@ class Population(object):
                 self.abort()
                 return
             self.reporter(i)
-            isFinite = not np.isinf(float(i.SSE))
+            isFinite = np.isfinite(float(i.SSE))
             if isFinite and needMore(): addIndividual(i)
 
         @defer.inlineCallbacks
-- 
2.43.0


From 0aefbd2ac8f881d41e0d7a5498d46dcc1d796782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:24:02 +0000
Subject: [PATCH 11/26] fix: don't admit the individual whose parameters failed
 constraints

When no conforming parameters could be found, the last ones tried were
used all the same.
---
 ade/population.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ade/population.py b/ade/population.py
index c6abdce..50d7046 100644
--- a/ade/population.py
+++ b/ade/population.py
@@ -817,6 +817,7 @@ class Population(object):
             k = 0
             while running() and needMore():
                 i = getIndividual()
+                if not running(): break
                 if blank:
                     i.SSE = np.inf
                     addIndividual(i)
-- 
2.43.0


From 6d84679bd8b7807d17afdcfeb2a97e67f447372b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:24:02 +0000
Subject: [PATCH 12/26] fix: invalidate sorting when an individual is added

The best individual asked for during setup was not the best one.
---
 ade/population.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ade/population.py b/ade/population.py
index 50d7046..5188104 100644
--- a/ade/population.py
+++ b/ade/population.py
@@ -799,6 +799,7 @@ class Population(object):
             self.iList.append(i)
             self.dLocks.append(defer.DeferredLock())
             self.history.add(i)
+            del self.KS
 
         def needMore():
             return len(self.iList) < self.Np
-- 
2.43.0


From e5f0a20ad32ff8ad6e0281028106e42a6e088b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:24:02 +0000
Subject: [PATCH 13/26] fix: abort a loaded population, too, when the user
 aborts

---
 ade/population.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ade/population.py b/ade/population.py
index 5188104..2c52b11 100644
--- a/ade/population.py
+++ b/ade/population.py
@@ -471,6 +471,7 @@ class Population(object):
             for i in p:
                 p.limit(i)
         p.reporter = Reporter(p, kw.get('complaintCallback', None))
+        abort.callOnAbort(p.abort)
         return p
         
     def __getstate__(self):
-- 
2.43.0


From 4db8e78ad9e6bbc1ae3ea7c1e50b0d781193d5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:24:02 +0000
Subject: [PATCH 14/26] fix: count only actual improvements toward the
 replacement score

A challenger with the same SSE as its target, or without a usable one, lost
its challenge but added to the score.
---
 ade/population.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ade/population.py b/ade/population.py
index 2c52b11..e75afd6 100644
--- a/ade/population.py
+++ b/ade/population.py
@@ -1027,7 +1027,7 @@ class Population(object):
             noProgress = True
             force = True
         ratio = self.reporter(iNew, iOld, noProgress, force)
-        if ratio is not None: self.replacement(ratio)
+        if ratio is not None and iNew < iOld: self.replacement(ratio)
         return ratio
 
     def waitForReports(self):
-- 
2.43.0


From 33035ca59032768ad8ea664cf0dad487c0b71c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:24:02 +0000
Subject: [PATCH 15/26] fix: never take an individual with a fatal error for
 the best

---
 ade/report.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ade/report.py b/ade/report.py
index 7448e96..95398cd 100644
--- a/ade/report.py
+++ b/ade/report.py
@@ -460,7 +460,7 @@ class Reporter(object):
         # is other, because ratio is other SSE vs this SSE
         rir = self.msgRatio(iOther, i, noProgress=noProgress)
         # If better than best (or first), make new best
-        if self.iBest is None or i < self.iBest:
+        if i and (self.iBest is None or i < self.iBest):
             self.newBest(i, force)
             progressChar("+")
             # Bonus rir
-- 
2.43.0


From 75171783d730ba8147e1bbe2db319a1f7a8e2ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:24:02 +0000
Subject: [PATCH 16/26] fix: stop the run when the population got aborted

After a report callback failed, the run went on with an aborted population,
replacing its members with the results of evaluating None.
---
 ade/de.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ade/de.py b/ade/de.py
index 748fec5..c6c1b29 100644
--- a/ade/de.py
+++ b/ade/de.py
@@ -539,7 +539,8 @@ class DifferentialEvolution(object):
                     if self.xSSE:
                         yield iChallenger.evaluate(iTarget.SSE)
                     else: yield iChallenger.evaluate()
-                    if iChallenger and self.running:
+                    if iChallenger and self.running \
+                       and self.p.running is not False:
                         if iChallenger < iTarget:
                             # The challenger won the tournament, replace
                             # the target
@@ -584,7 +585,7 @@ class DifferentialEvolution(object):
             info = sub("  F={}  N_hist={:d}", self.fm, self.p.history.N_total)
             msg(-1, "Generation {:d}/{:d}{}", kg+1, self.maxiter, info , '-')
             yield self.p.waitForReports()
-            if not self.running: break
+            if not self.running or self.p.running is False: break
             dList = []
             iBest = self.p.best()
             for kt in range(self.p.Np):
-- 
2.43.0


From f0057fe7f1ed76c207ad040be41b48a56bc086fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:24:02 +0000
Subject: [PATCH 17/26] fix: release the locks of a challenge that raised an
 exception

---
 ade/de.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ade/de.py b/ade/de.py
index c6c1b29..7ca32fb 100644
--- a/ade/de.py
+++ b/ade/de.py
@@ -608,6 +608,7 @@ class DifferentialEvolution(object):
                 self.dChallenges = None
                 if result is None:
                     self.shutdown()
+                    self.p.release()
             if not self.running: break
             if self.goalSSE and self.p.best() < self.goalSSE:
                 msg(-1,
-- 
2.43.0


From fac597d7873365f83ab0f9f70b75e1a46c7925f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:24:02 +0000
Subject: [PATCH 18/26] fix: note that a line was written

---
 ade/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ade/util.py b/ade/util.py
index 97c8586..7544d4d 100644
--- a/ade/util.py
+++ b/ade/util.py
@@ -231,7 +231,7 @@ class Messenger(object):
         """
         if not self.fh:
             return
-        self._lineWritten = True
+        self._lineWasWritten = True
         try:
             if self.newlineNeeded:
                 self.fh.write("\n")
-- 
2.43.0


From a0d6c35795dd0da06806fe91349f8d39f68bc098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:24:02 +0000
Subject: [PATCH 19/26] fix: accumulate elapsed time in EvalTimer, not the time
 of day

---
 ade/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ade/util.py b/ade/util.py
index 7544d4d..745fb9b 100644
--- a/ade/util.py
+++ b/ade/util.py
@@ -163,7 +163,7 @@ class EvalTimer(Picklable):
         """
         def done(result):
             ID = args[self.k]
-            self.times[ID] = self.times.get(ID, 0) + time.time()
+            self.times[ID] = self.times.get(ID, 0) + time.time() - t0
             self.Ns[ID] = self.Ns.get(ID, 0) + 1
             return result
         
-- 
2.43.0


From 87fbbef7dac7ddedb012819ec5cfe46dbc2109fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:24:02 +0000
Subject: [PATCH 20/26] fix: don't let closing a failed log handle disturb the
 caller

---
 ade/util.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ade/util.py b/ade/util.py
index 745fb9b..9587e03 100644
--- a/ade/util.py
+++ b/ade/util.py
@@ -265,7 +265,9 @@ class Messenger(object):
                 return fh
             fhPrev = self.fh
             if self.fh and self.fh is not sys.stdout:
-                self.fh.close()
+                try:
+                    self.fh.close()
+                except: pass
             self.fh = fh
             return fhPrev 
         
-- 
2.43.0


From 83859e0ea1c32f62c31f2368e528896d71ff22b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:24:02 +0000
Subject: [PATCH 21/26] fix: have each constraint wrapper check its own
 function and values

All wrappers shared the last function and parameter names, and the values
of the first call.
---
 ade/constraints.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ade/constraints.py b/ade/constraints.py
index 10e3203..ade284e 100644
--- a/ade/constraints.py
+++ b/ade/constraints.py
@@ -28,6 +28,8 @@ parameter constraints. If you have any highly correlated parameters,
 an instance of L{RelationsChecker} may be helpful, too.
 """
 
+from functools import partial
+
 import numpy as np
 from ade.util import *
 
@@ -134,7 +136,8 @@ class Constraints(object):
         iteration and appending. But you can't get or set individual
         items by index.
         """
-        def wrapper(params):
+        def wrapper(func, linearParams, logParams, params):
+            newParams = {}
             if linearParams:
                 if not linearParams.issubset(params):
                     return True
@@ -152,9 +155,8 @@ class Constraints(object):
                 print(sub("BOGUS: {}, {}", func.__name__, newParams))
             return result
         
-        newParams = {}
         for func, linearParams, logParams in self.cList:
-            yield wrapper
+            yield partial(wrapper, func, linearParams, logParams)
         for func in self.fList:
             yield func
 
-- 
2.43.0


From b818de4b4d5d784eb63bd368aff8f4c59c6e43b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:24:02 +0000
Subject: [PATCH 22/26] fix: reject incomplete specifications instead of
 dropping them

A dict without its final line of hyphens, or a dict name without any
hyphens, was silently dropped. Reading an empty file failed.
---
 ade/specs.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ade/specs.py b/ade/specs.py
index 3e56f5d..97813f5 100644
--- a/ade/specs.py
+++ b/ade/specs.py
@@ -217,6 +217,7 @@ class SpecsLoader(object):
         """
         dictDef = False
         dictName = None
+        k = -1
         for k, line in enumerate(fh):
             line = line.strip()
             if not line or line.startswith('#'):
@@ -241,6 +242,9 @@ class SpecsLoader(object):
             tokens = line.split()
             nameParts = self.parseName(tokens)
             if not dictDef:
+                if dictName is not None:
+                    raise ValueError(sub(
+                        "No hyphens after dict name '{}'", dictName))
                 if len(nameParts) > 1:
                     raise ValueError(
                         "The name:key format is only for dicts inside a dict")
@@ -248,7 +252,7 @@ class SpecsLoader(object):
                     # A standalone name is the start of a dict definition
                     dictName = nameParts[0]
                     continue
-            if tokens[0] == "=":
+            if tokens and tokens[0] == "=":
                 # An equals sign is semantic fluff
                 tokens.pop(0)
             seq = []
@@ -257,6 +261,8 @@ class SpecsLoader(object):
                     # Trailing comment
                     break
                 seq.append(self.parseValue(token.rstrip(',')))
+            if not seq:
+                raise ValueError(sub("No value for {}", nameParts))
             if len(seq) == 1:
                 # A single value token is its own attribute, not part
                 # of a sequence
@@ -269,6 +275,8 @@ class SpecsLoader(object):
             # values). We know at this point that there is but a
             # single item in nameParts
             s.add(nameParts[0], seq)
+        if dictName is not None:
+            raise ValueError(sub("Definition of '{}' is unfinished", dictName))
         return k+1
         
     def __call__(self):
-- 
2.43.0


From 8fe351e780d92ba5a3c6f08a6b9aef7f0f7ae9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:46:58 +0000
Subject: [PATCH 23/26] fix: keep track of the history records of equal
 individuals separately

---
 ade/history.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/ade/history.py b/ade/history.py
index 5b83237..6bb438e 100644
--- a/ade/history.py
+++ b/ade/history.py
@@ -1044,8 +1044,11 @@ class History(object):
                 # have cpf initially disregard it
                 self.cpf.clearRow(kr)
                 # Add to the individual-row map so it can be removed
-                # from the population later
-                self.kr[key] = kr
+                # from the population later, next to those of any
+                # equal individuals
+                kh = key
+                while kh in self.kr: kh += 1
+                self.kr[kh] = kr
 
         SSE = i.SSE
         key = hash(i)
@@ -1111,7 +1114,9 @@ class History(object):
             else:
                 # Must be an Individual
                 if key not in self.kr: return
-                kr = self.kr.pop(key)
+                kh = key
+                while kh+1 in self.kr: kh += 1
+                kr = self.kr.pop(kh)
             self.Kp.discard(kr)
             # This row is no longer a population member and is thus
             # expendable, so have cpf start considering it
-- 
2.43.0


From 11eb8f7028bfe52c141305165eed763d9507dc53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:05:50 +0000
Subject: [PATCH 24/26] fix: include the best record in values versus SSE if
 its SSE is zero

---
 ade/history.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ade/history.py b/ade/history.py
index 6bb438e..ef7322a 100644
--- a/ade/history.py
+++ b/ade/history.py
@@ -232,7 +232,7 @@ class Analysis(object):
         elif kw.get('neverInPop', False):
             K = [k for k in self.K if k in self.Kn]
         else: K = self.K
-        KK = np.flatnonzero(self.X[K,0]/SSE_best <= maxRatio)
+        KK = np.flatnonzero(self.X[K,0] <= maxRatio*SSE_best)
         K = np.array(K)[KK]
         result = [subset(0)]
         for name in names:
-- 
2.43.0


From e25ac997aa942103c9e71b60770cca9c2e08ecdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:05:50 +0000
Subject: [PATCH 25/26] fix: values versus SSE of a history without records

---
 ade/history.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ade/history.py b/ade/history.py
index ef7322a..3ef77ea 100644
--- a/ade/history.py
+++ b/ade/history.py
@@ -224,7 +224,7 @@ class Analysis(object):
         
         names = self.args2names(names)
         maxRatio = kw.get('maxRatio', 1000)
-        SSE_best = self.X[self.K[0],0]
+        SSE_best = self.X[self.K[:1],0]
         if kw.get('inPop', False):
             K = [k for k in self.K if k in self.Kp]
         elif kw.get('notInPop', False):
-- 
2.43.0


From 7ab2e36660f3ec61b023ff53a22b6130f6bf5298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:06:33 +0000
Subject: [PATCH 26/26] fix: keep a specification named 'ds'

The dict under definition was an attribute of the specification named
'ds'. A value with that name was dropped when a dict followed, and a dict
with that name was always dropped.
---
 ade/specs.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ade/specs.py b/ade/specs.py
index 97813f5..a971400 100644
--- a/ade/specs.py
+++ b/ade/specs.py
@@ -103,23 +103,23 @@ class Specs(object):
         Called by L{SpecsLoader.read} when the first hyphens-line of a
         pair is encountered.
         """
-        self.ds = DictStacker(name)
+        self.__stacker = DictStacker(name)
 
     def dict_add(self, value, *keys):
         """
         Adds the supplied I{value} as an entry (or sub-entry) of a started
         dict with at least one key, more if it is a sub-entry.
         """
-        self.ds.add(value, list(keys))
+        self.__stacker.add(value, list(keys))
 
     def dict_done(self):
         """
         Called by L{SpecsLoader.read} when the second and last
         hyphens-line of a pair is encountered.
         """
-        name, dct = self.ds.done()
+        name, dct = self.__stacker.done()
         self.add(name, dct)
-        del self.ds
+        del self.__stacker
 
     def add(self, name, value):
         """
-- 
2.43.0

