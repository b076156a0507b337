from common import Corpus, UTIL

C = Corpus()
M, bug, ok = C.M, C.bug, C.ok

WL = ("        try:\n            if self.newlineNeeded:\n                self.fh.write(\"\\n\")\n                self.newlineNeeded = False\n"
      "            self.fh.write(line + \"\\n\")\n            self.fh.flush()\n        except: self._fhSet(None)\n")
WC = ("        try:\n            self.fh.write(x)\n            self.fh.flush()\n            self.newlineNeeded = True\n        except: self._fhSet(None)\n")
CL = ("            if self.fh and self.fh is not sys.stdout:\n                try:\n                    self.fh.close()\n                except: pass\n")
SAME = "            if fh is self.fh:\n                return fh\n"

bug("c24-line-io", "C24", (UTIL, WL, WL.replace("except:", "except IOError:")))
bug("c24-char-io", "C24", (UTIL, WC, WC.replace("except:", "except (OSError, ValueError):")))
bug("c24-line-pass", "C24", (UTIL, WL, WL.replace("self._fhSet(None)", "pass")))
bug("c24-char-pass", "C24", (UTIL, WC, WC.replace("self._fhSet(None)", "pass")))
bug("c24-flush-out", "C24", (UTIL, WL, WL.replace("            self.fh.flush()\n        except: self._fhSet(None)\n", "        except: self._fhSet(None)\n        else: self.fh.flush()\n")))
bug("c24-flush-finally", "C24", (UTIL, WC, WC.replace("            self.fh.flush()\n", "").replace("except: self._fhSet(None)\n", "except: self._fhSet(None)\n        if self.fh: self.fh.flush()\n")))
bug("c24-newline-out", "C24", (UTIL, WL, "        if self.newlineNeeded:\n            self.fh.write(\"\\n\")\n            self.newlineNeeded = False\n        try:\n            self.fh.write(line + \"\\n\")\n            self.fh.flush()\n        except: self._fhSet(None)\n"))
bug("c24-close-unguarded", "C24", (UTIL, CL, "            if self.fh and self.fh is not sys.stdout:\n                self.fh.close()\n"))
bug("c24-close-os", "C24", (UTIL, CL, CL.replace("except:", "except OSError:")))
bug("c24-close-stdout", "C24", (UTIL, CL, CL.replace("if self.fh and self.fh is not sys.stdout", "if self.fh")))
bug("c24-close-never", "C24", (UTIL, CL, ""))
bug("c24-close-same", "C24", (UTIL, SAME, ""))
bug("c24-close-cond", "C24", (UTIL, CL, CL.replace("is not sys.stdout:", "is not sys.stdout and fh:")))
bug("c24-close-new-stdout", "C24", (UTIL, CL, CL.replace("self.fh is not sys.stdout:", "fh is not sys.stdout:")))
bug("c24-close-fail-return", "C24", (UTIL, CL, CL.replace("except: pass", "except: return fhPrev")))
bug("c24-prev", "C24", (UTIL, "            return fhPrev \n", "            return self.fh\n"))
bug("c24-prev-lost", "C24", (UTIL, "                fh = self._fhSet(args.pop(0))\n", "                self._fhSet(args.pop(0))\n                fh = self.fh\n"))
bug("c24-none-stdout", "C24", (UTIL, "        if not self.fh:\n            return\n        self._lineWasWritten = True\n", "        if not self.fh:\n            sys.stdout.write(line + \"\\n\")\n            return\n        self._lineWasWritten = True\n"))
bug("c24-false-stdout", "C24", (UTIL, "return fhSet(sys.stdout if arg else None)", "return fhSet(sys.stdout)"))
bug("c24-off-stdout", "C24", (UTIL, WL, WL.replace("self._fhSet(None)", "self._fhSet(True)")))
bug("c24-off-flag", "C24", (UTIL, WL, WL.replace("self._fhSet(None)", "self.newlineNeeded = False")))
bug("c24-retry", "C24", (UTIL, WC, WC.replace("except: self._fhSet(None)\n", "except:\n            self._fhSet(None)\n            sys.stdout.write(x)\n")))
bug("c24-bool", "C24", (UTIL, "        return self.fh is not None\n", "        return self._lineWasWritten or self.fh is not None\n"))
bug("c24-none-kept", "C24", (UTIL, "        return fhSet(None)\n", "        return self.fh\n"))

ok("c24-ok-exception", (UTIL, WL, WL.replace("except:", "except Exception:")), (UTIL, WC, WC.replace("except:", "except Exception:")))
ok("c24-ok-helper", (UTIL, WL, "        text = \"\\n\" if self.newlineNeeded else \"\"\n        if self._put(text + line + \"\\n\"):\n            self.newlineNeeded = False\n"), (UTIL, WC, "        if self._put(x):\n            self.newlineNeeded = True\n\n    def _put(self, text):\n        try:\n            self.fh.write(text)\n            self.fh.flush()\n        except:\n            self._fhSet(None)\n            return False\n        return True\n"))
ok("c24-ok-print", (UTIL, WC, WC.replace("self.fh.write(x)\n            self.fh.flush()", "fh = self.fh\n            fh.write(x)\n            fh.flush()")))
ok("c24-ok-order", (UTIL, "            fhPrev = self.fh\n" + CL + "            self.fh = fh\n", "            fhPrev, self.fh = self.fh, fh\n            if fhPrev and fhPrev is not sys.stdout:\n                try:\n                    fhPrev.close()\n                except: pass\n"))
ok("c24-ok-finally", (UTIL, "            fhPrev = self.fh\n" + CL + "            self.fh = fh\n", "            fhPrev = self.fh\n            try:\n                if self.fh not in (None, sys.stdout):\n                    self.fh.close()\n            except Exception:\n                pass\n            finally:\n                self.fh = fh\n"))
ok("c24-ok-is-none", (UTIL, "        if not self.fh:\n            return\n        try:\n", "        if self.fh is None:\n            return\n        try:\n"))
ok("c24-ok-call", (UTIL, "            if hasattr(args[0], 'write') or args[0] in (None, True, False):\n", "            first = args[0]\n            if first is None or hasattr(first, 'write') or first in (True, False):\n"))
ok("c24-ok-off", (UTIL, WL, WL.replace("self._fhSet(None)", "self.fh = None")))
ok("c24-ok-suppress", (UTIL, CL, "            if self.fh and self.fh is not sys.stdout:\n                with contextlib.suppress(Exception):\n                    self.fh.close()\n"), (UTIL, "import os, sys, re, time", "import contextlib\nimport os, sys, re, time"))
ok("c24-ok-getattr", (UTIL, "        if hasattr(arg, 'write'):\n", "        if getattr(arg, 'write', None) is not None:\n"))
