"""Edits of how results are compared."""

from common import *

C = Corpus()
M, bug, ok = C.M, C.bug, C.ok

FLOAT = """        SSE = float(self.SSE)
        return SSE if SSE >= 0 else float('+inf')
"""
GET = """        if self._SSE is None or self._SSE < 0:
            return float('+inf')
        return self._SSE #float(self._SSE)
"""
BOOL = """        if self._SSE is None: return True
        SSE = float(self._SSE)
        if np.isnan(SSE): return True
        return SSE >= 0
"""
LT = "        return float(self) < float(other)\n"
GT = "        return float(self) > float(other)\n"

bug("c15-float-nan", "C15", (IND, FLOAT, "        return float(self.SSE)\n"))
bug("c15-sse-neg", "C15", (IND, GET, """        if self._SSE is None: return float('+inf')
        return self._SSE
"""))
bug("c15-sse-abs", "C15", (IND, GET, """        if self._SSE is None: return float('+inf')
        return abs(self._SSE)
"""))
bug("c15-sse-falsy", "C15", (IND, GET, """        if not self._SSE or self._SSE < 0:
            return float('+inf')
        return self._SSE
"""))
bug("c15-bool-nan", "C15", (IND, "        if np.isnan(SSE): return True\n", ""))
bug("c15-bool-zero", "C15", (IND, "        return SSE >= 0\n", "        return SSE > 0\n"))
bug("c15-bool-none", "C15", (IND, "        if self._SSE is None: return True\n",
                             "        if self._SSE is None: return False\n"))
bug("c15-bool-minus-one", "C15", (IND, "        return SSE >= 0\n", "        return SSE != -1\n"))
bug("c15-lt-raw", "C15", (IND, LT, "        return self.SSE < other.SSE\n"))
bug("c15-lt-le", "C15", (IND, LT, "        return float(self) <= float(other)\n"))
bug("c15-lt-not-gt", "C15", (IND, LT, "        return not self > other\n"))
bug("c15-gt-lt", "C15", (IND, GT, "        return not self < other\n"))
bug("c15-lt-round", "C15", (IND, LT, "        return round(float(self), 6) < round(float(other), 6)\n"))
bug("c15-lt-tolerance", "C15", (IND, LT, "        return float(self) < 0.999*float(other)\n"))
ok("c15-lt-sse-nan", (IND, LT, "        return self.SSE < float(other)\n"))
bug("c15-lt-notge", "C15", (IND, LT, "        return not self.SSE >= float(other)\n"))
bug("c15-clip", "C15", (IND, FLOAT, """        SSE = float(self.SSE)
        return SSE if 0 <= SSE < 1E9 else float('+inf')
"""))
ok("c15-helper", (IND, LT, "        return self._key() < float(other)\n"),
   (IND, "    def __lt__(self, other):", "    def _key(self):\n        return float(self)\n\n    def __lt__(self, other):"))
ok("c15-isnan", (IND, FLOAT, """        x = float(self.SSE)
        if np.isnan(x) or x < 0: return np.inf
        return x
"""))
ok("c15-no-gt", (IND, GT, "        return other < self if hasattr(other, 'SSE') else float(self) > other\n"))
ok("c15-bool-short", (IND, BOOL, "        return self._SSE is None or not float(self._SSE) < 0\n"))
ok("c15-bool-any", (IND, BOOL, """        if self._SSE is not None and self._SSE < 0:
            return False
        return True
"""))
ok("c15-get-try", (IND, GET, """        x = self._SSE
        if x is not None and not x < 0:
            return x
        return float('inf')
"""))
ok("c15-lt-not-ge", (IND, LT, "        return not float(self) >= float(other)\n"))
ok("c15-diff", (IND, GT, "        return float(other) < float(self)\n"))

bug("c32-nan", "C32", (REP, """            if isNan: return True
""", ""))
bug("c32-inf", "C32", (REP, "            return isInf\n", "            return False\n"))
bug("c32-none-first", "C32", (REP, """            if bogus(iDenom):
                ratio = 0
                sym = "%"
            else:
""", """            if False: pass
            else:
"""))
bug("c32-order", "C32", (REP, "elif iNum < iDenom:", "elif iDenom < iNum:"))
bug("c32-zero", "C32", (REP, "if not iDenom.SSE:", "if iDenom.SSE is None:"))
bug("c32-zero-num", "C32", (REP, "        if betterSSE is None or worseSSE == 0 or worseSSE is None:",
                            "        if betterSSE is None or worseSSE is None:"))
bug("c32-inverse", "C32", (REP, "np.round(\n                    float(iNum.SSE) / float(iDenom.SSE))",
                           "np.round(float(iDenom.SSE) / float(iNum.SSE))"))
bug("c32-floor", "C32", (REP, "np.round(\n                    float(iNum.SSE) / float(iDenom.SSE))",
                         "np.floor(float(iNum.SSE) / float(iDenom.SSE))"))
bug("c32-fatal", "C32", (REP, "if not iNum or not iDenom:", "if not iNum:"))
bug("c32-cap", "C32", (REP, "np.round(\n                    float(iNum.SSE) / float(iDenom.SSE))",
                       "min(9, np.round(float(iNum.SSE)/float(iDenom.SSE)))"))
bug("c32-rir-swap", "C32", (REP, "rir = self.msgRatio(iOther, i, noProgress=noProgress)",
                            "rir = self.msgRatio(i, iOther, noProgress=noProgress)"))
bug("c32-rir-none", "C32", (REP, "        return rir\n", "        return rir or None\n"))
bug("c32-equiv", "C32", (REP, "return abs(ratio - 1.0) < self.minDiff", "return ratio - 1.0 < self.minDiff"))
bug("c32-equiv-abs", "C32", (REP, "ratio = float(betterSSE) / float(worseSSE)\n        return abs(ratio - 1.0)",
                             "return abs(float(betterSSE) - float(worseSSE))"))
ok("c32-denom", (REP, """            if not iDenom.SSE:
                ratio = 1000
            else:
                ratio = np.round(
                    float(iNum.SSE) / float(iDenom.SSE))
""", """            SN, SD = float(iNum.SSE), float(iDenom.SSE)
            ratio = np.round(SN / SD) if SD else 1000
"""))
ok("c32-bogus", (REP, "        if not iNum or not iDenom:", "        if not (iNum and iDenom):"))
ok("c32-bogus-helper", (REP, "            return isInf\n", "            return bool(isInf)\n"))
ok("c32-isfinite", (REP, """            if isNan: return True
            try:
                isInf = np.isinf(SSE)
            except: isInf = False
            return isInf
""", """            return isNan or SSE == float('inf')
"""))
