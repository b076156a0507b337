from common import Corpus, CONS

C = Corpus()
M, bug, ok = C.M, C.bug, C.ok

LIN = ("            if linearParams:\n                if not linearParams.issubset(params):\n                    return True\n"
       "                for name in linearParams:\n                    if name not in newParams:\n                        newParams[name] = params[name]\n")
LOG = ("            if logParams:\n                if not logParams.issubset(params):\n                    return True\n"
       "                for name in logParams:\n                    if name not in newParams:\n                        newParams[name] = np.power(10.0, params[name])\n")
END = ("            result = func(newParams)\n            if self.debug:\n                print(sub(\"BOGUS: {}, {}\", func.__name__, newParams))\n            return result\n")
ITER = ("        for func, linearParams, logParams in self.cList:\n            yield partial(wrapper, func, linearParams, logParams)\n")
TAIL = "        for func in self.fList:\n            yield func\n"

bug("c29-late", "C29", (CONS, ITER, "        for func, linearParams, logParams in self.cList:\n            yield lambda params: wrapper(func, linearParams, logParams, params)\n"))
bug("c29-late-part", "C29", (CONS, ITER, "        for func, linearParams, logParams in self.cList:\n            yield lambda params, func=func: wrapper(func, linearParams, logParams, params)\n"))
bug("c29-swap", "C29", (CONS, "partial(wrapper, func, linearParams, logParams)", "partial(wrapper, func, logParams, linearParams)"))
bug("c29-missing-false", "C29", (CONS, "                if not linearParams.issubset(params):\n                    return True", "                if not linearParams.issubset(params):\n                    return False"))
bug("c29-missing-any", "C29", (CONS, "if not logParams.issubset(params)", "if logParams.isdisjoint(params)"))
bug("c29-missing-none", "C29", (CONS, "                if not logParams.issubset(params):\n                    return True", "                if not logParams.issubset(params):\n                    return"))
bug("c29-no-log", "C29", (CONS, "np.power(10.0, params[name])", "params[name]"))
bug("c29-exp", "C29", (CONS, "np.power(10.0, params[name])", "np.exp(params[name])"))
bug("c29-exp2", "C29", (CONS, "np.power(10.0, params[name])", "np.power(params[name], 10.0)"))
bug("c29-all", "C29", (CONS, "            newParams = {}\n", "            newParams = params.copy()\n"))
bug("c29-inplace", "C29", (CONS, "            newParams = {}\n", "            newParams = params\n"), (CONS, "                    if name not in newParams:\n                        newParams[name] = np.power(10.0, params[name])", "                    newParams[name] = np.power(10.0, params[name])"))
bug("c29-shared", "C29", (CONS, "        def wrapper(func, linearParams, logParams, params):\n            newParams = {}\n", "        newParams = {}\n        def wrapper(func, linearParams, logParams, params):\n"))
bug("c29-debug-drop", "C29", (CONS, "            result = func(newParams)\n            if self.debug:", "            result = func(newParams)\n            if self.debug and not result:\n                return False\n            if self.debug:") if False else (CONS, "            return result\n", "            return result if not self.debug else True\n"))
bug("c29-not", "C29", (CONS, "            return result\n", "            return not result\n"))
bug("c29-drop", "C29", (CONS, "            return result\n", ""))
bug("c29-twice", "C29", (CONS, "            return result\n", "            return func(newParams)\n"))
bug("c29-append-front", "C29", (CONS, TAIL, ""))
bug("c29-append-wrapped", "C29", (CONS, TAIL, "        for func in self.fList:\n            yield partial(wrapper, func, None, None)\n"))
bug("c29-append-else", "C29", (CONS, TAIL, "        if not self.cList:\n            for func in self.fList:\n                yield func\n"))
bug("c29-append-clist", "C29", (CONS, "        self.fList = []\n\n", "        self.fList = []\n        del self.cList[2:]\n\n"))
bug("c29-union", "C29", (CONS, ITER, "        linear, log = set(), set()\n        for func, linearParams, logParams in self.cList:\n            linear |= linearParams or set()\n            log |= logParams or set()\n            yield partial(wrapper, func, linear, log)\n"))
bug("c29-only-log-skip", "C29", (CONS, "            if logParams:\n", "            elif logParams:\n"))
bug("c29-cache", "C29", (CONS, "            result = func(newParams)\n", "            key = func\n            if key not in cache:\n                cache[key] = func(newParams)\n            result = cache[key]\n"), (CONS, "        def wrapper(func, linearParams", "        cache = {}\n        def wrapper(func, linearParams"))
bug("c29-first", "C29", (CONS, "            func = getattr(self, methodName)\n            self.cList.append([func]+list(self.registry[methodName]))", "            func = getattr(self, methodName)\n            entry = [func]+list(self.registry[methodName])\n            if entry[1:] not in [x[1:] for x in self.cList]:\n                self.cList.append(entry)"))

ok("c29-ok-factory", (CONS, ITER, "        def make(func, linearParams, logParams):\n            def check(params):\n                return wrapper(func, linearParams, logParams, params)\n            return check\n        for func, linearParams, logParams in self.cList:\n            yield make(func, linearParams, logParams)\n"))
ok("c29-ok-defaults", (CONS, ITER, "        for f, lin, log in self.cList:\n            yield lambda params, f=f, lin=lin, log=log: wrapper(f, lin, log, params)\n"))
ok("c29-ok-pow", (CONS, "np.power(10.0, params[name])", "10**params[name]"))
ok("c29-ok-pow2", (CONS, "np.power(10.0, params[name])", "pow(10.0, params[name])"))
ok("c29-ok-pow3", (CONS, "np.power(10.0, params[name])", "np.float_power(10, params[name])"))
ok("c29-ok-list", (CONS, ITER + TAIL, "        checkers = [\n            partial(wrapper, func, linearParams, logParams)\n            for func, linearParams, logParams in self.cList]\n        return iter(checkers + list(self.fList))\n"))
ok("c29-ok-yieldfrom", (CONS, TAIL, "        yield from self.fList\n"))
ok("c29-ok-le", (CONS, "if not linearParams.issubset(params)", "if not linearParams <= set(params)"))
ok("c29-ok-all", (CONS, "if not linearParams.issubset(params)", "if not all(x in params for x in linearParams)"))
ok("c29-ok-diff", (CONS, "if not linearParams.issubset(params)", "if linearParams.difference(params)"))
ok("c29-ok-minus", (CONS, "if not linearParams.issubset(params)", "if linearParams - set(params.keys())"))
ok("c29-ok-comp", (CONS, LIN + LOG + END, "            linear, log = linearParams or (), logParams or ()\n            if any(x not in params for x in [*linear, *log]):\n                return True\n            newParams = {x: 10.0**params[x] for x in log}\n            newParams.update((x, params[x]) for x in linear)\n            return func(newParams)\n"))
ok("c29-ok-helper", (CONS, LOG, "            if logParams:\n                if not logParams.issubset(params):\n                    return True\n                self._addLog(newParams, logParams, params)\n"), (CONS, "    def append(self, func):\n", "    @staticmethod\n    def _addLog(new, names, params):\n        for name in names:\n            new.setdefault(name, np.power(10.0, params[name]))\n\n    def append(self, func):\n"))
ok("c29-ok-try", (CONS, LIN, "            if linearParams:\n                try:\n                    for name in linearParams:\n                        newParams[name] = params[name]\n                except KeyError:\n                    return True\n"))
ok("c29-ok-bool", (CONS, "            return result\n", "            return bool(result)\n"))
ok("c29-ok-dict", (CONS, "            self.cList.append([func]+list(self.registry[methodName]))", "            linear, log = self.registry[methodName]\n            self.cList.append((func, linear, log))"))
ok("c29-ok-items", (CONS, "        for methodName in self.registry:\n            func = getattr(self, methodName)\n            self.cList.append([func]+list(self.registry[methodName]))\n", "        self.cList = [\n            [getattr(self, x), *y] for x, y in self.registry.items()]\n"))
ok("c29-ok-branches", (CONS, "            return result\n", "            if not result:\n                return False\n            return True\n"))
bug("c29-branches", "C29", (CONS, "            return result\n", "            if not result:\n                return True\n            return True\n"))
