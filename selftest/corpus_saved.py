from common import Corpus

P = "ade/population.py"
H = "ade/history.py"
I = "ade/individual.py"
C = Corpus()
M, bug, ok = C.M, C.bug, C.ok

RUN = "        if self.running is False: self.running = True\n"
EACH = """        for i in self.iList:
            i.p = self
            self.dLocks.append(defer.DeferredLock())
"""
SET = """        self.clear()
        for name in state:
            setattr(self, name, state[name])
        if self.running"""
LOADED = """            p = pickle.load(fh)
        p.func = kw.get('func', None)
"""
REP = "        p.reporter = Reporter(p, kw.get('complaintCallback', None))\n"
ABORT = "        abort.callOnAbort(p.abort)\n"
S2B = """    if dtype: X = np.array(X, dtype=dtype)
    fh = BytesIO()
    np.save(fh, X)
    X = fh.getvalue()
    fh.close()
    return X
"""
B2A = """    fh = BytesIO(text)
    X = np.load(fh)
    fh.close()
    return X
"""
ISTATE = """        for name in {'values', '_SSE', 'dt'}:
            state[name] = getattr(self, name)
        return state
"""
PMSTATE = """            'mins', 'maxs', 'scales', 'mids', 'constraints',
"""
CPF = """            if kr in self.Kp: continue
            self.cpf.setRow(kr, self.X[kr,:], neverInPop=(kr in self.Kn))
"""

# -- bugs
bug("c19-no-running", "C19", (P, RUN, ""))
bug("c19-running-none", "C19", (P, RUN, "        self.running = False\n"))
bug("c19-no-owner", "C19", (P, EACH, EACH.replace("            i.p = self\n", "")))
bug("c19-no-locks", "C19", (P, EACH, EACH.replace(
    "            self.dLocks.append(defer.DeferredLock())\n", "")))
bug("c19-locks-by-np", "C19", (P, EACH, """        for i in self.iList:
            i.p = self
        for k in range(self.popsize*self.Nd):
            self.dLocks.append(defer.DeferredLock())
"""))
bug("c19-one-lock", "C19", (P, EACH, """        dLock = defer.DeferredLock()
        for i in self.iList:
            i.p = self
            self.dLocks.append(dLock)
"""))
bug("c19-locks-saved", "C19", (P, "'iList', 'kr', 'pm', 'history'", "'iList', 'dLocks', 'kr', "
    "'pm', 'history'"), (P, EACH, "        for i in self.iList:\n            i.p = self\n"))
bug("c19-clear-later", "C19", (P, SET, """        for name in state:
            setattr(self, name, state[name])
        self.clear()
        if self.running"""))
bug("c19-func-saved", "C19", (P, "            'debug', 'running',\n", "            'func', 'debug', "
    "'running',\n"))
bug("c19-reporter-saved", "C19", (P, "'iList', 'kr', 'pm', 'history'", "'iList', 'reporter', 'pm', "
    "'history'"), (P, REP, ""))
bug("c19-func-not-set", "C19", (P, "        p.func = kw.get('func', None)\n", ""))
bug("c19-func-other-key", "C19", (P, "p.func = kw.get('func', None)", "p.func = kw.get('f', None)"))
bug("c19-no-reporter", "C19", (P, REP, ""))
bug("c19-no-abort", "C19", (P, ABORT, ""))
bug("c19-load-compressed", "C19", (P, "with bz2.BZ2File(filePath, 'r') as fh:",
                                   "with open(filePath, 'rb') as fh:"))
bug("c19-no-expanduser", "C19", (P, """        filePath = os.path.expanduser(filePath)
        with bz2.BZ2File(filePath, 'w')""", """        with bz2.BZ2File(filePath, 'w')"""))
for name, text in (("debug", "            'debug', 'running',\n"),
                   ("Nd", "'Nd', 'Np', 'popsize', "), ("Np", "'Nd', 'Np', 'popsize', "),
                   ("popsize", "'Nd', 'Np', 'popsize', "),
                   ("targetFraction", "'targetFraction', 'statusQuoScore',"),
                   ("statusQuoScore", "'targetFraction', 'statusQuoScore',"),
                   ("iList", "'iList', 'kr', 'pm', 'history',"),
                   ("pm", "'iList', 'kr', 'pm', 'history',"),
                   ("history", "'iList', 'kr', 'pm', 'history',")):
    bug("c19-forgets-" + name, "C19", (P, text, text.replace("'%s'," % name, "")))
for name in ("sortedNameIndices", "mins", "maxs", "scales", "constraints"):
    bug("c19-forgets-pm-" + name, "C19", (P, "'names', 'sortedNameIndices',\n" if name.startswith(
        "sorted") else PMSTATE, ("'names', 'sortedNameIndices',\n" if name.startswith(
            "sorted") else PMSTATE).replace("'%s'," % name, "")))
bug("c19-state-none", "C19", (P, """            if hasattr(self, name):
                state[name] = getattr(self, name)
        return state

    def __setstate__(self, state):
        \"\"\"
        For unpickling.
        \"\"\"
        for name in state:
            setattr(self, name, state[name])

    def stringValue""", """            if getattr(self, name, None) is not None and name in vars(type(self)):
                state[name] = getattr(self, name)
        return state

    def __setstate__(self, state):
        \"\"\"
        For unpickling.
        \"\"\"
        for name in state:
            setattr(self, name, state[name])

    def stringValue"""))
bug("c19-own-only", "C19", (P, """            if hasattr(self, name):
                state[name] = getattr(self, name)
        return state

    def __setstate__(self, state):
        \"\"\"
        For unpickling.
        \"\"\"
        self.clear()""", """            if name not in ('targetFraction', 'running') and name in self.__dict__:
                state[name] = self.__dict__[name]
        return state

    def __setstate__(self, state):
        \"\"\"
        For unpickling.
        \"\"\"
        self.clear()"""))
ok("c19-ok-own-only", (P, """            if hasattr(self, name):
                state[name] = getattr(self, name)
        return state

    def __setstate__(self, state):
        \"\"\"
        For unpickling.
        \"\"\"
        self.clear()""", """            if name in self.__dict__:
                state[name] = self.__dict__[name]
        return state

    def __setstate__(self, state):
        \"\"\"
        For unpickling.
        \"\"\"
        self.clear()"""))
for name, key in (("K", "'K': seq2bytes(self.K, 'u2'),"), ("Kp",
                  "'Kp': seq2bytes(list(self.Kp), 'u2'),"),
                  ("Kn", "'Kn': seq2bytes(list(self.Kn), 'u2'),")):
    bug("c19-forgets-" + name, "C19", (H, "            %s\n" % key, ""))
    bug("c19-narrow-" + name, "C19", (H, key, key.replace("u2", "u1")))
bug("c19-sorted-K", "C19", (H, "seq2bytes(self.K, 'u2')", "seq2bytes(sorted(self.K), 'u2')"))
bug("c19-Kp-for-Kn", "C19", (H, "seq2bytes(list(self.Kn), 'u2')", "seq2bytes(list(self.Kp), 'u2')"))
bug("c19-K-array", "C19", (H, "self.K = list(bytes2array(state, 'K'))",
                           "self.K = bytes2array(state, 'K')"))
bug("c19-Kp-list", "C19", (H, "self.Kp = set(bytes2array(state, 'Kp'))",
                           "self.Kp = list(bytes2array(state, 'Kp'))"))
bug("c19-X-half", "C19", (H, "seq2bytes(self.X)", "seq2bytes(self.X, 'f2')"))
bug("c19-X-used", "C19", (H, "'X': seq2bytes(self.X)", "'X': seq2bytes(self.X[self.K])"))
bug("c19-X-first", "C19", (H, "'X': seq2bytes(self.X)", "'X': seq2bytes(self.X[:len(self.K)])"))
bug("c19-kr-cleared", "C19", (H, "self.kr = state['kr']", "self.kr = {}"))
bug("c19-kr-in-pop", "C19", (H, "'kr': self.kr,", "'kr': {h: k for h, k in self.kr.items() "
                             "if k in self.Kn},"))
bug("c19-total", "C19", (H, "        self.N_total = state['N_total']\n",
                         "        self.N_total = len(state['K'])\n"))
bug("c19-nmax", "C19", (H, "        self.N_max = state['N_max']\n", ""))
bug("c19-nmax-len", "C19", (H, "            'N_max': self.N_max,\n",
                            "            'N_max': max(1, len(self.K)),\n"))
bug("c19-init-first", "C19", (H, """        self.kr = state['kr']
        self._initialize()
""", """        self._initialize()
        self.kr = state['kr']
        self.K = list(self.K)
"""))
bug("c19-analysis-copy", "C19", (H, "self.a = Analysis(self.names, self.X, self.K, self.Kp, self.Kn)",
    "self.a = Analysis(self.names, self.X, list(self.K), set(self.Kp), set(self.Kn))"))
bug("c19-no-cpf", "C19", (H, "        for kr in self.K:\n" + CPF, ""))
bug("c19-cpf-all", "C19", (H, CPF, CPF.replace("            if kr in self.Kp: continue\n", "")))
bug("c19-cpf-only-never", "C19", (H, CPF, CPF.replace("if kr in self.Kp", "if kr not in self.Kn")))
bug("c19-cpf-only-pop", "C19", (H, CPF, CPF.replace("if kr in self.Kp", "if kr not in self.Kp")))
bug("c19-buffer-end", "C19", (H, B2A, B2A.replace(
    "    X = np.load(fh)\n", "    fh.seek(0, 2)\n    X = np.load(fh)\n")))
bug("c19-sse-only", "C19", (I, "{'values', '_SSE', 'dt'}", "{'values', 'dt'}"))
bug("c19-rounded", "C19", (I, ISTATE, """        state['values'] = np.array(self.values, dtype='f4')
        state['_SSE'] = self._SSE
        state['dt'] = self.dt
        return state
"""))
bug("c19-no-dt", "C19", (I, ISTATE, ISTATE.replace(", 'dt'}", "}")),
    (I, """        for name in state:
            setattr(self, name, state[name])
        
    def __repr__""", """        self.dt = None
        for name in state:
            setattr(self, name, state[name])
        
    def __repr__"""))
bug("c19-sse-zero", "C19", (I, """        for name in state:
            setattr(self, name, state[name])
        
    def __repr__""", """        self.values = state['values']
        self._SSE = state['_SSE'] or None
        self.dt = state['dt']
        if self._SSE is not None and not np.isfinite(float(self._SSE)): self._SSE = 0.0
        
    def __repr__"""))
bug("c19-sorted-members", "C19", (P, EACH, "        self.iList = sorted(self.iList, "
                                  "key=lambda i: float(i.SSE))\n" + EACH))
bug("c19-drops-worst", "C19", (P, EACH, "        self.iList = [i for i in self.iList if np.isfinite("
                               "float(i.SSE))]\n" + EACH))

# -- edits that change nothing
ok("c19-ok-tuple", (P, "            'iList', 'kr', 'pm', 'history',\n",
                    "            'history', 'pm', 'iList',\n"))
ok("c19-ok-loop-names", (I, "{'values', '_SSE', 'dt'}", "('dt', '_SSE', 'values')"))
ok("c19-ok-dict-comp", (I, """        state = {}
""" + ISTATE, """        return {name: getattr(self, name) for name in ('values', '_SSE', 'dt')}
"""))
ok("c19-ok-update", (I, """        for name in state:
            setattr(self, name, state[name])
        
    def __repr__""", """        self.__dict__.update(state)
        
    def __repr__"""))
ok("c19-ok-locks-comp", (P, EACH, """        self.dLocks = [defer.DeferredLock() for _ in self.iList]
        for i in self.iList:
            i.p = self
"""))
ok("c19-ok-locks-range", (P, EACH, """        for k in range(len(self.iList)):
            self.iList[k].p = self
            self.dLocks.append(defer.DeferredLock())
"""))
ok("c19-ok-helper", (P, EACH, "        self._adopt()\n\n    def _adopt(self):\n" + EACH))
ok("c19-ok-items", (P, SET, """        self.clear()
        for name, value in state.items():
            setattr(self, name, value)
        if self.running"""))
ok("c19-ok-running", (P, RUN, "        self.running = True if self.running is False else "
                      "self.running\n"))
ok("c19-ok-running-state", (P, SET + " is False: self.running = True\n", """        self.clear()
        for name in state:
            value = state[name]
            if name == 'running' and value is False: value = True
            setattr(self, name, value)
"""))
ok("c19-ok-bz2-open", (P, "with bz2.BZ2File(filePath, 'r') as fh:",
                       "with bz2.open(filePath, 'rb') as fh:"))
ok("c19-ok-gzip", (P, "with bz2.BZ2File(filePath, 'r') as fh:", "with gzip.open(filePath, 'rb') as fh:"),
   (P, "with bz2.BZ2File(filePath, 'w') as fh:", "with gzip.open(filePath, 'wb') as fh:"),
   (P, "import random, pickle, os.path, bz2", "import random, pickle, os.path, bz2, gzip"))
ok("c19-ok-dumps", (P, "            pickle.dump(self, fh)", "            fh.write(pickle.dumps(self))"),
   (P, "            p = pickle.load(fh)\n", "            p = pickle.loads(fh.read())\n"))
ok("c19-ok-compress", (P, """        with bz2.BZ2File(filePath, 'w') as fh:
            pickle.dump(self, fh)""", """        text = bz2.compress(pickle.dumps(self))
        with open(filePath, 'wb') as fh:
            fh.write(text)"""))
ok("c19-ok-decompress", (P, """        with bz2.BZ2File(filePath, 'r') as fh:
            p = pickle.load(fh)
""", """        with open(filePath, 'rb') as fh:
            text = fh.read()
        p = pickle.loads(bz2.decompress(text))
"""))
ok("c19-ok-try", (P, """        with bz2.BZ2File(filePath, 'w') as fh:
            pickle.dump(self, fh)""", """        fh = bz2.BZ2File(filePath, 'w')
        try:
            pickle.dump(self, fh)
        finally:
            fh.close()"""))
ok("c19-ok-via-temporary", (P, """        with bz2.BZ2File(filePath, 'w') as fh:
            pickle.dump(self, fh)""", """        tmp = filePath + ".tmp"
        with bz2.BZ2File(tmp, 'w') as fh:
            pickle.dump(self, fh, protocol=pickle.HIGHEST_PROTOCOL)
        os.replace(tmp, filePath)"""))
ok("c19-ok-load-order", (P, REP + ABORT, ABORT + REP))
ok("c19-ok-kw", (P, "    def load(cls, filePath, **kw):", "    def load(cls, filePath, func=None, "
                 "bounds=None, complaintCallback=None):"),
   (P, "        p.func = kw.get('func', None)\n        bounds = kw.get('bounds', None)\n",
    "        p.func = func\n"),
   (P, REP, "        p.reporter = Reporter(p, complaintCallback)\n"))
ok("c19-ok-s2b-with", (H, S2B, """    if dtype: X = np.array(X, dtype=dtype)
    with BytesIO() as fh:
        np.save(fh, X)
        return fh.getvalue()
"""))
ok("c19-ok-s2b-asarray", (H, "    if dtype: X = np.array(X, dtype=dtype)\n",
                          "    X = np.asarray(X, dtype=dtype) if dtype else X\n"))
ok("c19-ok-b2a", (H, B2A, "    with BytesIO(text) as fh:\n        return np.load(fh)\n"))
ok("c19-ok-no-bytes", (H, "'K': seq2bytes(self.K, 'u2')", "'K': list(self.K)"),
   (H, "self.K = list(bytes2array(state, 'K'))", "self.K = list(state['K'])"))
ok("c19-ok-X-f4", (H, "seq2bytes(self.X)", "seq2bytes(self.X, 'f4')"))
ok("c19-ok-X-array", (H, "'X': seq2bytes(self.X)", "'X': self.X"),
   (H, "self.X = bytes2array(state, 'X')", "self.X = state['X']"))
ok("c19-ok-u4", (H, "seq2bytes(self.K, 'u2')", "seq2bytes(self.K, 'u4')"))
ok("c19-ok-sorted-sets", (H, "seq2bytes(list(self.Kp), 'u2')", "seq2bytes(sorted(self.Kp), 'u2')"))
ok("c19-ok-intersected", (H, "self.Kn = set(bytes2array(state, 'Kn'))",
                          "self.Kn = set(self.K) & set(bytes2array(state, 'Kn'))"))
ok("c19-ok-ints", (H, "self.K = list(bytes2array(state, 'K'))",
                   "self.K = [int(k) for k in bytes2array(state, 'K')]"))
ok("c19-ok-init", (H, CPF, """            if kr not in self.Kp:
                self.cpf.setRow(kr, self.X[kr], kr in self.Kn)
"""))
ok("c19-ok-setdiff", (H, "        for kr in self.K:\n" + CPF,
                      """        for kr in set(self.K) - self.Kp:
            self.cpf.setRow(kr, self.X[kr,:], neverInPop=(kr in self.Kn))
"""))
ok("c19-ok-names-list", (H, "'names': self.names,", "'names': list(self.names),"))
ok("c19-ok-kr-copy", (H, "'kr': self.kr,", "'kr': dict(self.kr),"))
ok("c19-ok-pm-vars", (P, """            if hasattr(self, name):
                state[name] = getattr(self, name)
        return state

    def __setstate__(self, state):
        \"\"\"
        For unpickling.
        \"\"\"
        for name in state:
            setattr(self, name, state[name])

    def stringValue""", """            if name in self.__dict__:
                state[name] = self.__dict__[name]
        return state

    def __setstate__(self, state):
        \"\"\"
        For unpickling.
        \"\"\"
        vars(self).update(state)

    def stringValue"""))
ok("c19-ok-pm-recomputed", (P, PMSTATE, "            'mins', 'maxs', 'constraints',\n"),
   (P, """        for name in state:
            setattr(self, name, state[name])

    def stringValue""", """        for name in state:
            setattr(self, name, state[name])
        self.setup(list(zip(self.mins, self.maxs)))

    def stringValue"""))
ok("c19-ok-pm-default", (P, """    def __getstate__(self):
        \"\"\"
        For pickling.
        \"\"\"
        state = {}
        names = {
            'names', 'sortedNameIndices',
            'mins', 'maxs', 'scales', 'mids', 'constraints',
        }
        for name in names:
            if hasattr(self, name):
                state[name] = getattr(self, name)
        return state

    def __setstate__(self, state):
        \"\"\"
        For unpickling.
        \"\"\"
        for name in state:
            setattr(self, name, state[name])

""", ""))
