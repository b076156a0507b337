from common import Corpus

S = "ade/specs.py"
C = Corpus()
M, bug, ok = C.M, C.bug, C.ok

LINE = """            line = line.strip()
            if not line or line.startswith('#'):
                continue
"""
STACK = """        while True:
            key = keys.pop(0)
            if keys:
                dct = dct.setdefault(key, {})
            else:
                dct[key] = value
                break
"""
DONE = """        name, dct = self.__stacker.done()
        self.add(name, dct)
        del self.__stacker
"""
UNF = """        if dictName is not None:
            raise ValueError(sub("Definition of '{}' is unfinished", dictName))
"""
HYPH = """                if dictName is not None:
                    raise ValueError(sub(
                        "No hyphens after dict name '{}'", dictName))
"""
NOVAL = """            if not seq:
                raise ValueError(sub("No value for {}", nameParts))
"""
COLON = """                if len(nameParts) > 1:
                    raise ValueError(
                        "The name:key format is only for dicts inside a dict")
"""

bug("c26-unfinished", "C26", (S, UNF, ""))
bug("c26-unfinished-kept", "C26", (S, UNF, "        if dictDef:\n            s.dict_done()\n"))
bug("c26-unfinished-only-dict", "C26", (S, UNF, UNF.replace("dictName is not None", "dictDef")))
bug("c26-no-hyphens", "C26", (S, HYPH, ""))
bug("c26-no-value", "C26", (S, NOVAL, ""))
bug("c26-no-value-skip", "C26", (S, NOVAL, "            if not seq: continue\n"))
bug("c26-no-value-none", "C26", (S, NOVAL, "            if not seq: seq = [None]\n"))
bug("c26-colon", "C26", (S, COLON, ""))
bug("c26-empty-file", "C26", (S, "        k = -1\n", ""))
bug("c26-seq-falsy", "C26", (S, "            if len(seq) == 1:", "            if not seq[0]: continue\n            if len(seq) == 1:"))
bug("c26-seq-first", "C26", (S, "            if len(seq) == 1:", "            if len(seq) < 3:"))
bug("c26-comment-anywhere", "C26", (S, "line.startswith('#')", "'#' in line"))
bug("c26-comment-word", "C26", (S, "                if token.startswith('#'):", "                if token == '#':"))
bug("c26-comment-continue", "C26", (S, "                    # Trailing comment\n                    break", "                    # Trailing comment\n                    continue"))
bug("c26-no-strip", "C26", (S, "            line = line.strip()\n", "            line = line.rstrip()\n"))
bug("c26-dict-name-kept", "C26", (S, "                    s.dict_done()\n", "                    s.dict_done()\n                    if k > 100: dictName = None\n"), (S, "                    dictName = None\n                elif", "                elif"))
bug("c26-def-kept", "C26", (S, "                    s.dict_done()\n", "                    s.dict_done()\n                    continue\n"))
bug("c26-no-done", "C26", (S, "                    s.dict_done()\n", ""))
bug("c26-not-setdefault", "C26", (S, "dct = dct.setdefault(key, {})", "dct[key] = dct = {}"))
bug("c26-shared", "C26", (S, "        self.dct = {}\n", "        self.dct = self.dicts\n"), (S, "    def __init__(self, name):\n        self.name", "    dicts = {}\n    def __init__(self, name):\n        self.name"))
bug("c26-two-levels", "C26", (S, STACK, "        if len(keys) == 1: dct[keys[0]] = value\n        else: dct.setdefault(keys[0], {})[keys[1]] = value\n"))
bug("c26-last-key", "C26", (S, STACK, "        dct[keys[-1]] = value\n"))
bug("c26-setdefault-value", "C26", (S, STACK, STACK.replace("dct[key] = value", "if value: dct[key] = value")))
bug("c26-add-falsy", "C26", (S, "        setattr(self, name, value)", "        if value is not None: setattr(self, name, value)"))
bug("c26-add-known", "C26", (S, "        setattr(self, name, value)", "        if not hasattr(self, name): setattr(self, name, value)"))
bug("c26-ds", "C26", (S, DONE, DONE.replace("self.__stacker", "self.ds")), (S, "        self.__stacker = ", "        self.ds = "), (S, "        self.__stacker.add", "        self.ds.add"))
bug("c26-done-late", "C26", (S, DONE, DONE.replace("self.__stacker", "self.stacker")), (S, "        self.__stacker = ", "        self.stacker = "), (S, "        self.__stacker.add", "        self.stacker.add"))
bug("c26-int", "C26", (S, "                part = int(part)\n", "                part = float(part)\n"))
bug("c26-int-string", "C26", (S, "                part = int(part)\n", "                part = str(part)\n"))
bug("c26-int-value", "C26", (S, "            return float(value)", "            return int(value)"))
bug("c26-exponent", "C26", (S, "([e][\\+\\-]?[0-9]+)?$", "([e][0-9]+)?$"))
bug("c26-number-prefix", "C26", (S, "([e][\\+\\-]?[0-9]+)?$", "([e][\\+\\-]?[0-9]+)?"))
bug("c26-sign", "C26", (S, "[\\+\\-]?[0-9]+(\\.", "\\-?[0-9]+(\\."))
bug("c26-not-lower", "C26", (S, "        value = value.lower()\n", ""))
bug("c26-none-text", "C26", (S, "('none', None)", "('none', False)"))
bug("c26-comma", "C26", (S, "token.rstrip(',')", "token"))
bug("c26-equals", "C26", (S, "            if tokens and tokens[0] == \"=\":", "            if tokens and tokens[-1] == \"=\":"))
bug("c26-equals-all", "C26", (S, "                tokens.pop(0)\n            seq", "                tokens = tokens[1:2]\n            seq"))
bug("c26-not-found", "C26", (S, "        else: raise OSError(sub(\"File '{}' not found\", self.filePath))", "        else: msg(\"File '{}' not found\", self.filePath)"))
bug("c26-swallow", "C26", (S, "                N = self.read(fh, s)\n", "                try: N = self.read(fh, s)\n                except ValueError: N = 0\n"))
bug("c26-blank-ends", "C26", (S, LINE, "            line = line.strip()\n            if not line:\n                if dictDef: s.dict_done(); dictDef = False; dictName = None\n                continue\n            if line.startswith('#'):\n                continue\n"))
bug("c26-hyphen", "C26", (S, "line.startswith('--')", "line.startswith('---')"))
bug("c26-one-hyphen", "C26", (S, "line.startswith('--')", "line == '-------'"))
bug("c26-first-line", "C26", (S, "        for k, line in enumerate(fh):\n", "        next(fh, None)\n        for k, line in enumerate(fh):\n"))
bug("c26-skip-after-dict", "C26", (S, "                    s.dict_done()\n", "                    s.dict_done()\n                    next(fh, None)\n"))
bug("c26-last-line", "C26", (S, "        for k, line in enumerate(fh):\n", "        for k, line in enumerate(fh.readlines()[:-1]):\n"))
bug("c26-newline", "C26", (S, "            line = line.strip()\n", "            if not line.endswith('\\n'): break\n            line = line.strip()\n"))

ok("ok-specs-lines", (S, "        for k, line in enumerate(fh):\n", "        lines = fh.readlines()\n        for k, line in enumerate(lines):\n"))
ok("ok-specs-read", (S, "        for k, line in enumerate(fh):\n", "        for k, line in enumerate(fh.read().splitlines()):\n"))
ok("ok-specs-count", (S, "        k = -1\n        for k, line in enumerate(fh):\n", "        k = 0\n        for line in fh:\n            k += 1\n"), (S, "        return k+1\n", "        return k\n"))
ok("ok-specs-recursive", (S, STACK, "        key = keys[0]\n        if len(keys) > 1:\n            for key in keys[:-1]:\n                dct = dct.setdefault(key, {})\n        dct[keys[-1]] = value\n"))
ok("ok-specs-in", (S, STACK, STACK.replace("                dct = dct.setdefault(key, {})", "                if key not in dct:\n                    dct[key] = {}\n                dct = dct[key]")))
ok("ok-specs-comp", (S, """            seq = []
            for token in tokens:
                if token.startswith('#'):
                    # Trailing comment
                    break
                seq.append(self.parseValue(token.rstrip(',')))
""", """            ends = [k for k, x in enumerate(tokens) if x[0] == '#']
            if ends: del tokens[ends[0]:]
            seq = [self.parseValue(x.rstrip(',')) for x in tokens]
"""), (S, "        for k, line in enumerate(fh):\n", "        N = 0\n        for line in fh:\n            N += 1\n"), (S, "        k = -1\n", ""), (S, "        return k+1\n", "        return N\n"))
ok("ok-specs-takewhile", (S, """            seq = []
            for token in tokens:
                if token.startswith('#'):
                    # Trailing comment
                    break
                seq.append(self.parseValue(token.rstrip(',')))
""", """            seq = [
                self.parseValue(x.rstrip(',')) for x in itertools.takewhile(
                    lambda x: not x.startswith('#'), tokens)]
"""), (S, "import os.path, re\n", "import itertools, os.path, re\n"))
ok("ok-specs-dictmap", (S, """        for string, assignedValue in (
                ('none', None), ('true', True), ('false', False)):
            if value == string:
                return assignedValue
""", """        known = {'none': None, 'true': True, 'false': False}
        if value in known:
            return known[value]
"""))
ok("ok-specs-fullmatch", (S, "        match = self.reNum.match(value)\n        if match:\n", "        if re.fullmatch(r'[\\+\\-]?[0-9]+(\\.[0-9]+)?(e[\\+\\-]?[0-9]+)?', value):\n"))
ok("ok-specs-try", (S, "        match = self.reNum.match(value)\n        if match:\n            return float(value)\n", "        if value[:1].isdigit() or value[:1] in '+-':\n            try: return float(value)\n            except ValueError: pass\n"))
ok("ok-specs-name-split", (S, """        for part in first.split(':'):
            part = part.strip()
            if part.isdigit():
                # Dict and sub-dict keys can be integers
                part = int(part)
            parts.append(part)
        return parts
""", """        return [int(x) if x.isdigit() else x for x in (
            y.strip() for y in first.split(':'))]
"""))
ok("ok-specs-helper", (S, LINE, "            line = line.strip()\n            if self.ignored(line): continue\n"), (S, "    def read(self, fh, s):\n", "    def ignored(self, line):\n        return not line or line[0] == '#'\n\n    def read(self, fh, s):\n"))
ok("ok-specs-not-exists", (S, """        if os.path.exists(self.filePath):
            with open(self.filePath) as fh:
                N = self.read(fh, s)
                msg("Read {:d} lines from {}", N, self.filePath)
        else: raise OSError(sub("File '{}' not found", self.filePath))
""", """        if not os.path.exists(self.filePath):
            raise OSError(sub("File '{}' not found", self.filePath))
        fh = open(self.filePath)
        try: N = self.read(fh, s)
        finally: fh.close()
        msg("Read {:d} lines from {}", N, self.filePath)
"""))
ok("ok-specs-local-dict", (S, "                    s.dict_start(dictName)\n", "                    dct = DictStacker(dictName)\n"), (S, "                    s.dict_done()\n", "                    s.add(*dct.done())\n"), (S, "                s.dict_add(seq, *nameParts)\n", "                dct.add(seq, nameParts)\n"))
ok("ok-specs-enum-start", (S, "        k = -1\n        for k, line in enumerate(fh):\n", "        k = 0\n        for k, line in enumerate(fh, 1):\n"), (S, "        return k+1\n", "        return k\n"))
ok("ok-specs-partition", (S, "line.startswith('--')", "line[:2] == '--'"))
ok("ok-specs-done", (S, DONE, "        stacker = self.__stacker\n        del self.__stacker\n        self.add(*stacker.done())\n"))

bug("c26-get-falsy", "C26", (S, "        obj = getattr(self, first, {})\n", "        obj = getattr(self, first, None) or {}\n"))
bug("c26-get-level", "C26", (S, "        obj = getattr(self, first, {})\n        if names and", "        obj = getattr(self, first, {})\n        if len(names) == 1 and"))
