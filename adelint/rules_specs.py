"""C26: the reading of specification files."""

import ast
import itertools
import re

from .absint import Cls, Const, DictO, Ext, ListO, NONE, Tup, TRUE, untag
from .core import check
from .model import config
from .rules_history import failure, where
from .user_model import user_class

C26 = {
    "content": "every line of a well-formed file contributes its name and value, where it belongs",
    "nothing-else": "nothing else is loaded",
    "rejected": "a file in which something is missing is rejected",
    "empty": "a file without definitions loads as an empty specification",
    "values": "a value is loaded as the number, truth value, None, text or sequence it stands for",
    "own-names": "a definition is not lost because of its name",
    "get": "a value is found by its name, in a dict by the names that lead to it, and nothing by "
           "others",
    "file": "the file asked for is read, and a file that does not exist is an error",
}
HANDLE = '''
class Handle(object):
    def __init__(self, lines):
        self.lines = lines
        self.k = 0
    def __iter__(self):
        while self.k < len(self.lines):
            self.k += 1
            yield self.lines[self.k - 1]
    def __next__(self):
        if self.k >= len(self.lines): raise StopIteration
        self.k += 1
        return self.lines[self.k - 1]
    def readline(self):
        if self.k >= len(self.lines): return ""
        self.k += 1
        return self.lines[self.k - 1]
    def readlines(self): return list(self)
    def read(self): return "".join(list(self))
    def close(self): pass
    def __enter__(self): return self
    def __exit__(self, *args): return False
'''
PATTERN = '''
import re

class Pattern(object):
    def __init__(self, text, flags=0):
        self.text = text
        self.flags = flags
    def match(self, x): return re.match(self.text, x, self.flags)
    def fullmatch(self, x): return re.fullmatch(self.text, x, self.flags)
    def search(self, x): return re.search(self.text, x, self.flags)
'''
PATH = "/some/file.specs"
# Kinds of lines; {k} is the number of the line
KINDS = {
    "blank": "",
    "comment": "# n{k} 9",
    "delimiter": "-------",
    "name": "n{k}",
    "value": "n{k}  1{k}",
    "equals": "n{k} = 1{k}",
    "sequence": "n{k}  1{k}  2{k}   # see 3",
    "key": "n{k}:b{k}   1{k}",
    "no value": "n{k} =",
}
VALUES = {
    "1": 1.0, "0": 0.0, "-3": -3.0, "+2.5": 2.5, "1e6": 1e6, "2.5e-3": 2.5e-3, "5E6": 5e6,
    "none": None, "None": None, "true": True, "True": True, "false": False, "False": False,
    "text": "text", "t0": "t0", "3rd": "3rd", "1.2.3": "1.2.3", "-": "-", "x=1": "x=1",
    "1 2": [1.0, 2.0], "1, 2": [1.0, 2.0], "1 text none": [1.0, "text", None],
    "0 0": [0.0, 0.0], "1 # 2": 1.0, "1 #2 3": 1.0, "false true": [False, True],
    "1 2 3 4": [1.0, 2.0, 3.0, 4.0], "= 4": 4.0, "= 4 5": [4.0, 5.0], "none none": [None, None],
}
LONGER = {
    "two dicts": (["a", "--", "x 1", "y 2 3", "--", "b", "--", "x 4", "--"],
                  {"a": {"x": 1.0, "y": [2.0, 3.0]}, "b": {"x": 4.0}}),
    "dicts and values": (["p 1", "a", "--", "x 1", "--", "q 2", "b", "", "--", "# x", "y 4", "",
                          "--", "r 3"],
                         {"p": 1.0, "a": {"x": 1.0}, "q": 2.0, "b": {"y": 4.0}, "r": 3.0}),
    "sub-dicts": (["p", "-----", "351:R 990", "351:t 2e-4", "", "361:R 82000", "361:t 3", "k 7",
                   "351:V 62.7", "-----"],
                  {"p": {351: {"R": 990.0, "t": 2e-4, "V": 62.7}, 361: {"R": 82000.0, "t": 3.0},
                         "k": 7.0}}),
    "sub-sub-dicts": (["p", "--", "a:b:c 1", "a:b:d 2", "a:e 3", "f 4", "--"],
                      {"p": {"a": {"b": {"c": 1.0, "d": 2.0}, "e": 3.0}, "f": 4.0}}),
    "integer keys": (["p", "--", "1 2", "2 3", "10:20 4", "--"],
                     {"p": {1: 2.0, 2: 3.0, 10: {20: 4.0}}}),
    "quoted names": (["'p'", "--", "'x' 1", "--", "'q' 2"], {"p": {"x": 1.0}, "q": 2.0}),
    "indented": (["  p", "  ----", "    x 1  ", "\ty\t2", "  ----", " q 2"],
                 {"p": {"x": 1.0, "y": 2.0}, "q": 2.0}),
    "values that are false": (["a 0", "b none", "c false", "d", "--", "x 0", "y none", "z false",
                               "u:v 0", "--"],
                              {"a": 0.0, "b": None, "c": False,
                               "d": {"x": 0.0, "y": None, "z": False, "u": {"v": 0.0}}}),
    "the same keys in two dicts": (["a", "--", "x:y 1", "--", "b", "--", "x:y 2", "x:z 3", "--"],
                                   {"a": {"x": {"y": 1.0}}, "b": {"x": {"y": 2.0, "z": 3.0}}}),
    "one line": (["a 1"], {"a": 1.0}),
    "no end of line at the end": (["a 1", "b 2"], {"a": 1.0, "b": 2.0}),
    "five values": (["a 1", "b 2", "c 3", "d 4", "e 5"],
                    {"a": 1.0, "b": 2.0, "c": 3.0, "d": 4.0, "e": 5.0}),
    "five entries": (["p", "--", "a 1", "b 2", "c 3", "d 4", "e 5", "--"],
                     {"p": {"a": 1.0, "b": 2.0, "c": 3.0, "d": 4.0, "e": 5.0}}),
    "short hyphens": (["p", "--", "a 1", "--"], {"p": {"a": 1.0}}),
    "hyphens of different length": (["p", "----------", "a 1", "--", "b 2"],
                                    {"p": {"a": 1.0}, "b": 2.0}),
}
MISSING = {
    "a dict that is not closed": ["p", "--", "a 1"],
    "a second dict that is not closed": ["p", "--", "a 1", "--", "q", "--", "b 1"],
    "a dict that is not closed, comments": ["p", "--", "a 1", "", "# end"],
    "a name at the end": ["a 1", "p"],
    "a name at the end, after a dict": ["p", "--", "a 1", "--", "q", "# end"],
    "a name without hyphens": ["p", "a 1", "b 2"],
    "a name without hyphens before another": ["p", "q", "--", "a 1", "--"],
    "a key without a value": ["p", "--", "a 1", "b", "--"],
    "a key without a value at first": ["p", "--", "a", "b 1", "--"],
    "a nested key without a value": ["p", "--", "a:b", "c 1", "--"],
    "a key and a comment": ["p", "--", "a # 1", "c 1", "--"],
    "a name and an equals sign": ["a =", "b 1"],
    "a key and an equals sign": ["p", "--", "a =", "b 1", "--"],
    "hyphens without a name": ["a 1", "--", "b 2", "--"],
    "hyphens after a dict": ["p", "--", "a 1", "--", "--", "b 2", "--"],
    "a nested key outside of a dict": ["a:b 1", "c 2"],
    "a nested name": ["a:b", "--", "c 1", "--"],
}


def reference(kinds):
    """What a file of the given kinds of lines means; None if something is missing."""
    out, name, cur = {}, None, None
    for k, kind in enumerate(kinds):
        if kind in ("blank", "comment"):
            continue
        if kind == "delimiter":
            if cur is not None:
                out[name] = cur
                name = cur = None
            elif name is not None:
                cur = {}
            else:
                return None
            continue
        if kind == "no value" or (kind == "name" and cur is not None):
            return None
        if cur is None and (name is not None or kind == "key"):
            return None
        if kind == "name":
            name = "n%d" % k
            continue
        v = float("1%d" % k)
        if kind == "sequence":
            v = [v, float("2%d" % k)]
        if kind == "key":
            v = {"b%d" % k: v}
        (out if cur is None else cur)["n%d" % k] = v
    return out if name is None else None


def own_names(c):
    """Names of the attributes and methods of a class that are not private."""
    out = {n.name for n in ast.walk(c.node) if isinstance(n, ast.FunctionDef)}
    out |= {n.attr for n in ast.walk(c.node) if isinstance(n, ast.Attribute)
            and isinstance(n.value, ast.Name) and n.value.id == "self"}
    return sorted(n for n in out if not n.startswith("_")) + ["read", "filepath"]


def text(kinds):
    return [KINDS[x].format(k=k) for k, x in enumerate(kinds)]


def plain(it, v):
    """A loaded value as a constant."""
    v = untag(v)
    if isinstance(v, Const):
        return v.v
    o = it.obj(v)
    if isinstance(o, DictO) and o.origin is None:
        return {plain(it, k): plain(it, x) for k, x in o.items.items()}
    items = it.known_items(v)
    if items is not None:
        return [plain(it, x) for x in items]
    return v


def same(a, b):
    if isinstance(b, dict):
        return isinstance(a, dict) and set(a) == set(b) and all(
            same(a[k], b[k]) and type(k) is type([x for x in b if x == k][0]) for k in a)
    if isinstance(b, list):
        return isinstance(a, list) and len(a) == len(b) and all(map(same, a, b))
    if isinstance(b, float):
        return isinstance(a, (int, float)) and not isinstance(a, bool) and a == b
    return type(a) is type(b) and a == b


def configuration():
    cache = {}

    def matcher(name):
        def run(it, args, kw, node):
            a = [x.v for x in args if isinstance(x, Const)]
            if len(a) != len(args) or kw:
                return it.fresh("matched")
            m = getattr(re, name)(*a)
            return NONE if m is None else it.call(cache["match"], [
                Const(m.group(0)), it.alloc(ListO([Const(g) for g in m.groups()]))], {}, node)
        return run
    cache["match"] = user_class('''
class Match(object):
    def __init__(self, text, parts):
        self.text = text
        self.parts = parts
    def group(self, k=0): return self.parts[k-1] if k else self.text
    def groups(self): return tuple(self.parts)
''', "Match")
    pattern, handle = user_class(PATTERN, "Pattern"), user_class(HANDLE, "Handle")

    def opened(it, args, kw, node):
        it.opened.append(args[0])
        return it.call(handle, [it.lines], {}, node)

    def exists(it, args, kw, node):
        return Const(args[0] == Const(PATH) and it.lines is not None)
    ext = {"re." + n: matcher(n) for n in ("match", "fullmatch", "search")}
    ext.update({
        "re.compile": lambda it, args, kw, node: it.call(pattern, args, kw, node),
        "os.path.exists": exists, "os.path.isfile": exists, "builtins.open": opened,
        "io.open": opened,
    })
    return config(ext=ext, defer_fail=False, known_arrays=True, max_while=40, max_loop=40,
                  max_seconds=20)


def leaves(d, names=()):
    """((names, value), ...) of a dict and the dicts in it, and of names that lead nowhere."""
    for k, v in d.items():
        yield names + (k,), v
        if isinstance(v, dict):
            for x in leaves(v, names + (k,)):
                yield x
    yield names + ("other",), {}


def load(ctx, cfg, lines, what, newline=True, asked=()):
    """[(path, what was loaded as constants, or None)]"""
    def driver(it):
        it.opened = []
        it.lines = None if lines is None else it.alloc(ListO([
            Const(x + ("\n" if newline or k + 1 < len(lines) else ""))
            for k, x in enumerate(lines)]))
        loader = it.call(Cls(it.repo.cls("SpecsLoader")), [Const(PATH)], {}, None)
        s = it.call(loader, [], {}, None)
        it.loaded = {k: plain(it, v) for k, v in it.inst(s).fields.items()
                     if not k.startswith("_")}
        it.found = [(names, plain(it, it.call(it.getattr(s, "get"), [
            Const(x) for x in names], {}, None))) for names in asked]
        return s
    a = ctx.explore("SpecsLoader: " + what, cfg, driver)
    ctx.need(a.paths, "no path for: " + what)
    return a.paths


def judge(ctx, cfg, here, what, lines, want, rule="content", newline=True, key=None):
    key = what if key is None else key
    for p in load(ctx, cfg, lines, what, newline):
        if want is None:
            ctx.ob("rejected", key, p.outcome == "raise", here,
                   "%s: the file is loaded as %s" % (
                       what, getattr(p.it, "loaded", None)), p)
            continue
        ok = p.outcome == "return"
        if not ok:
            ctx.ob(rule, key, False, here, "%s: %s" % (what, failure(p)), p)
            continue
        got = p.it.loaded
        bad = [k for k in want if k not in got or not same(got[k], want[k])]
        ctx.ob(rule, key, not bad, here, "%s: %s" % (what, ", ".join(
            "%s is %s" % (k, got.get(k, "not loaded")) for k in bad)), p)
        more = [k for k in got if k not in want]
        ctx.ob("nothing-else", key, not more, here, "%s: %s" % (what, ", ".join(
            "%s is loaded as %s" % (k, got[k]) for k in more)), p)


@check("C26", C26)
def c26(ctx):
    cfg = configuration()
    here = where(ctx.repo.method("SpecsLoader", "read"))
    for n in (0, 1, 2, 3, 4):
        for kinds in itertools.product(KINDS, repeat=n):
            if n < 4 or len(set(kinds)) == n:
                one(ctx, cfg, here, kinds)
            if n and n < 4:
                one(ctx, cfg, here, ("name", "delimiter") + kinds + ("delimiter", "value"))
                one(ctx, cfg, here, ("name", "delimiter", "key") + kinds)
    for what, (lines, want) in LONGER.items():
        for newline in (True, False):
            judge(ctx, cfg, here, what, lines, want, newline=newline)
        asked = list(leaves(want))
        for p in load(ctx, cfg, lines, what, True, [x for x, v in asked]):
            for (names, v), (_, got) in zip(asked, getattr(p.it, "found", ())):
                ctx.ob("get", what, same(got, v), where(ctx.repo.method("Specs", "get")),
                       "%s: what is found as %s is %s" % (what, ", ".join(map(str, names)), got),
                       p)
    for what, lines in MISSING.items():
        judge(ctx, cfg, here, what, lines, None)
    for v, want in VALUES.items():
        judge(ctx, cfg, here, "the value '%s'" % v, ["a " + v], {"a": want}, "values")
        judge(ctx, cfg, here, "the value '%s' in a dict" % v, ["p", "--", "a:b " + v, "c " + v,
                                                            "--"],
              {"p": {"a": {"b": want}, "c": want}}, "values")
    for name in own_names(ctx.repo.cls("Specs")):
        for what, lines, want in (
                ("a value", [name + " 5"], {name: 5.0}),
                ("a value before others", [name + " 5", "b 2"], {name: 5.0, "b": 2.0}),
                ("a value before a dict", [name + " 5", "p", "--", "a 1", "c:d 2", "--", "b 2"],
                 {name: 5.0, "p": {"a": 1.0, "c": {"d": 2.0}}, "b": 2.0}),
                ("a value between dicts", ["p", "--", "a 1", "--", name + " 5", "q", "--", "a 1",
                                           "--"],
                 {name: 5.0, "p": {"a": 1.0}, "q": {"a": 1.0}}),
                ("a dict", [name, "--", "a 1", "--"], {name: {"a": 1.0}}),
                ("a dict before another", [name, "--", "a 1", "--", "p", "--", "b 1", "--"],
                 {name: {"a": 1.0}, "p": {"b": 1.0}}),
                ("a key", ["p", "--", name + " 1", name + "x:" + name + " 2", "--"],
                 {"p": {name: 1.0, name + "x": {name: 2.0}}})):
            for p in load(ctx, cfg, lines, "%s as the name of %s" % (name, what)):
                got = getattr(p.it, "loaded", None)
                ctx.ob("own-names", "%s as the name of %s" % (name, what),
                       p.outcome == "raise" or got is not None and same(got, want), here,
                       "with %s as the name of %s, what is loaded is %s" % (name, what, got), p)
    for p in load(ctx, cfg, ["a 1"], "which file"):
        ctx.ob("file", "an existing file", p.outcome == "return" and p.it.opened == [
            Const(PATH)], here, "what is opened is %s" % p.it.opened, p)
    for p in load(ctx, cfg, None, "a file that does not exist"):
        ctx.ob("file", "a file that does not exist", p.outcome == "raise", here,
               "a file that does not exist is no error", p)


def one(ctx, cfg, here, kinds):
    want = reference(kinds)
    what = ", ".join(kinds) or "no lines"
    judge(ctx, cfg, here, what, text(kinds), want, "content" if want else "empty")
