"""
Compares what the analysis makes of small functions with what they do:
idioms that a refactoring may use. Nothing of the analysed package is run.

    python3 selftest/idioms.py [text in a snippet]
    /opt/venv/bin/python selftest/idioms.py --numpy [text in a snippet]
"""

import os
import sys
import textwrap

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

from adelint import absint, source                      # noqa: E402
from adelint.absint import Fun                          # noqa: E402
from adelint.model import config                        # noqa: E402
from adelint.rules_specs import plain                   # noqa: E402


def norm(v):
    if hasattr(v, "tolist"):
        v = v.tolist()
    if isinstance(v, dict):
        return {k: norm(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [norm(x) for x in v]
    if isinstance(v, (set, frozenset)):
        return sorted(map(norm, v), key=repr)
    return v


def analysed(repo, text):
    m = source.ModuleInfo("(user)", "(user)", text)
    cfg = config(defer_fail=False, known_arrays=True, max_while=60, max_loop=60, max_seconds=20)

    def driver(it):
        r = it.call(Fun(m.functions["f"]), [], {}, None)
        it.r = norm(plain(it, r))
        return r
    try:
        a = absint.explore(repo, cfg, driver)
    except Exception as e:
        return "%s: %s" % (type(e).__name__, e)
    out = []
    for p in a.paths:
        v = p.value
        out.append(p.it.r if p.outcome == "return" else "raise %s" % (
            v[0] if isinstance(v, tuple) else getattr(v, "etype", v)))
    return out[0] if len(out) == 1 else ("paths", out)


def alike(x, y):
    if isinstance(x, list) and isinstance(y, list):
        return len(x) == len(y) and all(map(alike, x, y))
    if isinstance(x, (int, float)) and isinstance(y, (int, float)):
        return x == y or abs(x - y) < 1e-9 or (x != x and y != y)
    return repr(x) == repr(y)


def snippets(name):
    with open(os.path.join(HERE, "selftest", name)) as fh:
        for t in fh.read().split("\n\n"):
            t = "\n".join(x for x in t.split("\n") if not x.startswith("#") or x[1:2] == "!")
            if t.strip():
                yield t.strip("\n") + "\n"


def source_of(t):
    """Top-level lines up to the first that is not a definition or import, then the body of f."""
    lines, top = t.split("\n"), []
    while lines and (lines[0].startswith(("import ", "from ", "class ", "def ", "@", " ", "\t"))):
        if lines[0].startswith("def f("):
            break
        top.append(lines.pop(0))
    return "\n".join(top) + "\ndef f():\n" + textwrap.indent("\n".join(lines), "    ")


def main():
    repo = source.Repo()
    n = bad = 0
    args = sys.argv[1:]
    arrays = "--numpy" in args
    args = [x for x in args if x != "--numpy"]
    for t in snippets("idioms_numpy.txt" if arrays else "idioms.txt"):
        if args and args[0] not in t:
            continue
        text = source_of(t)
        if arrays:
            text = "import numpy as np\n" + text
        ns = {}
        try:
            exec(compile(text, "(snippet)", "exec"), ns)
            want = norm(ns["f"]())
        except Exception as e:
            want = "raise " + type(e).__name__
        got = analysed(repo, text)
        n += 1
        if not (alike(got, want) if arrays else repr(got) == repr(want)):
            bad += 1
            print("-----\n%s\n  is       %s\n  analysed %s" % (t.rstrip(), want, str(got)[:300]))
    print("%d snippets, %d differ" % (n, bad))
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
