#!/usr/bin/env python3
"""
Tests the checks both ways: applies each edit of the corpus to a scratch
copy of the analysed sources, runs the checks on that, and compares.

A "bug" must make one of its properties' checks exit 1; an "ok" edit
(which preserves behaviour) must leave every check at exit 0 (only those
are run that analyse a function that it changes, unless --all is given).

usage: selftest/run.py [-k substring] [-p C01,C02] [--all]
"""

import argparse
import ast
import glob
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("SELFTEST_REPO", "/repo")


def corpus():
    out = []
    for path in sorted(glob.glob(os.path.join(HERE, "corpus_*.py"))):
        spec = importlib.util.spec_from_file_location(os.path.basename(path)[:-3], path)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        for x in m.M:
            x["corpus"] = os.path.basename(path)[7:-3]
        out.extend(m.M)
    ids = [m["id"] for m in out]
    dup = {x for x in ids if ids.count(x) > 1}
    assert not dup, dup
    return out


def all_checks():
    sys.path.insert(0, VERIF)
    from adelint import core, rules  # noqa: F401
    return sorted(core.CHECKS)


def functions(path):
    """{name: text} of the functions of a file, and what is left as the name ""."""
    out = {}

    def walk(body, prefix):
        for st in list(body):
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                out[prefix + st.name] = out.get(prefix + st.name, "") + ast.dump(st)
                body.remove(st)
            elif isinstance(st, ast.ClassDef):
                walk(st.body, prefix + st.name + ".")
    with open(path) as fh:
        tree = ast.parse(fh.read())
    walk(tree.body, "")
    out[""] = ast.dump(tree)
    return out


def touched(m, tmp):
    """The names of the functions an edit changes; None if it changes more than functions."""
    names = set()
    for f in {e[0] for e in m["edits"]}:
        a, b = functions(REPO + "/" + f), functions(tmp + "/" + f)
        if a[""] != b[""]:
            return None
        names |= {k for k in a if a[k] != b.get(k)}
        names |= {k for k in b if k not in a and k.split(".")[-1] in {
            x.split(".")[-1] for x in a}}
    return names


def concerned(checks):
    """{check: the functions it analyses}, as measured on the unchanged sources."""
    tmp = tempfile.mkdtemp(prefix="adelint-selftest-")
    try:
        env = dict(os.environ, ADELINT_REPO=REPO, ADELINT_EVIDENCE=tmp)

        def run(c):
            subprocess.run([sys.executable, "-m", "adelint", c], cwd=VERIF, env=env,
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            with open(tmp + "/" + c + ".json") as fh:
                cov = json.load(fh)["coverage"]
            return c, set(cov["function_names"])
        with ThreadPoolExecutor(8) as ex:
            return dict(ex.map(run, checks))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def one(m, checks, everything, analysed):
    tmp = tempfile.mkdtemp(prefix="adelint-selftest-")
    try:
        shutil.copytree(REPO + "/ade", tmp + "/ade", ignore=shutil.ignore_patterns(
            "__pycache__", "*.pyc", "*.gz", "*.png", "*.jpg", "test"))
        for f, old, new in m["edits"]:
            path = os.path.join(tmp, f)
            s = open(path).read()
            if s.count(old) != 1:
                return m, "EDIT", "%s: text occurs %d times in %s" % (
                    m["id"], s.count(old), f)
            s = s.replace(old, new)
            try:
                compile(s, path, "exec")
            except SyntaxError as e:
                return m, "EDIT", "%s: %s" % (m["id"], e)
            open(path, "w").write(s)
        env = dict(os.environ, ADELINT_REPO=tmp, ADELINT_EVIDENCE=tmp + "/ev")
        if everything:
            ids = checks
        elif m["kind"] == "ok":
            names = touched(m, tmp)
            ids = [c for c in checks if names is None or names & analysed[c]]
        else:
            ids = [c for c in m["props"] if c in checks]
        codes = {}
        texts = []
        for c in ids:
            r = subprocess.run([sys.executable, "-m", "adelint", c], cwd=VERIF, env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            codes[c] = r.returncode
            if r.returncode:
                texts.append(r.stdout)
        bad = {c: k for c, k in codes.items() if k not in (0, 1)}
        if bad:
            return m, "BROKEN", "%s\n%s" % (bad, "\n".join(texts))
        hit = [c for c, k in codes.items() if k == 1]
        if m["kind"] == "ok":
            return m, "ok" if not hit else "FALSE-ALARM", "%s\n%s" % (hit, "\n".join(texts))
        if not ids:
            return m, "no check", ""
        mine = [c for c in hit if c in m["props"]]
        return m, "caught" if mine else "MISSED", "%s\n%s" % (hit, "\n".join(texts))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("-k", default="")
    ap.add_argument("-p", default="")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--all", action="store_true")
    ap.add_argument("--kind", default="")
    ap.add_argument("-c", default="", help="corpus, e.g. bounds")
    a = ap.parse_args()
    checks = all_checks()
    if a.p:
        checks = [c for c in checks if c in a.p.split(",")]
    todo = [m for m in corpus() if a.k in m["id"] and (not a.kind or m["kind"] == a.kind)
            and (not a.c or m["corpus"] in a.c.split(","))]
    n = {}
    analysed = {} if a.all or all(m["kind"] != "ok" for m in todo) else concerned(checks)
    with ThreadPoolExecutor(8) as ex:
        for m, verdict, text in ex.map(lambda m: one(m, checks, a.all, analysed), todo):
            n[verdict] = n.get(verdict, 0) + 1
            show = verdict not in ("ok", "caught", "no check") or a.v
            first = text.split("\n")[0]
            print("%-12s %-40s %s" % (verdict, m["id"], first if verdict != "ok" else ""))
            if show:
                print("    " + "\n    ".join(text.split("\n")[1:12]))
            sys.stdout.flush()
    print(n)
    return 0 if set(n) <= {"ok", "caught", "no check"} else 1


if __name__ == "__main__":
    sys.exit(main())
