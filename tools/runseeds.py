#!/usr/bin/env python3
"""Runs the checks on scratch copies with each planted bug applied.

    tools/runseeds.py [--all] [substring]
"""
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(args):
    d, checks = args
    prop = json.load(open(d + "/meta.json"))["property"]
    tmp = tempfile.mkdtemp(prefix="runseed-")
    try:
        shutil.copytree(os.environ.get("SELFTEST_REPO", "/repo") + "/ade", tmp + "/ade", ignore=shutil.ignore_patterns(
            "__pycache__", "*.gz", "*.png", "test"))
        r = subprocess.run(["git", "apply", "--unsafe-paths", "--directory=" + tmp,
                            d + "/patch.diff"], cwd="/", stderr=subprocess.PIPE, text=True)
        if r.returncode:
            return d, prop, "PATCH " + r.stderr, {}
        env = dict(os.environ, ADELINT_REPO=tmp, ADELINT_EVIDENCE=tmp + "/ev")
        codes = {}
        text = ""
        for c in checks or [prop]:
            q = subprocess.run([sys.executable, "-m", "adelint", c], cwd=VERIF, env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            codes[c] = q.returncode
            if c == prop:
                text = q.stdout
        return d, prop, text, codes
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main(argv):
    checks = None
    if "--all" in argv:
        sys.path.insert(0, VERIF)
        from adelint import core, rules  # noqa
        checks = sorted(core.CHECKS)
    sub = [a for a in argv if not a.startswith("-")]
    dirs = [d for d in sorted(glob.glob(VERIF + "/seeded/*"))
            if not sub or any(x in d for x in sub)]
    n = 0
    with ThreadPoolExecutor(8) as ex:
        for d, prop, text, codes in ex.map(one, [(d, checks) for d in dirs]):
            c = codes.get(prop)
            others = [k for k, v in codes.items() if v == 1 and k != prop]
            odd = {k: v for k, v in codes.items() if v not in (0, 1)}
            v = {1: "caught", 0: "MISSED"}.get(c, "ERROR")
            n += c == 1
            print("%-8s %-34s also %s %s" % (v, os.path.basename(d), others, odd or ""))
            if c != 1 or "-v" in argv:
                print("      " + "\n      ".join(text.strip().split("\n")[:8]))
            sys.stdout.flush()
    print("%d of %d caught" % (n, len(dirs)))


main(sys.argv[1:])
