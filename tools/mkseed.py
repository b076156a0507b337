#!/usr/bin/env python3
"""
Makes /verif/seeded/<id>/ from the definitions in tools/seeds/*.py and
confirms each: the edit builds, the stable tests pass with it, and the
demonstration passes without and fails with it.

    tools/mkseed.py [--no-test] id ...
"""
import glob
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PY = "/opt/venv/bin/python"


def seeds():
    out = {}
    for path in sorted(glob.glob(HERE + "/seeds/s_*.py")):
        spec = importlib.util.spec_from_file_location("s", path)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        for s in m.S:
            assert s["id"] not in out, s["id"]
            out[s["id"]] = s
    return out


def env():
    e = dict(os.environ, MPLBACKEND="Agg", MPLCONFIGDIR="/opt/venv/mplconfig",
             PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
             PYTHONPATH="/opt/vp/plugins", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    return e


def demo(d, cwd):
    e = dict(os.environ)
    e.pop("PYTHONPATH", None)
    try:
        r = subprocess.run(["bash", d + "/demo.sh"], cwd=cwd, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=300)
        return r.returncode, r.stdout[-1500:]
    except subprocess.TimeoutExpired:
        return "timeout", ""


def tests(cwd, tmp):
    subprocess.run([PY, "-m", "pytest", "-q", "-p", "vp_steady", "-p", "no:cacheprovider",
                    "--timeout=300", "-W", "ignore::DeprecationWarning",
                    "--continue-on-collection-errors", "-o", "junit_family=xunit2",
                    "--junitxml=" + tmp + "/junit.xml", "ade/test"], cwd=cwd, env=env(),
                   stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                   stderr=subprocess.DEVNULL)
    subprocess.run(["/usr/bin/python3", "/opt/vp/results.py", tmp + "/out.json",
                    "junit:" + tmp + "/junit.xml"], stdout=subprocess.DEVNULL)
    got = json.load(open(tmp + "/out.json"))
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    return base, got


def make(s, test=True):
    d = os.path.join(VERIF, "seeded", s["id"])
    tmp = tempfile.mkdtemp(prefix="seed-")
    try:
        tree = tmp + "/repo"
        shutil.copytree("/repo", tree, symlinks=True)
        for f, old, new in s["edits"]:
            t = open(tree + "/" + f).read()
            if t.count(old) != 1:
                return "text occurs %d times in %s: %r" % (t.count(old), f, old[:60])
            open(tree + "/" + f, "w").write(t.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=tree, stdout=subprocess.PIPE, text=True).stdout
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(diff)
        shutil.copy(HERE + "/seeds/harness.py", d + "/harness.py")
        open(d + "/demo.py", "w").write("from harness import *\n\n" + s["demo"].lstrip("\n"))
        open(d + "/demo.sh", "w").write(
            '#!/bin/bash\nhere=$(cd "$(dirname "$0")" && pwd)\n'
            "export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\n"
            'exec timeout 250 /opt/venv/bin/python "$here/demo.py" </dev/null\n')
        json.dump({"property": s["property"], "needs": s["needs"],
                   "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        bad = []
        r = subprocess.run([PY, "-m", "compileall", "-q", "ade/de.py", "ade"], cwd=tree,
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        c, out = demo(d, "/repo")
        if c != 0:
            bad.append("demo on the unchanged tree: %s\n%s" % (c, out))
        c, out = demo(d, tree)
        if c == 0:
            bad.append("demo passes with the change\n%s" % out)
        first = out.strip().split("\n")[-1]
        if test and not bad:
            base, got = tests(tree, tmp)
            fails = [n for n in base if n not in got['passed']]
            if fails:
                bad.append("tests fail: %s" % fails[:5])
        return "\n".join(bad) or "confirmed; demo: %s" % first
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main(argv):
    from concurrent.futures import ThreadPoolExecutor
    test = "--no-test" not in argv
    argv = [a for a in argv if not a.startswith("--")]
    all_ = seeds()
    ids = argv or sorted(all_)
    with ThreadPoolExecutor(6) as ex:
        for i, r in zip(ids, ex.map(lambda i: make(all_[i], test), ids)):
            print("%-28s %s" % (i, r))
            sys.stdout.flush()


if __name__ == "__main__":
    main(sys.argv[1:])
