"""Writes MANIFEST.json from the registered checks and properties.jsonl."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from adelint import core, rules  # noqa

NA = {
    "C35": "Convergence is a statement about numeric values and chance over a whole run; "
           "no sound static argument over the source bounds it.",
    "C36": "The spread of the initial vectors is computed inside the library pyDOE from "
           "random numbers; the source of ade holds no argument for or against it. That "
           "the vectors used are the library's rows, each used once, is part of C14.",
    "C37": "Which pair is closest is a matter of the numbers in the roster (and of the "
           "random selection of pairs examined); static analysis sees only the formula. "
           "That a dropped record is unprotected is decided in C17 and C30.",
    "C38": "Idle time of workers is a quantity of wall-clock time and scheduling that the "
           "source does not bound.",
}
TECH = {
    "default": "path-sensitive dataflow and typestate analysis (abstract interpretation of the syntax trees)",
}
LEVEL = ("Decided on every abstract path of the listed entry points, with all shared state "
         "forgotten at each suspension point; loops of unknown length are taken for a bounded "
         "number of rounds and library code is trusted, so this is not a proof.")


def main():
    props = [json.loads(x) for x in open(HERE + "/properties.jsonl")]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if i in core.CHECKS:
            checks.append({
                "property": i, "quick_cmd": "python3 -m adelint " + i,
                "thorough_cmd": "python3 -m adelint --tier thorough " + i,
                "evidence_file": "evidence/%s.json" % i,
                "technique": TECH.get(i, TECH["default"]),
                "level": "other",
                "level_note": "Rules: " + "; ".join(
                    "%s: %s" % x for x in sorted(core.CHECKS[i][1].items())) + ". " + LEVEL})
        else:
            na.append({"property": i, "reason": NA.get(
                i, "Not claimed: no check has been built for it yet.")})
    m = {"version": 1, "setup_cmd": "python3 -m compileall -q adelint",
         "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo: the checks read its source and never run it. The "
                  "fix: commits in /repo are listed in KNOWN_FINDINGS.txt."}
    with open(HERE + "/MANIFEST.json", "w") as fh:
        json.dump(m, fh, indent=1)
        fh.write("\n")
    print(len(checks), "checks;", len(na), "not applicable")


main()
