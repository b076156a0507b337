"""
Obligations, evidence and reporting, shared by all checks.

A check records obligations: (rule, instance, held?, where, what).  An
instance is a construct of the analysed code (an entry point and a role
in it, a call site, an attribute), so it has the same name from run to
run.  The same instance is usually judged on many abstract paths; it
holds if it holds on all of them.
"""

import json
import os
import sys
import time
import traceback

from .source import AnalysisBroken, Repo
from . import absint

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.environ.get("ADELINT_EVIDENCE") or os.path.join(HERE, "evidence")
KNOWN = os.path.join(HERE, "KNOWN_FINDINGS.txt")

CHECKS = {}


def check(pid, rules):
    """Registers a check; rules maps each rule's name to what it says."""
    def deco(f):
        CHECKS[pid] = (f, rules)
        return f
    return deco


class Ob:
    __slots__ = ("rule", "key", "n", "bad", "where", "msg", "path")

    def __init__(self, rule, key):
        self.rule = rule
        self.key = key
        self.n = 0
        self.bad = 0
        self.where = self.msg = self.path = None


#: Seconds after which nothing more is explored
TIME = 600


class OutOfTime(Exception):
    """Enough has been found, or there is no time to go on."""


class Ctx:
    def __init__(self, pid, repo, tier):
        self.pid = pid
        self.repo = repo
        self.tier = tier
        self.obs = {}
        self.entries = []
        self.functions = set()
        self.paths = 0
        self.events = 0
        self.cut = 0
        self.partial = []
        self.unknowns = {}
        self.assumptions = []
        self.notes = []
        self.sites = 0

    # -- recording ---------------------------------------------------------
    def ob(self, rule, key, ok, where="", msg="", path=None):
        """One judgement of one instance of a rule."""
        if rule not in CHECKS[self.pid][1]:
            raise AssertionError("unknown rule %s" % rule)
        o = self.obs.get((rule, key))
        if o is None:
            o = self.obs[(rule, key)] = Ob(rule, key)
        o.n += 1
        if not ok:
            o.bad += 1
            if o.where is None:
                o.where = where.where() if isinstance(where, absint.Event) else where
                o.msg = msg() if callable(msg) else msg
                o.path = None if path is None else path.describe()
        return ok

    def need(self, cond, what):
        """Something without which nothing can be decided."""
        if not cond:
            raise AnalysisBroken(what)

    def assume(self, text):
        if text not in self.assumptions:
            self.assumptions.append(text)

    # -- analysis ------------------------------------------------------------
    def explore(self, name, cfg, driver):
        t = time.time() - absint.STARTED
        if t > TIME or (t > 60 and any(o.bad for o in self.obs.values())):
            raise OutOfTime(name)
        a = absint.explore(self.repo, cfg, driver)
        self.entries.append(name)
        st = a.stats()
        self.functions.update(st["functions"])
        self.paths += len(a.paths)
        self.events += st["events"]
        self.cut += a.cut
        if a.partial:
            self.partial.append(name)
        for p in a.paths:
            for what, node, fi in p.unknowns:
                self.unknowns[(what, fi.qual if fi else "?")] = 1
        return a

    def count_sites(self, n, functions=()):
        self.sites += n
        self.functions.update(functions)


def load_known():
    """[(property, rule, instance, text)] of the listed known findings."""
    out = []
    if os.path.exists(KNOWN):
        with open(KNOWN) as fh:
            for line in fh:
                line = line.strip()
                if not line.startswith("known:"):
                    continue
                d = {}
                rest = line[len("known:"):].strip()
                head, _, text = rest.partition(" :: ")
                for part in head.split(" | "):
                    k, _, v = part.partition("=")
                    d[k.strip()] = v.strip()
                out.append((d.get("property"), d.get("rule"), d.get("instance"), text))
    return out


def run(pid, tier):
    t0 = time.time()
    os.makedirs(EVIDENCE, exist_ok=True)
    evpath = os.path.join(EVIDENCE, pid + ".json")
    func, rules = CHECKS[pid]
    repo = Repo()
    ctx = Ctx(pid, repo, tier)
    broken = None
    try:
        func(ctx)
        if not ctx.obs:
            raise AnalysisBroken("no obligation arose")
        silent = [r for r in rules if not any(o.rule == r for o in ctx.obs.values())]
        if silent:
            raise AnalysisBroken("no instance of rule(s) %s" % ", ".join(silent))
    except OutOfTime as e:
        ctx.partial.append("(from here on: %s)" % e)
    except Exception as e:
        # What has been found so far still counts
        broken = e
    known = [(r, k, t) for p, r, k, t in load_known() if p == pid]
    bad = [o for o in ctx.obs.values() if o.bad]
    listed, fresh = [], []
    for o in bad:
        hit = [t for r, k, t in known if r == o.rule and k == o.key]
        (listed if hit else fresh).append((o, hit[0] if hit else None))
    if broken is not None and not fresh:
        raise broken
    for o, text in listed:
        print("KNOWN-FINDING: property=%s %s" % (pid, text))
    per_rule = {}
    for o in ctx.obs.values():
        d = per_rule.setdefault(o.rule, {"instances": 0, "judged_on_paths": 0})
        d["instances"] += 1
        d["judged_on_paths"] += o.n
    judged = sum(o.n for o in ctx.obs.values())
    samples = []
    for o in list(ctx.obs.values())[:12]:
        samples.append({"rule": o.rule, "instance": o.key, "judged": o.n,
                        "held": not o.bad})
    ev = {
        "property": pid, "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "coverage": {
            "explanation": (
                "Static analysis of the current source of /repo (never run): "
                "abstract interpretation of the entry points listed, path by path, "
                "over provenance terms; each obligation is an instance of a rule "
                "judged on every abstract path on which it arises."),
            "evaluations": judged,
            "distinct_nontrivial": len(ctx.obs),
            "rule": "An evaluation is one judgement of one obligation on one abstract "
                    "path (or site); distinct ones are obligations, i.e. a rule and "
                    "the construct it applies to.",
            "rules": rules,
            "per_rule": per_rule,
            "entry_points": ctx.entries,
            "functions_analysed": len(ctx.functions),
            "function_names": sorted(ctx.functions)[:80],
            "abstract_paths": ctx.paths,
            "abstract_events": ctx.events,
            "entry_points_sampled_not_exhausted": ctx.partial,
            "loop_rounds_cut": ctx.cut,
            "call_sites_inspected": ctx.sites,
            "unmodelled_constructs": sorted("%s in %s" % k for k in ctx.unknowns),
            "source_files": len(repo.modules),
            "known_findings_hit": len(listed),
            "samples": samples,
        },
        "assumptions": ctx.assumptions,
        "wall_s": round(time.time() - t0, 3),
        "violations": len(fresh),
    }
    if fresh:
        ev["coverage"]["violated"] = [{
            "rule": o.rule, "instance": o.key, "where": o.where or "",
            "what": o.msg or ""} for o, _ in fresh]
    with open(evpath, "w") as fh:
        json.dump(ev, fh, indent=1)
        fh.write("\n")
    rep = os.path.join(EVIDENCE, pid + ".violation.txt")
    if os.path.exists(rep):
        os.remove(rep)
    if fresh:
        lines = ["property %s violated" % pid,
                 "replay: cd /verif && python3 -m adelint %s" % pid, ""]
        for o, _ in fresh:
            lines.append("rule     %s: %s" % (o.rule, rules[o.rule]))
            lines.append("instance %s" % o.key)
            lines.append("where    %s" % (o.where or "?"))
            lines.append("what     %s" % (o.msg or ""))
            lines.append("judged on %d paths, violated on %d" % (o.n, o.bad))
            if o.path:
                lines.append("path:")
                lines.extend("    " + x for x in o.path)
            lines.append("")
        with open(rep, "w") as fh:
            fh.write("\n".join(lines))
        for o, _ in fresh:
            print("%s: [%s] %s: %s" % (o.where or "?", o.rule, o.key, o.msg))
        print("VIOLATION property=%s replay=%s" % (pid, rep))
        return 1
    print("%s: %d obligations (%d judgements) hold; %d paths, %d functions, %.1f s" % (
        pid, len(ctx.obs) - len(listed), judged, ctx.paths, len(ctx.functions),
        time.time() - t0))
    return 0


def main(argv):
    from . import rules  # noqa: F401  (registers the checks)
    tier = os.environ.get("VERIF_TIER", "quick")
    ids = []
    k = 0
    while k < len(argv):
        if argv[k] == "--tier":
            tier = argv[k + 1]
            k += 1
        else:
            ids.append(argv[k])
        k += 1
    if ids == ["all"]:
        ids = sorted(CHECKS)
    if tier not in ("quick", "thorough"):
        tier = "quick"
    code = 0
    for pid in ids:
        try:
            c = run(pid, tier)
        except AnalysisBroken as e:
            print("%s: analysis broken: %s" % (pid, e), file=sys.stderr)
            c = 3
        except Exception:
            traceback.print_exc()
            c = 4
        code = max(code, c)
    return code
