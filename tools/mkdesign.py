#!/usr/bin/env python3
"""Writes the per-property part of DESIGN.md from the registered rules, the
notes below, the last evidence and KNOWN_FINDINGS.txt."""
import glob
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from adelint import core, rules  # noqa

sys.argv = sys.argv[:1]
NA = re.search(r"NA = \{.*?\n\}", open(HERE + "/tools/mkmanifest.py").read(), re.S).group(0)
exec(NA)

# id: (what is analysed and how it is judged, bounds, why tests cannot)
NOTES = {
    "C01": (
        "Typestate over the one coroutine that makes a challenge: all its abstract paths, from "
        "the choice of the slots to every way out, with the population's slots as symbolic "
        "cells. Each store to the slots is judged by what is known on its path: which slot, "
        "which evaluation, which order fact. A whole-package scan lists every other place that "
        "can write the slots and classifies it (setup, clearing, loading).",
        "None on the number of members: the slots are symbolic.",
        "The order fact has to hold on every path, i.e. for ties, infinities, fatal results and "
        "for every interleaving; tests run a few seeds with results that are all different."),
    "C02": (
        "Typestate of the slot locks (unknown, asked for, granted, given back) along every path "
        "of a challenge; every read of a slot and every store is an event with the state of the "
        "slot's lock at that moment. Locks made at setup and loading are followed to the slot "
        "they stand for.",
        "Releases by an abort are modelled at each suspension point.",
        "A race shows only if another challenge is scheduled in the window; the analysis "
        "forgets shared state at every suspension, so it needs no schedule."),
    "C03": (
        "The same typestate, judged at the exits: normal, by exception from any call into user "
        "code, by an abort at any suspension. Lock order: all requests of a challenge lie in "
        "one stretch without a suspension, each slot once.",
        "Two rounds of loops of unknown length (the slots are four, known).",
        "A leaked lock only hangs the next challenge of that slot, in a later generation."),
    "C04": (
        "Two parameters with unknown bounds lo < hi; vectors are arrays of symbolic entries. "
        "Interval and order facts per entry through `np.where`, `np.clip`, arithmetic and "
        "indexing decide lo <= entry <= hi for what reaches the evaluation function, in a "
        "challenge, at setup, and for the members of a loaded population. A whole-package scan "
        "looks for further callers of the evaluation function.",
        "Two parameters; at setup up to two rejected vectors in a row. Rounding is ignored.",
        "Reflection can leave the bounds only if a mutant lies more than a full range outside "
        "of them, a matter of chance in a test."),
    "C05": (
        "As C04, with two constraints of unknown verdict (as a list, alone, and added later). "
        "The mapping each constraint gets is compared, entry by entry, with what is evaluated "
        "or admitted on that path; parameter names are not in alphabetical order.",
        "Two parameters, two constraints, two rejected vectors in a row before setup gives up.",
        "Needs a constraint that fails at the very last attempt, or accepts another vector than "
        "the one evaluated; the tests' constraints nearly always pass."),
    "C06": (
        "Provenance: each entry of the challenger is a term. It must be base + F*(one - other) "
        "of the same entry and of the slots of the challenge, or the target's; the draws of the "
        "crossover are symbols in [0,1], and the path facts about them are compared with CR.",
        "Two parameters (all outcomes of both draws).",
        "A wrong operand or sign still optimises, only worse; no test looks at single vectors."),
    "C07": (
        "Ownership of arrays: the storage of every existing individual is marked, and every "
        "in-place write (item, slice, augmented, `out=`, attribute) on any path of a challenge "
        "must be to storage made on that path.",
        "As C06.",
        "Aliasing shows only when a shared array is changed later on."),
    "C08": (
        "The evaluation function is a symbol with the outcomes value, negative value, failure "
        "(exception and failed Deferred). All paths after a fatal outcome are judged: shutdown "
        "called and effective, no store, record, report, no exception out of the coroutine.",
        "One fatal evaluation per challenge or setup round.",
        "Tests do not make evaluations fail at each of the places where they are awaited."),
    "C09": (
        "Two parts. Guards: each event (evaluation, store, start of a generation, success of "
        "setup) must have a fact 'running' established after the last suspension. Progress: "
        "with the state 'aborted' each waiting operation is followed to its end.",
        "As C01; registration is judged per constructor.",
        "An abort can come at any suspension point; tests try one or two."),
    "C10": (
        "Runs of small populations for up to three generations, with challenges "
        "as abstract Deferreds that finish in any order. The events 'challenge of slot k "
        "started/finished', 'report wait', 'user function called' are judged as a trace.",
        "Three slots for one generation, two for two, one for three.",
        "Whether a generation overlaps with the next depends on which challenge is slow."),
    "C11": (
        "The same runs with symbolic goal and best SSE and symbolic verdicts about improvement; "
        "the count of fruitless generations is followed for small limits.",
        "Dwell limits 0 and 1, runs of up to four generations.",
        "Ties with the goal and the exact generation of the stop."),
    "C12": (
        "The weight manager with symbolic configured values, order facts and intervals through "
        "sequences of up/down adaptations (scalar, range, range from zero, not adaptive).",
        "Sequences of up to three adaptations from a state of unknown history.",
        "The limit is approached from above over many generations; a test stops earlier."),
    "C13": (
        "The sampling functions for small populations, every set of exclusions, and random "
        "choices left open (each draw of the abstract generator is a branch).",
        "Five slots, samples of up to three, up to two exclusions.",
        "A repeated slot needs a repeated draw."),
    "C14": (
        "Setup as a coroutine with evaluations that finish in any order with any kind of "
        "result; the number of members and of evaluations under way is followed as intervals. "
        "The store of a member needs the fact 'not full' established after the last "
        "suspension.",
        "Two rounds of the filling loop from a state of unknown fill.",
        "Overfilling needs several late evaluations at the very end."),
    "C15": (
        "The six comparisons for all pairs of result kinds (none, NaN, negative, zero, "
        "positive, infinite), against other individuals and numbers; finite values are symbols "
        "with each of the three order relations.",
        "Exhaustive over kinds.", "49 pairs of kinds times operators; tests use a few."),
    "C16": (
        "A small population, all sequences of changes (replace, add, demote, clear) between two "
        "questions about the ranking; the answers are compared with the members as they are.",
        "Up to four members, sequences of up to three changes.",
        "A stale cache shows only for a question asked before and after one certain change."),
    "C17": (
        "The history as an abstract roster (symbolic values, SSE levels in every order): "
        "sequences of additions, withdrawals, demotions, replacements by the population, also "
        "with waits in between. After each step the protected records must be those of the "
        "members.",
        "Capacities of up to five, up to nine individuals.",
        "A lost protection shows when the roster is full, thousands of evaluations later."),
    "C18": (
        "Typestate of the history's lock along every path of each operation that changes it, "
        "including failing calls; every change of the roster is an event with the lock's state.",
        "One operation at a time, state unknown at each suspension.",
        "Needs two operations meeting at one suspension, or a failure inside of one."),
    "C19": (
        "Saving and loading are interpreted with models of pickling (the state methods of each "
        "object, as written), of the compression and the file: 22 states of a population (before "
        "setup, set up, with pending and aborted evaluations, with cached rankings, with and "
        "without constraints) and histories with records of the three kinds, the rows also beyond "
        "one byte. The loaded object is compared with the saved one by what its operations "
        "answer, and each lock must be its own and free.",
        "Three members, two parameters; the operations of the two objects are compared one at a "
        "time.",
        "A forgotten item shows only in the state that has it, and in the operation that uses it."),
    "C20": (
        "Provenance of the identity: it must be made of the SSE and of every value, only by "
        "functions that give the same in each process (not the built-in hash of text, bytes or "
        "objects, not an address), and be the same for each type of number (bool, int, float, "
        "arrays of each width, negative zero), for each SSE, and after saving and loading; the "
        "history must find the record of a loaded member.",
        "Two and three parameters; digests are taken to be free of collisions.",
        "A salt differs only between processes."),
    "C21": (
        "Scripts of up to four reports, with every pattern of callbacks that answer at once or "
        "late, complain or fail, in every order of completion; SSEs by level, including ties, "
        "infinite and fatal ones.",
        "45 scripts, two callbacks.", "Orders of completion."),
    "C22": (
        "As C21, with the trace of the calls of the callbacks as what is judged, and with "
        "aborts at each point.",
        "26 scripts, two callbacks.", "Orders of completion."),
    "C23": (
        "Provenance of the keyword given to the evaluation function on every path of a "
        "challenge and of setup, for the option on and off, target results of every kind.",
        "None on values.", "A target SSE of zero, or one read before the lock was granted."),
    "C24": (
        "All sequences of up to three uses of the messenger (set a destination of each kind, "
        "write in each way) with each operation on a destination failing or not.",
        "Three uses, four kinds of errors.", "Failing close and flush."),
    "C25": (
        "An abstract file system (paths as strings, content as symbols), every combination of "
        "what exists already. Every write, copy, rename and removal is an event with its path.",
        "Three example files, each absent, a file, or a directory.",
        "The tests extract into an empty directory only."),
    "C26": (
        "A file is a sequence of kinds of lines; the loader is analysed for each sequence, with "
        "the lines as constants and the file as an object of the analysis, and what is loaded "
        "is compared with what the format says, or that loading ends with an exception. Names "
        "that are also attributes or methods of the specification are read off the source and "
        "used as names in a file.",
        "All sequences of up to three of nine kinds of lines, four different ones, and up to "
        "three in an open dict; thirty kinds of values; longer files with several dicts and "
        "sub-dicts.",
        "Files that are not well-formed, and combinations of well-formed parts."),
    "C27": (
        "Runs are constructed abstractly with each option alone, all of them, none, and None, "
        "next to other runs; the values are read off the object. Which options flow into a "
        "decision or an argument is read off the paths of a run and of a challenge. What each "
        "option does is judged by the rules of C06, C10-C13 and C23 that are about it.",
        "Two or three values per option, zero and false ones among them.",
        "Options in combination, and values that are false.", ),
    "C28": (
        "All sequences of registrations, aborts, input and shutdowns.",
        "Up to five steps; actions that register or abort in turn.", "Late and repeated registration."),
    "C29": (
        "Constraints objects with all arrangements of linear and log names, registered and "
        "appended; checkers called in each order with complete and incomplete mappings.",
        "Up to six constraints, four names.", "Closures that share a variable."),
    "C30": (
        "As C17: rows, capacity and order of the roster after each step.",
        "As C17.", "As C17."),
    "C31": (
        "The score after reports of every classification, as terms; monotonicity by order "
        "facts.", "Two reports between two questions.", "Ties and repeated questions."),
    "C32": (
        "All pairs of result kinds with the relations of C15.", "Exhaustive over kinds.",
        "As C15."),
    "C33": (
        "Two parts timed in every interleaving of starts and ends, with success and failure; "
        "the clock gives symbols, elapsed times are terms.",
        "Three parts, up to four calls.", "Overlapping calls of one part."),
    "C34": (
        "Rosters of up to five records of each status with symbolic values; every filter. The "
        "rows returned are compared with those that meet the filter by the order facts.",
        "Up to five records, three parameters (names not in order).",
        "Boundary of the ratio, an SSE of zero, an empty history."),
}
HEAD = open(HERE + "/tools/design_head.md").read()
TAIL = open(HERE + "/tools/design_tail.md").read()


def main():
    out = [HEAD.rstrip(), "", "## Properties", ""]
    seeds = {}
    for f in sorted(glob.glob(HERE + "/seeded/*/meta.json")):
        m = json.load(open(f))
        seeds.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(f)), m))
    known = [x.strip() for x in open(HERE + "/KNOWN_FINDINGS.txt") if x[:1] in "fk"]
    for line in open(HERE + "/properties.jsonl"):
        p = json.loads(line)
        i = p["id"]
        out += ["### %s %s" % (i, p["title"]), ""]
        if i not in core.CHECKS:
            out += ["Not addressed: " + NA.get(i, "no check has been built for it yet."), ""]
            continue
        how, bounds, why = NOTES[i]
        ev = HERE + "/evidence/%s.json" % i
        cost = ""
        if os.path.exists(ev):
            e = json.load(open(ev))
            c = e["coverage"]
            cost = " Cost: %d obligations on %d abstract paths through %d functions, %.0f s." % (
                c["distinct_nontrivial"], c["abstract_paths"], len(c["function_names"]),
                max(1, e["wall_s"]))
        out += ["*Analysed.* " + how, "", "*Oracle (rules).*", ""]
        out += ["- `%s`: %s" % x for x in core.CHECKS[i][1].items()]
        out += ["", "*Bounds.* %s%s" % (bounds, cost), "", "*Beyond tests.* " + why, ""]
        for k in known:
            if "property=%s " % i in k:
                out += ["*Defect.* " + k.replace("property=%s " % i, ""), ""]
    out += ["## Planted bugs", "",
            "Each is in `seeded/`, passes the 101 stable tests, and is caught by the check of "
            "its property. `tools/runseeds.py --all` shows what the other checks say.", "",
            "| planted bug | caught by | what it breaks | needs |", "|---|---|---|---|"]
    table = {}
    try:
        for x in open(HERE + "/tools/seeds/caught.txt"):
            w = x.split()
            table[w[0]] = w[1:]
    except FileNotFoundError:
        pass
    for i in sorted(seeds):
        for name, m in seeds[i]:
            out.append("| %s | %s | %s | %s |" % (
                name, ", ".join(table.get(name, [i])), m["what_it_breaks"].replace("|", "/"),
                m["needs"].replace("|", "/")))
    n = {}
    for f in sorted(glob.glob(HERE + "/selftest/corpus_*.py")):
        n[os.path.basename(f)] = len(re.findall(r"^\s*(?:bug|ok)\(", open(f).read(), re.M))
    out += ["", TAIL.rstrip(), ""]
    open(HERE + "/DESIGN.md", "w").write("\n".join(out))
    print(len(out), "lines")


main()
