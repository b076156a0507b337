"""Shared by the corpora."""

DE = "ade/de.py"
POP = "ade/population.py"
IND = "ade/individual.py"
REP = "ade/report.py"
HIST = "ade/history.py"
ABORT = "ade/abort.py"
CONS = "ade/constraints.py"
SPECS = "ade/specs.py"
UTIL = "ade/util.py"
ARGS = "ade/args.py"


class Corpus:
    def __init__(self):
        self.M = []

    def bug(self, id, props, *edits):
        self.M.append({"id": id, "kind": "bug", "props": props.split(), "edits": list(edits)})

    def ok(self, id, *edits):
        self.M.append({"id": id, "kind": "ok", "props": [], "edits": list(edits)})
