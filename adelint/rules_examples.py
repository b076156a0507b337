"""C25: the extraction of the example files."""

from itertools import product

from .absint import Const, Ext, Fun, ListO, NONE
from .core import check
from .files_model import HOME, Files, ext
from .model import config
from .rules_history import failure, where

C25 = {
    "kept": "no existing file is written to or removed",
    "inside": "everything written is in the examples directory",
    "extracted": "an example file that does not exist yet is extracted",
}
SOURCE = "/lib/ade/examples"
TARGET = HOME + "/ade-examples"
NAMES = ("voc.py", "data.py", "goldstein-price.c")


def resource(what):
    def run(it, args, kw, node):
        if what == "listdir":
            return it.alloc(ListO([Const(x) for x in it.files.listing(SOURCE, node)]))
        return Const(SOURCE)
    return run


@check("C25", C25)
def c25(ctx):
    fi = ctx.repo.function("ade.scripts.examples", "extract")
    here = where(fi)
    handlers = ext()
    handlers["pkg_resources.resource_filename"] = resource("filename")
    handlers["pkg_resources.resource_listdir"] = resource("listdir")
    cfg = config(ext=handlers, defer_fail=False, known_arrays=True, max_while=20, max_loop=20,
                 max_seconds=20, opaque={"Messenger.__call__": "none"})
    for target in ("dir", None):
        for kinds in product(("file", "dir", None), repeat=len(NAMES)):
            if target == "dir" or not any(kinds):
                one(ctx, cfg, fi, here, target, kinds)


def one(ctx, cfg, fi, here, target, kinds):
    exist = [n for n, k in zip(NAMES, kinds) if k]
    key = "%s; %s" % ("the directory exists" if target else "no directory",
                      ", ".join("%s is a %s" % (n, k) for n, k in zip(NAMES, kinds) if k)
                      or "no file exists")

    def driver(it):
        content = {"/": "dir", "/home": "dir", HOME: "dir", "/lib": "dir", "/lib/ade": "dir",
                   SOURCE: "dir", HOME + "/voc.py": "file", HOME + "/data.py": "file"}
        for n in NAMES + ("README.txt", "__init__.py", "voc.png"):
            content["%s/%s" % (SOURCE, n)] = "file"
        content[SOURCE + "/sub.py"] = "dir"
        if target:
            content[TARGET] = target
            content[TARGET + "/notes.txt"] = "file"
            for n, k in zip(NAMES, kinds):
                if k:
                    content["%s/%s" % (TARGET, n)] = k
        Files(it, content)
        it.before = dict(content)
        it.call(Fun(fi, None, None), [], {}, None)
        return NONE
    a = ctx.explore("extract: " + key, cfg, driver)
    ctx.need(a.paths, "no path for: " + key)
    for p in a.paths:
        fs = p.it.files
        made = {TARGET}
        for what, path, was, node in fs.changes:
            line = " (line %d)" % node.lineno if node is not None else ""
            if path is None:
                ctx.ob("inside", key, False, here, "%s: %s to a path that cannot be told from "
                       "the source%s" % (key, what, line), p)
                continue
            mine = path in made or path not in p.it.before
            ctx.ob("kept", key, (was is None or mine) and what != "remove", here,
                   "%s: %s of the existing %s%s" % (key, what, path, line), p)
            inside = path == TARGET and what == "mkdir" or path.startswith(TARGET + "/") and \
                path.rsplit("/", 1)[0] in made
            ctx.ob("inside", key, inside, here, "%s: %s of %s%s" % (key, what, path, line), p)
            if what == "mkdir":
                made.add(path)
        ctx.ob("kept", key, all(fs.content.get(x) == k for x, k in p.it.before.items()), here,
               "%s: something that existed is gone or has become something else" % key, p)
        missing = [n for n in NAMES if "%s/%s" % (TARGET, n) not in fs.content]
        good = p.outcome == "return" and not missing
        ctx.ob("extracted", key, good, here, "%s: %s" % (
            key, "not extracted: " + ", ".join(missing) if p.outcome == "return" else failure(p)),
            p)
