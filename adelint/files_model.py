"""
An abstract file system: which paths exist, as what, and what is done to
them.  The functions of the libraries that touch files are given here by
what they do to it.
"""

import posixpath
import re

from .absint import Const, Ext, ListO, NONE, PyRaise, Term, Tup
from .user_model import user_class

HOME = "/home/user"

PATH = '''
import os, shutil

class Path(object):
    def __init__(self, *parts):
        self.text = os.path.join(*[os.fspath(x) for x in parts])
    def __fspath__(self): return self.text
    def __str__(self): return self.text
    def __truediv__(self, other): return Path(self, other)
    def joinpath(self, *other): return Path(self, *other)
    def exists(self): return os.path.exists(self.text)
    def is_file(self): return os.path.isfile(self.text)
    def is_dir(self): return os.path.isdir(self.text)
    def expanduser(self): return Path(os.path.expanduser(self.text))
    def mkdir(self, mode=0, parents=False, exist_ok=False):
        if exist_ok and os.path.isdir(self.text): return
        os.mkdir(self.text)
    def iterdir(self): return [Path(self, x) for x in os.listdir(self.text)]
    def read_text(self): return open(self.text).read()
    def read_bytes(self): return open(self.text, "rb").read()
    def write_text(self, text): return open(self.text, "w").write(text)
    def write_bytes(self, text): return open(self.text, "wb").write(text)
    def open(self, mode="r"): return open(self.text, mode)
    def unlink(self, missing_ok=False): os.unlink(self.text)
    @property
    def name(self): return os.path.basename(self.text)
    @property
    def parent(self): return Path(os.path.dirname(self.text))
'''


class Unknown(Exception):
    pass


class Files:
    def __init__(self, it, content):
        self.it = it
        self.content = dict(content)    # path -> "file" or "dir"
        self.changes = []               # (what, path, did it exist, node)
        it.files = self

    def change(self, what, path, node):
        self.changes.append((what, path, self.content.get(path), node))

    def parent(self, path, node):
        up = posixpath.dirname(path)
        if self.content.get(up) != "dir":
            raise PyRaise("FileNotFoundError" if up not in self.content else
                          "NotADirectoryError", None, node)

    def write(self, path, node, what="write"):
        if self.content.get(path) == "dir":
            raise PyRaise("IsADirectoryError", None, node)
        self.parent(path, node)
        self.change(what, path, node)
        self.content[path] = "file"

    def mkdir(self, path, node):
        if path in self.content:
            raise PyRaise("FileExistsError", None, node)
        self.parent(path, node)
        self.change("mkdir", path, node)
        self.content[path] = "dir"

    def remove(self, path, node):
        if path not in self.content:
            raise PyRaise("FileNotFoundError", None, node)
        self.change("remove", path, node)
        for x in [x for x in self.content if x == path or x.startswith(path + "/")]:
            del self.content[x]

    def listing(self, path, node):
        if self.content.get(path) != "dir":
            raise PyRaise("FileNotFoundError", None, node)
        return sorted(posixpath.basename(x) for x in self.content
                      if posixpath.dirname(x) == path)


def text(it, v):
    """The path that a value stands for."""
    if isinstance(v, Const) and isinstance(v.v, str):
        return v.v
    i = it.inst(v)
    if i is not None and it.repo.find_method(i.ci, "__fspath__"):
        return text(it, it.call(it.getattr(v, "__fspath__"), [], {}, None))
    return None


def expand(p):
    return HOME + p[1:] if p == "~" or p.startswith("~/") else p


PURE = {
    "os.path.join": posixpath.join, "posixpath.join": posixpath.join,
    "os.path.basename": posixpath.basename, "os.path.dirname": posixpath.dirname,
    "os.path.expanduser": expand, "os.path.normpath": posixpath.normpath,
    "os.path.abspath": posixpath.normpath, "os.path.realpath": posixpath.normpath,
    "os.path.splitext": posixpath.splitext, "os.path.split": posixpath.split,
    "os.fspath": lambda x: x, "os.path.isabs": posixpath.isabs,
    "os.path.expandvars": lambda x: x.replace("$HOME", HOME).replace("${HOME}", HOME),
}
TESTS = {
    "os.path.exists": lambda f, p: p in f.content,
    "os.path.lexists": lambda f, p: p in f.content,
    "os.path.isfile": lambda f, p: f.content.get(p) == "file",
    "os.path.isdir": lambda f, p: f.content.get(p) == "dir",
    "os.path.islink": lambda f, p: False,
    "os.access": lambda f, p: p in f.content,
}


def ext():
    out = {}

    def pure(f):
        def run(it, args, kw, node):
            p = [text(it, x) for x in args]
            if kw or None in p:
                return it.fresh("path", *[it.T(x) for x in args])
            return it.from_literal(f(*p))
        return run
    for name, f in PURE.items():
        out[name] = pure(f)

    def test(f):
        def run(it, args, kw, node):
            p = text(it, args[0])
            if p is None:
                return it.fresh("exists", it.T(args[0]))
            return Const(f(it.files, p))
        return run
    for name, f in TESTS.items():
        out[name] = test(f)

    def copy(it, args, kw, node):
        a = list(args) + [kw[x] for x in ("src", "dst") if x in kw]
        s, d = text(it, a[0]), text(it, a[1])
        fs = it.files
        if s is not None and fs.content.get(s) != "file":
            raise PyRaise("FileNotFoundError", None, node)
        if d is None:
            fs.change("write", None, node)
            return a[1]
        if fs.content.get(d) == "dir" and s is not None and not node_is(node, "copyfile"):
            d = posixpath.join(d, posixpath.basename(s))
        fs.write(d, node)
        return a[1]
    for name in ("copy", "copy2", "copyfile"):
        out["shutil." + name] = copy

    def move(it, args, kw, node):
        s, d = text(it, args[0]), text(it, args[1])
        fs = it.files
        if fs.content.get(d) == "dir" and node_is(node, "move"):
            d = posixpath.join(d, posixpath.basename(s))
        fs.change("remove", s, node)
        fs.write(d, node)
        return NONE
    for name in ("os.rename", "os.replace", "shutil.move"):
        out[name] = move

    def copytree(it, args, kw, node):
        s, d = text(it, args[0]), text(it, args[1])
        fs = it.files
        if d is None or s is None:
            fs.change("write", None, node)
            return args[1]
        if d in fs.content:
            if not it.truth_const(kw.get("dirs_exist_ok")):
                raise PyRaise("FileExistsError", None, node)
        else:
            fs.mkdir(d, node)
        for x in fs.listing(s, node):
            if fs.content[posixpath.join(s, x)] == "file":
                fs.write(posixpath.join(d, x), node)
        return args[1]
    out["shutil.copytree"] = copytree

    def link(it, args, kw, node):
        d = text(it, args[1])
        if d in it.files.content:
            raise PyRaise("FileExistsError", None, node)
        it.files.write(d, node)
        return NONE
    out["os.link"] = out["os.symlink"] = link

    def mkdir(it, args, kw, node):
        p = text(it, args[0] if args else kw["path"])
        if it.files.content.get(p) == "dir" and it.truth_const(kw.get("exist_ok")):
            return NONE
        if p is None:
            it.files.change("mkdir", None, node)
        else:
            it.files.mkdir(p, node)
        return NONE
    out["os.mkdir"] = out["os.makedirs"] = mkdir

    def remove(it, args, kw, node):
        p = text(it, args[0])
        if p is None:
            it.files.change("remove", None, node)
        else:
            it.files.remove(p, node)
        return NONE
    for name in ("os.remove", "os.unlink", "os.rmdir", "shutil.rmtree", "os.removedirs"):
        out[name] = remove

    def listdir(it, args, kw, node):
        p = text(it, args[0])
        if p is None:
            return it.alloc(ListO(None, it.fresh("listdir")))
        return it.alloc(ListO([Const(x) for x in it.files.listing(p, node)]))
    out["os.listdir"] = listdir

    def stat(it, args, kw, node):
        p = text(it, args[0])
        if p not in it.files.content:
            raise PyRaise("FileNotFoundError", None, node)
        return it.fresh("stat")
    out["os.stat"] = out["os.lstat"] = out["os.path.getsize"] = out["os.path.getmtime"] = stat

    def open_(it, args, kw, node):
        p = text(it, args[0] if args else kw["file"])
        mode = args[1] if len(args) > 1 else kw.get("mode", Const("r"))
        mode = mode.v if isinstance(mode, Const) else "w"
        fs = it.files
        if p is None:
            if mode[0] in "wax":
                fs.change("write", None, node)
        elif "x" in mode:
            if p in fs.content:
                raise PyRaise("FileExistsError", None, node)
            fs.write(p, node)
        elif mode[0] in "wa" or "+" in mode:
            fs.write(p, node)
        elif fs.content.get(p) != "file":
            raise PyRaise("FileNotFoundError", None, node)
        return it.fresh("handle")
    out["builtins.open"] = out["io.open"] = out["open"] = open_

    def chmod(it, args, kw, node):
        it.files.change("chmod", text(it, args[0]), node)
        return NONE
    out["os.chmod"] = out["os.utime"] = out["os.truncate"] = out["shutil.copystat"] = chmod

    def path(it, args, kw, node):
        return it.call(user_class(PATH, "Path"), args, kw, node)
    out["pathlib.Path"] = path
    out["pathlib.Path.home"] = lambda it, args, kw, node: path(it, [Const(HOME)], {}, node)
    out["os.environ.get"] = lambda it, args, kw, node: (
        Const(HOME) if args[:1] == [Const("HOME")] else NONE)
    out["os.getenv"] = out["os.environ.get"]
    for f in ("match", "search", "fullmatch"):
        out["re." + f] = matcher(f)
    out["re.compile"] = lambda it, args, kw, node: it.call(
        user_class(PATTERN, "Pattern"), args[:1], {}, node)
    out["fnmatch.fnmatch"] = fn
    return out


def fn(it, args, kw, node):
    import fnmatch
    if all(isinstance(x, Const) for x in args):
        return Const(fnmatch.fnmatchcase(args[0].v, args[1].v))
    return it.fresh("fnmatch")


PATTERN = '''
import re

class Pattern(object):
    def __init__(self, text): self.text = text
    def match(self, x): return re.match(self.text, x)
    def search(self, x): return re.search(self.text, x)
    def fullmatch(self, x): return re.fullmatch(self.text, x)
'''


def matcher(f):
    """Constant patterns and texts; only whether there is a match, and the groups."""
    def run(it, args, kw, node):
        if all(isinstance(x, Const) and isinstance(x.v, str) for x in args[:2]):
            m = getattr(re, f)(args[0].v, args[1].v)
            if m is None:
                return NONE
            return Tup([Const(m.group(0))] + [Const(x) for x in m.groups()])
        return it.fresh("re." + f, *[it.T(x) for x in args])
    return run


def node_is(node, name):
    import ast
    f = getattr(node, "func", None)
    return isinstance(f, ast.Attribute) and f.attr == name or \
        isinstance(f, ast.Name) and f.id == name
