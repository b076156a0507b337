"""
Reads the analysed package: modules, classes, functions, imports.

Nothing here (or anywhere in adelint) imports or executes the analysed
code; everything is taken from its syntax trees.
"""

import ast
import os

REPO = os.environ.get("ADELINT_REPO", "/repo")

#: Files of the package that cannot be parsed as Python 3 (a Python 2
#: script that the project's own build also leaves out).
UNPARSED_OK = {"ade/scripts/viewer.py"}


class AnalysisBroken(Exception):
    """The analysis has lost something it needs: an anchor is gone."""


class FuncInfo:
    def __init__(self, node, module, cls=None, parent=None):
        self.node = node
        self.module = module
        self.cls = cls
        self.parent = parent
        self.name = getattr(node, "name", "<lambda>")
        prefix = ""
        if parent is not None:
            prefix = parent.qual + "."
        elif cls is not None:
            prefix = cls.name + "."
        self.qual = prefix + self.name
        self.inlinecb = False
        self.kind = "plain"      # plain, property, setter, deleter, classmethod, staticmethod
        self.prop = None
        self.unknown_decorators = []
        for dec in getattr(node, "decorator_list", []):
            text = ast.unparse(dec)
            if text.split(".")[-1] == "inlineCallbacks":
                self.inlinecb = True
            elif text in ("property", "functools.cached_property", "cached_property"):
                self.kind = "property"
                self.prop = self.name
            elif text.endswith(".setter"):
                self.kind = "setter"
                self.prop = text.rsplit(".", 1)[0]
            elif text.endswith(".deleter"):
                self.kind = "deleter"
                self.prop = text.rsplit(".", 1)[0]
            elif text == "classmethod":
                self.kind = "classmethod"
            elif text == "staticmethod":
                self.kind = "staticmethod"
            else:
                self.unknown_decorators.append(text)
        self.has_yield = _has_own_yield(node)
        self.is_generator = self.has_yield and not self.inlinecb
        self.locals, self.globals_, self.nonlocals = _own_locals(node)

    @property
    def path(self):
        return self.module.relpath

    def __repr__(self):
        return "<%s %s:%d>" % (self.qual, self.path, self.node.lineno)


def own_nodes(node):
    """
    Yields the nodes of a function (or module) body without descending
    into nested functions, lambdas or classes.
    """
    if isinstance(node, ast.Lambda):
        stack = [node.body]
    else:
        stack = list(node.body)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef,
                          ast.ClassDef, ast.Lambda)):
            continue
        stack.extend(ast.iter_child_nodes(n))


def _has_own_yield(node):
    return any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own_nodes(node))


def _own_locals(node):
    names, gl, nl = set(), set(), set()
    args = node.args
    for a in args.posonlyargs + args.args + args.kwonlyargs:
        names.add(a.arg)
    if args.vararg:
        names.add(args.vararg.arg)
    if args.kwarg:
        names.add(args.kwarg.arg)
    for n in own_nodes(node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            names.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            names.add(n.name)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                names.add((a.asname or a.name).split(".")[0])
        elif isinstance(n, ast.Global):
            gl.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nl.update(n.names)
    names -= gl | nl
    return names, gl, nl


class ClassInfo:
    def __init__(self, node, module):
        self.node = node
        self.module = module
        self.name = node.name
        self.bases = [ast.unparse(b) for b in node.bases]
        self.methods = {}
        self.props = {}      # name -> {'get','set','del'}
        self.attrs = {}      # class-level assignments
        self.inner = {}
        for st in node.body:
            if isinstance(st, ast.FunctionDef):
                fi = FuncInfo(st, module, cls=self)
                if fi.kind == "property":
                    self.props.setdefault(fi.prop, {})["get"] = fi
                elif fi.kind == "setter":
                    self.props.setdefault(fi.prop, {})["set"] = fi
                elif fi.kind == "deleter":
                    self.props.setdefault(fi.prop, {})["del"] = fi
                else:
                    self.methods[fi.name] = fi
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                if st.value is not None:
                    self.attrs[st.target.id] = st.value
            elif isinstance(st, ast.ClassDef):
                self.inner[st.name] = ClassInfo(st, module)
        # prop = property(fget, fset, fdel)
        for name, value in list(self.attrs.items()):
            if isinstance(value, ast.Call) and ast.unparse(value.func) == "property":
                slots = dict(zip(("get", "set", "del"), value.args))
                for kw in value.keywords:
                    key = {"fget": "get", "fset": "set", "fdel": "del"}.get(kw.arg)
                    if key:
                        slots[key] = kw.value
                entry = {}
                for key, expr in slots.items():
                    if isinstance(expr, ast.Name) and expr.id in self.methods:
                        entry[key] = self.methods[expr.id]
                if entry:
                    self.props[name] = entry
                    del self.attrs[name]

    def all_functions(self):
        for fi in self.methods.values():
            yield fi
        for d in self.props.values():
            for fi in d.values():
                yield fi

    def __repr__(self):
        return "<class %s>" % self.name


class ModuleInfo:
    def __init__(self, relpath, modname, text):
        self.relpath = relpath
        self.modname = modname
        self.text = text
        self.tree = ast.parse(text, relpath)
        self.functions = {}
        self.classes = {}
        self.assigns = {}
        self.imports = {}     # local name -> ('mod', dotted) | ('from', dotted, name)
        self.stars = []
        pkg = modname.split(".")
        is_pkg = relpath.endswith("__init__.py")
        self.package = pkg if is_pkg else pkg[:-1]
        for st in self.tree.body:
            self._top(st)

    def _top(self, st):
        if isinstance(st, ast.FunctionDef):
            self.functions[st.name] = FuncInfo(st, self)
        elif isinstance(st, ast.ClassDef):
            self.classes[st.name] = ClassInfo(st, self)
        elif isinstance(st, ast.Assign):
            for t in st.targets:
                if isinstance(t, ast.Name):
                    self.assigns[t.id] = st.value
        elif isinstance(st, ast.Import):
            for a in st.names:
                if a.asname:
                    self.imports[a.asname] = ("mod", a.name)
                else:
                    root = a.name.split(".")[0]
                    self.imports[root] = ("mod", root)
        elif isinstance(st, ast.ImportFrom):
            base = self.resolve_from(st)
            for a in st.names:
                if a.name == "*":
                    self.stars.append(base)
                else:
                    self.imports[a.asname or a.name] = ("from", base, a.name)
        elif isinstance(st, (ast.If, ast.Try)):
            for sub in st.body:
                self._top(sub)

    def resolve_from(self, st):
        if st.level:
            base = self.package[:len(self.package) - (st.level - 1)]
            return ".".join(base + ([st.module] if st.module else []))
        return st.module or ""


class Repo:
    """The analysed source tree."""

    def __init__(self, root=None):
        self.root = root or REPO
        self.modules = {}
        self.unparsed = []
        self._children = {}
        self._mro = {}
        self._props = {}
        self.funcs_by_node = {}
        pkgdir = os.path.join(self.root, "ade")
        if not os.path.isdir(pkgdir):
            raise AnalysisBroken("no package directory %s" % pkgdir)
        for dirpath, dirnames, filenames in os.walk(pkgdir):
            dirnames[:] = sorted(
                d for d in dirnames if d not in ("test", "tests", "__pycache__"))
            for fn in sorted(filenames):
                if not fn.endswith(".py"):
                    continue
                full = os.path.join(dirpath, fn)
                rel = os.path.relpath(full, self.root)
                mod = rel[:-3].replace(os.sep, ".")
                if mod.endswith(".__init__"):
                    mod = mod[:-9]
                with open(full, encoding="utf-8") as fh:
                    text = fh.read()
                try:
                    self.modules[mod] = ModuleInfo(rel, mod, text)
                except SyntaxError:
                    if rel not in UNPARSED_OK:
                        raise AnalysisBroken("cannot parse %s" % rel)
                    self.unparsed.append(rel)
        self._volatile = None
        self._helpers = None

    # -- lookups --------------------------------------------------------
    def core_modules(self):
        """Modules of the package proper (not the example scripts)."""
        return [m for n, m in sorted(self.modules.items())
                if not n.startswith("ade.examples")]

    def cls(self, name):
        found = [m.classes[name] for m in self.core_modules() if name in m.classes]
        if not found:
            raise AnalysisBroken("class %s not found in the package" % name)
        return found[0]

    def has_cls(self, name):
        return any(name in m.classes for m in self.core_modules())

    def method(self, clsname, name):
        fi = self.find_method(self.cls(clsname), name)
        if fi is None:
            raise AnalysisBroken("method %s.%s not found" % (clsname, name))
        return fi

    def prop(self, clsname, name, slot):
        for c in self.mro(self.cls(clsname)):
            if name in c.props:
                if slot in c.props[name]:
                    return c.props[name][slot]
        raise AnalysisBroken("property %s.%s (%s) not found" % (clsname, name, slot))

    def function(self, modname, name):
        m = self.modules.get(modname)
        if m is None or name not in m.functions:
            raise AnalysisBroken("function %s.%s not found" % (modname, name))
        return m.functions[name]

    def mro(self, ci):
        out = self._mro.get(id(ci))
        if out is None:
            out = self._mro[id(ci)] = self.mro_of(ci)
        return out

    def mro_of(self, ci):
        out, todo, seen = [], [ci], set()
        while todo:
            c = todo.pop(0)
            if id(c) in seen:
                continue
            seen.add(id(c))
            out.append(c)
            for b in c.bases:
                bc = self.resolve_class(c.module, b)
                if bc is not None:
                    todo.append(bc)
        return out

    def resolve_class(self, module, text):
        name = text.split(".")[-1]
        kind = self.resolve_name(module, text.split(".")[0])
        if kind and kind[0] == "class" and "." not in text:
            return kind[1]
        if kind and kind[0] == "module" and "." in text:
            return kind[1].classes.get(name)
        return None

    def find_method(self, ci, name):
        for c in self.mro(ci):
            if name in c.methods:
                return c.methods[name]
        return None

    def find_prop(self, ci, name):
        key = id(ci), name
        if key not in self._props:
            self._props[key] = self.prop_of(ci, name)
        return self._props[key]

    def prop_of(self, ci, name):
        merged = {}
        for c in reversed(self.mro(ci)):
            if name in c.methods or name in c.attrs:
                merged = {}
            if name in c.props:
                merged.update(c.props[name])
        return merged or None

    def find_attr(self, ci, name):
        for c in self.mro(ci):
            if name in c.attrs:
                return c, c.attrs[name]
        return None

    def resolve_name(self, module, name, seen=()):
        """
        What a global name means in a module: ('func', FuncInfo),
        ('class', ClassInfo), ('value', module, expr), ('module',
        ModuleInfo), ('ext', dotted) or None.
        """
        if (module.modname, name) in seen:
            return None
        seen = seen + ((module.modname, name),)
        if name in module.functions:
            return ("func", module.functions[name])
        if name in module.classes:
            return ("class", module.classes[name])
        if name in module.assigns:
            return ("value", module, name, module.assigns[name])
        if name in module.imports:
            imp = module.imports[name]
            if imp[0] == "mod":
                if imp[1] in self.modules:
                    return ("module", self.modules[imp[1]])
                return ("ext", imp[1])
            base, attr = imp[1], imp[2]
            full = base + "." + attr if base else attr
            if full in self.modules:
                return ("module", self.modules[full])
            if base in self.modules:
                return self.resolve_name(self.modules[base], attr, seen)
            return ("ext", full)
        for base in module.stars:
            if base in self.modules:
                r = self.resolve_name(self.modules[base], name, seen)
                if r:
                    return r
        return None

    # -- nested functions --------------------------------------------------
    def child(self, parent, node):
        key = id(node)
        if key not in self._children:
            self._children[key] = FuncInfo(node, parent.module, cls=parent.cls,
                                           parent=parent)
        return self._children[key]

    def local_class(self, module, node):
        key = id(node)
        if key not in self._children:
            self._children[key] = ClassInfo(node, module)
        return self._children[key]

    def all_functions(self, modules=None):
        """Every function of the package, nested ones included."""
        def walk(fi):
            yield fi
            for n in own_nodes(fi.node):
                if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                    yield from walk(self.child(fi, n))
        for m in (modules or self.core_modules()):
            for fi in m.functions.values():
                yield from walk(fi)
            for c in m.classes.values():
                todo = [c]
                while todo:
                    cc = todo.pop()
                    for fi in cc.all_functions():
                        yield from walk(fi)
                    todo.extend(cc.inner.values())

    # -- volatile attributes ------------------------------------------------
    CTOR = {"__init__", "__setstate__", "__new__"}

    def ctor_helpers(self):
        """Private methods that only constructors (or others of these) mention."""
        if self._helpers is None:
            mentions = {}
            for fi in self.all_functions():
                for n in own_nodes(fi.node):
                    x = n.attr if isinstance(n, ast.Attribute) else \
                        n.id if isinstance(n, ast.Name) else \
                        n.value if isinstance(n, ast.Constant) and isinstance(
                            n.value, str) else None
                    if x is not None:
                        mentions.setdefault(x, set()).add(fi)
            cands = [fi for fi in self.all_functions() if fi.parent is None
                     and fi.cls is not None and fi.name.startswith("_")
                     and not fi.name.endswith("__")]
            out = set()
            more = True
            while more:
                more = [fi for fi in cands if fi not in out and mentions.get(fi.name)
                        and all(g.parent is None and g.cls is not None
                                and (g.name in self.CTOR or g in out)
                                for g in mentions[fi.name])]
                out.update(more)
            self._helpers = out
        return self._helpers

    def reached_nodes(self, fi):
        """The nodes of a method and of the methods of its class it mentions."""
        todo, seen = [fi], set()
        while todo:
            f = todo.pop(0)
            if f in seen:
                continue
            seen.add(f)
            for n in own_nodes(f.node):
                yield n
                if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and \
                        fi.cls is not None:
                    m = self.find_method(fi.cls, n.attr)
                    if m is not None:
                        todo.append(m)

    def volatile_attrs(self):
        """
        Names of attributes stored to outside constructors: what such an
        attribute holds may differ after a suspension point.
        """
        if self._volatile is None:
            vol = set()
            for fi in self.all_functions():
                top = fi
                while top.parent is not None:
                    top = top.parent
                if fi is top and (top.name in self.CTOR or top in self.ctor_helpers()):
                    continue
                for n in own_nodes(fi.node):
                    if isinstance(n, ast.Attribute) and isinstance(
                            n.ctx, (ast.Store, ast.Del)):
                        vol.add(n.attr)
            self._volatile = vol
        return self._volatile

    def assigned_attrs(self, ci):
        """Names of attributes assigned through self in a class (its MRO)."""
        names = set()
        for c in self.mro(ci):
            for top in c.all_functions():
                todo = [top]
                while todo:
                    fi = todo.pop()
                    for n in own_nodes(fi.node):
                        if isinstance(n, ast.Attribute) and isinstance(
                                n.ctx, ast.Store):
                            if isinstance(n.value, ast.Name) and n.value.id in (
                                    "self", "cls"):
                                names.add(n.attr)
                        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                            todo.append(self.child(fi, n))
            for st in c.node.body:
                if isinstance(st, ast.Assign):
                    for t in st.targets:
                        if isinstance(t, ast.Name) and t.id == "__slots__":
                            try:
                                names.update(ast.literal_eval(st.value))
                            except ValueError:
                                pass
        return names
