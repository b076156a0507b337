#!/usr/bin/env python3
"""
Rewrites the whole repository mechanically, without changing what it does,
and runs every check on the result: each must stay quiet.

    selftest/mechanical.py [--jobs N] [--keep DIR] [--files de,population] [transform ...]
"""
import ast
import copy
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("SELFTEST_REPO", "/repo")


class T(ast.NodeTransformer):
    """
    A rewrite. Statements are given to I{stmt}, which returns a list of
    statements or None for no change; the bodies are rewritten first.
    """
    def __init__(self):
        self.n = 0
        self.cls = []
        self.fn = []

    def new(self, stem):
        self.n += 1
        return "%s_%d" % (stem, self.n)

    def body(self, stmts):
        out = []
        for s in stmts:
            s = self.visit(s)
            r = self.stmt(s) if self.fn else None
            out.extend([s] if r is None else r)
        return out

    def stmt(self, s):
        return None

    def seq(self, stmts):
        return stmts

    def generic_visit(self, node):
        for f, v in ast.iter_fields(node):
            if isinstance(v, list) and v and isinstance(v[0], ast.stmt):
                new = self.body(v)
                setattr(node, f, self.seq(new) if self.fn else new)
            elif isinstance(v, list):
                setattr(node, f, [self.visit(x) if isinstance(x, ast.AST) else x for x in v])
            elif isinstance(v, ast.AST):
                setattr(node, f, self.visit(v))
        return node

    def visit_FunctionDef(self, node):
        self.fn.append(node)
        self.generic_visit(node)
        self.fn.pop()
        return node

    def visit_ClassDef(self, node):
        self.cls.append(node)
        fn, self.fn = self.fn, []
        self.generic_visit(node)
        self.fn = fn
        self.cls.pop()
        return node


def name(x):
    return ast.Name(id=x, ctx=ast.Load())


def assign(x, value):
    return ast.Assign(targets=[ast.Name(id=x, ctx=ast.Store())], value=value)


def pure(x):
    return all(isinstance(y, (ast.Name, ast.Attribute, ast.Constant, ast.Subscript, ast.expr_context,
                              ast.Index, ast.UnaryOp, ast.unaryop)) for y in ast.walk(x))


class Plain(T):
    "reprinted, without docstrings and comments"
    def visit_FunctionDef(self, node):
        T.visit_FunctionDef(self, node)
        if ast.get_docstring(node) is not None:
            node.body = node.body[1:] or [ast.Pass()]
        return node


class Invert(T):
    "if c: A else: B -> if not c: B else: A"
    def stmt(self, s):
        if isinstance(s, ast.If) and s.orelse:
            return [ast.If(test=ast.UnaryOp(op=ast.Not(), operand=s.test), body=s.orelse,
                           orelse=s.body)]


class ForWhile(T):
    "for x in y: A -> while with iter and next"
    def stmt(self, s):
        if isinstance(s, ast.For) and not s.orelse:
            it = self.new("it")
            get = ast.Try(
                body=[ast.Assign(targets=[s.target], value=ast.Call(
                    func=name("next"), args=[name(it)], keywords=[]))],
                handlers=[ast.ExceptHandler(type=name("StopIteration"), name=None,
                                            body=[ast.Break()])], orelse=[], finalbody=[])
            return [assign(it, ast.Call(func=name("iter"), args=[s.iter], keywords=[])),
                    ast.While(test=ast.Constant(value=True), body=[get] + s.body, orelse=[])]


class WhileTrue(T):
    "while c: A -> while True: if not c: break; A"
    def stmt(self, s):
        if isinstance(s, ast.While) and not s.orelse and not (
                isinstance(s.test, ast.Constant)):
            return [ast.While(test=ast.Constant(value=True), body=[
                ast.If(test=ast.UnaryOp(op=ast.Not(), operand=s.test), body=[ast.Break()],
                       orelse=[])] + s.body, orelse=[])]


class ReturnTemp(T):
    "return e -> x = e; return x"
    def stmt(self, s):
        if isinstance(s, ast.Return) and s.value is not None and not isinstance(
                s.value, (ast.Name, ast.Constant)):
            x = self.new("result")
            return [assign(x, s.value), ast.Return(value=name(x))]


class ArgTemps(T):
    "f(a, b) as a statement or the value of one -> x = a; y = b; f(x, y)"
    def stmt(self, s):
        if isinstance(s, (ast.Expr, ast.Return, ast.Assign)) and isinstance(s.value, ast.Call):
            c = s.value
        elif isinstance(s, (ast.Expr, ast.Assign)) and isinstance(s.value, ast.Yield) and \
                isinstance(s.value.value, ast.Call):
            c = s.value.value
        else:
            return
        if not pure(c.func) or any(isinstance(a, ast.Starred) for a in c.args):
            return
        if isinstance(c.func, ast.Name) and c.func.id == "super":
            return
        if any(isinstance(y, (ast.Yield, ast.Await)) for a in c.args for y in ast.walk(a)):
            return
        out = []
        for k, a in enumerate(c.args):
            if isinstance(a, (ast.Constant, ast.Name)):
                continue
            x = self.new("arg")
            out.append(assign(x, a))
            c.args[k] = name(x)
        for kw in c.keywords:
            if kw.arg and not isinstance(kw.value, (ast.Constant, ast.Name)):
                x = self.new("arg")
                out.append(assign(x, kw.value))
                kw.value = name(x)
        return out + [s]


class YieldTemp(T):
    "x = yield f() -> d = f(); x = yield d"
    def stmt(self, s):
        if isinstance(s, (ast.Expr, ast.Assign)) and isinstance(s.value, ast.Yield) and \
                isinstance(s.value.value, ast.Call):
            x = self.new("d")
            r = [assign(x, s.value.value)]
            s.value.value = name(x)
            return r + [s]


class CompLoop(T):
    "x = [e for a in b if c] -> a loop that appends"
    def stmt(self, s):
        if isinstance(s, (ast.Assign, ast.Return)) and isinstance(
                s.value, (ast.ListComp, ast.SetComp, ast.DictComp)):
            c = s.value
            x = self.new("got")
            # The names of a comprehension are its own
            names = {}
            for g in c.generators:
                for y in ast.walk(g.target):
                    if isinstance(y, ast.Name):
                        names[y.id] = self.new(y.id)
            first = c.generators[0].iter
            for y in ast.walk(c):
                if isinstance(y, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp,
                                  ast.GeneratorExp)) and y is not c:
                    return
            inFirst = set(id(y) for y in ast.walk(first))
            for y in ast.walk(c):
                if isinstance(y, ast.Name) and y.id in names and id(y) not in inFirst:
                    y.id = names[y.id]
            if isinstance(c, ast.ListComp):
                init = ast.List(elts=[], ctx=ast.Load())
                b = [ast.Expr(value=ast.Call(func=ast.Attribute(
                    value=name(x), attr="append", ctx=ast.Load()), args=[c.elt], keywords=[]))]
            elif isinstance(c, ast.SetComp):
                init = ast.Call(func=name("set"), args=[], keywords=[])
                b = [ast.Expr(value=ast.Call(func=ast.Attribute(
                    value=name(x), attr="add", ctx=ast.Load()), args=[c.elt], keywords=[]))]
            else:
                init = ast.Dict(keys=[], values=[])
                b = [ast.Assign(targets=[ast.Subscript(value=name(x), slice=c.key,
                                                       ctx=ast.Store())], value=c.value)]
            for g in reversed(c.generators):
                for t in reversed(g.ifs):
                    b = [ast.If(test=t, body=b, orelse=[])]
                b = [ast.For(target=g.target, iter=g.iter, body=b, orelse=[])]
            s.value = name(x)
            return [assign(x, init)] + b + [s]


class NestAnd(T):
    "if a and b: A -> if a: if b: A"
    def stmt(self, s):
        if isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.BoolOp) and \
                isinstance(s.test.op, ast.And):
            b = s.body
            for t in reversed(s.test.values):
                b = [ast.If(test=t, body=b, orelse=[])]
            return b


class Ternary(T):
    "x = a if c else b -> if c: x = a else: x = b"
    def stmt(self, s):
        if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.IfExp):
            e = s.value
            a, b = copy.deepcopy(s), copy.deepcopy(s)
            a.value, b.value = e.body, e.orelse
            return [ast.If(test=e.test, body=[a], orelse=[b])]


class IfTernary(T):
    "if c: x = a else: x = b -> x = a if c else b; also for return"
    def stmt(self, s):
        if isinstance(s, ast.If) and len(s.body) == len(s.orelse) == 1:
            a, b = s.body[0], s.orelse[0]
            if type(a) is type(b) and isinstance(a, (ast.Assign, ast.Return)) and a.value and \
                    b.value and not any(isinstance(y, ast.Yield) for y in ast.walk(s)):
                if isinstance(a, ast.Assign) and (
                        len(a.targets) > 1 or
                        ast.dump(a.targets[0]) != ast.dump(b.targets[0]) if len(b.targets) == 1
                        else True):
                    return
                a.value = ast.IfExp(test=s.test, body=a.value, orelse=b.value)
                return [a]


class Flip(T):
    "a < b -> b > a"
    def visit_Compare(self, node):
        self.generic_visit(node)
        ops = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE,
               ast.Eq: ast.Eq, ast.NotEq: ast.NotEq, ast.Is: ast.Is, ast.IsNot: ast.IsNot}
        if len(node.ops) == 1 and type(node.ops[0]) in ops and pure(node.left) and \
                pure(node.comparators[0]):
            return ast.Compare(left=node.comparators[0], ops=[ops[type(node.ops[0])]()],
                               comparators=[node.left])
        return node


class NotOp(T):
    "a is not b -> not a is b; a not in b -> not a in b; != too"
    def visit_Compare(self, node):
        self.generic_visit(node)
        ops = {ast.IsNot: ast.Is, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.In: ast.NotIn}
        if len(node.ops) == 1 and type(node.ops[0]) in ops:
            return ast.UnaryOp(op=ast.Not(), operand=ast.Compare(
                left=node.left, ops=[ops[type(node.ops[0])]()], comparators=node.comparators))
        return node


def leaves(stmts):
    return bool(stmts) and isinstance(stmts[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


class ElseAfter(T):
    "if c: return; A -> if c: return else: A"
    def seq(self, stmts):
        for k, s in enumerate(stmts):
            if isinstance(s, ast.If) and not s.orelse and leaves(s.body) and k + 1 < len(stmts):
                s.orelse = self.seq(stmts[k + 1:])
                return stmts[:k + 1]
        return stmts


class NoElse(T):
    "if c: return else: A -> if c: return; A"
    def stmt(self, s):
        if isinstance(s, ast.If) and s.orelse and leaves(s.body):
            r = s.orelse
            s.orelse = []
            return [s] + r


class LambdaDef(T):
    "lambda -> a function defined before the statement"
    def stmt(self, s):
        if not isinstance(s, (ast.Expr, ast.Assign, ast.Return)):
            return
        out = []
        outer = self

        class L(ast.NodeTransformer):
            def visit_Lambda(self, node):
                x = outer.new("func")
                out.append(ast.FunctionDef(name=x, args=node.args, body=[
                    ast.Return(value=node.body)], decorator_list=[], type_params=[]))
                return name(x)

            def visit_ListComp(self, node):
                return node
            visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

        s = L().visit(s)
        return out + [s]


class Rename(T):
    "other names of local variables"
    def visit_FunctionDef(self, node):
        if self.fn:
            return node
        params, stores, keep = set(), set(), set()
        for y in ast.walk(node):
            if isinstance(y, ast.arguments):
                params.update(a.arg for a in y.args + y.kwonlyargs + y.posonlyargs)
                params.update(a.arg for a in (y.vararg, y.kwarg) if a)
            elif isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store):
                stores.add(y.id)
            elif isinstance(y, (ast.Global, ast.Nonlocal)):
                keep.update(y.names)
            elif isinstance(y, (ast.Import, ast.ImportFrom)):
                keep.update((a.asname or a.name).split(".")[0] for a in y.names)
            elif isinstance(y, ast.FunctionDef) and y is not node:
                stores.add(y.name)
            elif isinstance(y, ast.ClassDef):
                keep.add(y.name)
            elif isinstance(y, ast.Call) and isinstance(y.func, ast.Name) and \
                    y.func.id in ("locals", "eval", "exec"):
                return node
        names = stores - params - keep
        for y in ast.walk(node):
            if isinstance(y, ast.Name) and y.id in names:
                y.id += "Local"
            elif isinstance(y, ast.ExceptHandler) and y.name in names:
                y.name += "Local"
            elif isinstance(y, ast.FunctionDef) and y is not node and y.name in names:
                y.name += "Local"
        return node


class Extract(T):
    "each method calls another one that has its body"
    skip = ("__new__", "__init_subclass__", "__getattr__", "__setattr__")

    def visit_ClassDef(self, node):
        taken = set(s.name for s in node.body if isinstance(s, ast.FunctionDef))
        out = []
        for s in node.body:
            out.append(s)
            if not isinstance(s, ast.FunctionDef) or s.name in self.skip:
                continue
            deco = [ast.unparse(d) for d in s.decorator_list]
            if any(d != "defer.inlineCallbacks" for d in deco):
                continue
            if any(isinstance(y, ast.Call) and isinstance(y.func, ast.Name) and
                   y.func.id in ("super", "locals") for y in ast.walk(s)):
                continue
            a = s.args
            if a.posonlyargs or a.kwonlyargs or not a.args:
                continue
            if s.name.startswith("__") and not s.name.endswith("__"):
                continue
            own = node.name.lower()
            new = "_%s_%s_do" % (s.name.strip("_"), own)
            inner = ast.FunctionDef(
                name=new, args=ast.arguments(
                    posonlyargs=[], args=[ast.arg(arg=x.arg) for x in a.args],
                    vararg=a.vararg, kwonlyargs=[], kw_defaults=[], kwarg=a.kwarg, defaults=[]),
                body=s.body, decorator_list=s.decorator_list, type_params=[])
            call = ast.Call(
                func=ast.Attribute(value=name(a.args[0].arg), attr=new, ctx=ast.Load()),
                args=[name(x.arg) for x in a.args[1:]] +
                ([ast.Starred(value=name(a.vararg.arg), ctx=ast.Load())] if a.vararg else []),
                keywords=[ast.keyword(arg=None, value=name(a.kwarg.arg))] if a.kwarg else [])
            s.body = [ast.Return(value=call)]
            s.decorator_list = []
            out.append(inner)
        node.body = out
        return node


class Tail(T):
    "the second half of each plain method of four statements or more -> another method"
    def visit_ClassDef(self, node):
        out = []
        for s in node.body:
            out.append(s)
            if not isinstance(s, ast.FunctionDef) or s.decorator_list or not s.args.args or \
                    s.args.args[0].arg != "self":
                continue
            b = s.body[1:] if ast.get_docstring(s) is not None else s.body
            if len(b) < 4:
                continue
            if any(isinstance(y, (ast.Yield, ast.YieldFrom, ast.Global, ast.Nonlocal, ast.Import,
                                  ast.ImportFrom, ast.Delete)) or
                   isinstance(y, ast.Name) and y.id in ("super", "locals") for y in ast.walk(s)):
                continue
            k = len(b) // 2
            head, tail = b[:k], b[k:]
            # Local names certainly bound before; nested functions of the
            # head must not see names bound in the tail
            bound = [a.arg for a in s.args.args]
            bound += [a.arg for a in (s.args.vararg, s.args.kwarg) if a]
            maybe = set()
            for h in head:
                for y in ast.walk(h):
                    if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store):
                        maybe.add(y.id)
                    elif isinstance(y, ast.FunctionDef):
                        maybe.add(y.name)
                    elif isinstance(y, ast.ExceptHandler) and y.name:
                        maybe.add(y.name)
            sure = set()
            for h in head:
                if isinstance(h, ast.Assign):
                    for t in h.targets:
                        for y in ast.walk(t):
                            if isinstance(y, ast.Name):
                                sure.add(y.id)
                elif isinstance(h, ast.FunctionDef):
                    sure.add(h.name)
            used = set(y.id for t in tail for y in ast.walk(t) if isinstance(y, ast.Name))
            stored = set(y.id for t in tail for y in ast.walk(t)
                         if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store))
            stored |= set(y.name for t in tail for y in ast.walk(t)
                          if isinstance(y, ast.FunctionDef))
            free = set(y.id for h in head for z in ast.walk(h)
                       if isinstance(z, (ast.FunctionDef, ast.Lambda)) for y in ast.walk(z)
                       if isinstance(y, ast.Name))
            if free & stored or (maybe - sure) & used:
                continue
            need = bound[1:] + sorted((sure & used) - set(bound))
            new = "_%s_%s_rest" % (s.name.strip("_"), node.name.lower())
            out.append(ast.FunctionDef(
                name=new, args=ast.arguments(
                    posonlyargs=[], args=[ast.arg(arg=x) for x in ["self"] + need], vararg=None,
                    kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=[]),
                body=tail, decorator_list=[], type_params=[]))
            s.body = head + [ast.Return(value=ast.Call(
                func=ast.Attribute(value=name("self"), attr=new, ctx=ast.Load()),
                args=[name(x) for x in need], keywords=[]))]
        node.body = out
        return node


class AttrTemp(T):
    "self.f(...) as a statement -> g = self.f; g(...)"
    def stmt(self, s):
        if isinstance(s, (ast.Expr, ast.Assign, ast.Return)) and isinstance(s.value, ast.Call) \
                and isinstance(s.value.func, ast.Attribute) and \
                isinstance(s.value.func.value, ast.Name) and s.value.func.value.id == "self":
            x = self.new("method")
            r = [assign(x, s.value.func)]
            s.value.func = name(x)
            return r + [s]


class TestTemp(T):
    "if c: -> x = c; if x:"
    def stmt(self, s):
        if isinstance(s, ast.If) and not any(isinstance(y, ast.Yield) for y in ast.walk(s.test)):
            x = self.new("test")
            r = [assign(x, s.test)]
            s.test = name(x)
            return r + [s]


class Unpack(T):
    "a, b = f() -> x = f(); a = x[0]; b = x[1] for displays only"
    def stmt(self, s):
        if isinstance(s, ast.Assign) and isinstance(s.value, ast.Tuple) and \
                len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and \
                len(s.value.elts) == len(s.targets[0].elts):
            xs = [self.new("part") for _ in s.value.elts]
            return [assign(x, v) for x, v in zip(xs, s.value.elts)] + [
                ast.Assign(targets=[t], value=name(x)) for t, x in zip(s.targets[0].elts, xs)]


class Chain(T):
    "a = b = e -> b = e; a = b"
    def stmt(self, s):
        if isinstance(s, ast.Assign) and len(s.targets) > 1:
            x = self.new("value")
            return [assign(x, s.value)] + [
                ast.Assign(targets=[t], value=name(x)) for t in s.targets]


class Aug(T):
    "x += 1 -> x = x + 1 for numbers that are written out"
    def stmt(self, s):
        if isinstance(s, ast.AugAssign) and isinstance(s.value, ast.Constant) and \
                isinstance(s.value.value, (int, float)) and isinstance(s.target, (
                    ast.Name, ast.Attribute)):
            t = copy.deepcopy(s.target)
            t.ctx = ast.Load()
            return [ast.Assign(targets=[s.target], value=ast.BinOp(left=t, op=s.op,
                                                                   right=s.value))]


class TryElse(T):
    "with and finally untouched; if True: around each try"
    def stmt(self, s):
        if isinstance(s, (ast.Try, ast.With)):
            return [ast.If(test=ast.Constant(value=True), body=[s], orelse=[])]


ALL = [Plain, Invert, ForWhile, WhileTrue, ReturnTemp, ArgTemps, YieldTemp, CompLoop, NestAnd,
       Ternary, IfTernary, Flip, NotOp, ElseAfter, NoElse, LambdaDef, Rename, Extract, Tail,
       AttrTemp, TestTemp, Unpack, Chain, Aug, TryElse]


def rewrite(text, cls):
    t = cls()
    m = t.visit(ast.parse(text))
    ast.fix_missing_locations(m)
    return ast.unparse(m) + "\n"


def files():
    for path in sorted(glob.glob(REPO + "/ade/**/*.py", recursive=True)):
        rel = os.path.relpath(path, REPO)
        if "/test" in rel:
            continue
        try:
            ast.parse(open(path).read())
        except SyntaxError:
            # of another version of the language
            continue
        yield rel


def make(cls, dest, only=None):
    shutil.copytree(REPO + "/ade", dest + "/ade", ignore=shutil.ignore_patterns("__pycache__"))
    for rel in files():
        if only and os.path.basename(rel)[:-3] not in only:
            continue
        text = open(REPO + "/" + rel).read()
        new = rewrite(text, cls)
        compile(new, rel, "exec")
        open(dest + "/" + rel, "w").write(new)


def main(argv):
    jobs, keep, only = 6, None, None
    names = []
    argv = list(argv)
    while argv:
        a = argv.pop(0)
        if a == "--jobs":
            jobs = int(argv.pop(0))
        elif a == "--keep":
            keep = argv.pop(0)
        elif a == "--files":
            only = argv.pop(0).split(",")
        else:
            names.append(a)
    checks = [c["property"] for c in json.load(open(VERIF + "/MANIFEST.json"))["checks"]]
    bad = 0
    for cls in ALL:
        if names and cls.__name__ not in names:
            continue
        tmp = keep + "/" + cls.__name__ if keep else tempfile.mkdtemp(prefix="mech-")
        try:
            if keep:
                shutil.rmtree(tmp, ignore_errors=True)
                os.makedirs(tmp)
            make(cls, tmp, only)

            def one(c):
                env = dict(os.environ, ADELINT_REPO=tmp, ADELINT_EVIDENCE=tmp + "/ev-" + c)
                r = subprocess.run([sys.executable, "-m", "adelint", c], cwd=VERIF, env=env,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                return c, r.returncode, r.stdout

            with ThreadPoolExecutor(jobs) as ex:
                got = [x for x in ex.map(one, checks) if x[1]]
            print("%-10s %s" % (cls.__name__, "quiet" if not got else
                                " ".join("%s:%d" % x[:2] for x in got)))
            for c, code, text in got:
                bad += 1
                print("\n".join("    " + x[:300] for x in text.strip().split("\n")[-6:]))
            sys.stdout.flush()
        finally:
            if not keep:
                shutil.rmtree(tmp, ignore_errors=True)
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
