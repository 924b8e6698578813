"""Mechanical rewriting of the repository's source for symbolic execution.

What runs is the parse tree of the current source with these changes only:

* `logger.<...>(...)` statements, `warnings.warn(...)` statements and
  docstrings are dropped (DROPPED in the evidence)
* every for / while loop is driven by loops.Loop (native when its extent is
  known, else summarised by an inductive closed form)
* list displays and comprehensions build seqs.PList
* assignments to attributes of instances of the repository's classes are
  journalled; handlers re-raise the exceptions of the engine itself
* imports of libraries get the contracts of shims.py, relative imports the
  rewritten modules; builtins get symbolic versions
"""
import ast
import builtins
import os
import types

from . import core
from .core import C, MISSING, Unsupported
from .liveness import mark
from .loops import Loop, genuine, UNBOUND
from .seqs import PList

DROPPED = ["calls of the module logger", "warnings.warn statements",
           "docstrings"]


def repo_dir():
    return os.path.join(os.environ.get("PV_REPO", "/repo"), "properimage")


def is_drop(node):
    if not (isinstance(node, ast.Expr)):
        return False
    v = node.value
    if isinstance(v, ast.Constant) and isinstance(v.value, str):
        return True
    if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute):
        r = v.func.value
        if isinstance(r, ast.Name) and (
                r.id == "logger" or
                r.id == "warnings" and v.func.attr == "warn"):
            return True
    return False


class Names(ast.NodeVisitor):
    """Names a block binds (nested scopes excluded)."""

    def __init__(self):
        self.out = []

    def add(self, n):
        if n not in self.out:
            self.out.append(n)

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.add(n.id)

    def visit_FunctionDef(self, n):
        self.add(n.name)

    visit_AsyncFunctionDef = visit_ClassDef = visit_FunctionDef

    def visit_Lambda(self, n):
        pass

    def visit_ListComp(self, n):
        pass

    visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

    def visit_Import(self, n):
        for a in n.names:
            self.add((a.asname or a.name).split(".")[0])

    visit_ImportFrom = visit_Import

    def visit_ExceptHandler(self, n):
        if n.name:
            self.add(n.name)
        self.generic_visit(n)


def bound(stmts):
    v = Names()
    for s in stmts:
        v.visit(s)
    return [n for n in v.out if not n.startswith("pvL")]


def name(n, store=False):
    return ast.Name(n, ast.Store() if store else ast.Load())


def call(f, *args):
    if isinstance(f, str):
        parts = f.split(".")
        f = name(parts[0])
        for p in parts[1:]:
            f = ast.Attribute(f, p, ast.Load())
    return ast.Call(f, list(args), [])


def const(v):
    return ast.Constant(v)


def assign(n, v):
    return ast.Assign([name(n, True)], v)


class Rewriter(ast.NodeTransformer):
    def __init__(self):
        self.n = 0
        self.loops = []        # stack: loop variable names, None = function
        self.pre = None        # statements to put before the current one
        self.dropped = 0
        self.in_class = False
        self.in_lambda = 0

    @staticmethod
    def dead(n, names):
        h = getattr(n, "_pv_live", None)
        return ast.Tuple([const(x) for x in names
                          if h is not None and x not in h], ast.Load())

    def fresh(self, p):
        self.n += 1
        return f"pv{p}{self.n}"

    # -- blocks
    def block(self, stmts):
        out = []
        for s in stmts:
            if is_drop(s):
                self.dropped += 1
                continue
            saved, self.pre = self.pre, []
            r = self.visit(s)
            pre, self.pre = self.pre, saved
            out += pre
            if isinstance(r, list):
                out += r
            elif r is not None:
                out.append(r)
        return out or [ast.Pass()]

    def visit_Module(self, n):
        n.body = self.block(n.body)
        return n

    def visit_FunctionDef(self, n):
        for d in n.args.defaults + [k for k in n.args.kw_defaults if k]:
            pass
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.args = self.visit(n.args)
        n.returns = None
        saved, self.loops = self.loops, []
        cls, self.in_class = self.in_class, False
        lam, self.in_lambda = self.in_lambda, 0
        mark(n)
        n.body = self.block(n.body)
        self.loops, self.in_class, self.in_lambda = saved, cls, lam
        return n

    def visit_arg(self, n):
        n.annotation = None
        return n

    def visit_ClassDef(self, n):
        saved, self.loops = self.loops, []
        cls, self.in_class = self.in_class, True
        n.body = self.block(n.body)
        n.decorator_list = [name("_pv_class")] + n.decorator_list
        self.loops, self.in_class = saved, cls
        return n

    def visit_AnnAssign(self, n):
        if self.in_class and isinstance(n.target, ast.Name):
            n.annotation = const("object")
            if n.value is not None:
                n.value = self.visit(n.value)
            return n
        if n.value is None:
            return None
        return self.visit(ast.Assign([n.target], n.value))

    def visit_If(self, n):
        n.test = self.visit(n.test)
        n.body = self.block(n.body)
        n.orelse = self.block(n.orelse) if n.orelse else []
        return n

    def visit_With(self, n):
        n.items = [self.visit(i) for i in n.items]
        n.body = self.block(n.body)
        return n

    def visit_Try(self, n):
        n.body = self.block(n.body)
        for h in n.handlers:
            if h.type is not None:
                h.type = self.visit(h.type)
            if not h.name:
                h.name = self.fresh("E")
            h.body = [ast.Expr(call("_pv_.caught", name(h.name)))] + \
                self.block(h.body)
        n.orelse = self.block(n.orelse) if n.orelse else []
        n.finalbody = self.block(n.finalbody) if n.finalbody else []
        return n

    def visit_Match(self, n):
        raise Unsupported("match statement")

    def visit_AsyncFunctionDef(self, n):
        raise Unsupported("async")

    # -- loops
    def loop_frame(self, lv, names, make, head, body, orelse):
        # names: bound by the loop
        def restore(cond):
            return [ast.If(cond, [
                assign(v, call(f"{lv}.get", const(v))) for v in names] or
                [ast.Pass()], [])] if names else []
        notnat = ast.UnaryOp(ast.Not(), call(f"{lv}.native"))
        exc = self.fresh("X")
        inner = ast.Try(head + body, [ast.ExceptHandler(
            name("BaseException"), exc,
            [ast.Expr(call(f"{lv}.exc", name(exc), call("_pv_locals")))])],
            [], [])
        w = ast.While(call(f"{lv}.step", call("_pv_locals")),
                      restore(notnat) + [inner], [])
        out = [assign(lv, make), w] + restore(
            ast.UnaryOp(ast.Not(), call(f"{lv}.native")))
        if self.loops and self.loops[-1]:
            up = self.loops[-1]
            out.append(ast.If(ast.Attribute(name(lv), "returned", ast.Load()),
                              [ast.Expr(call(f"{up}.ret", ast.Attribute(
                                  name(lv), "value", ast.Load()))),
                               ast.Continue()], []))
        elif not self.toplevel():
            out.append(ast.If(ast.Attribute(name(lv), "returned", ast.Load()),
                              [ast.Return(ast.Attribute(
                                  name(lv), "value", ast.Load()))], []))
        if orelse:
            out.append(ast.If(ast.UnaryOp(ast.Not(), ast.Attribute(
                name(lv), "broke", ast.Load())), orelse, []))
        return out

    def toplevel(self):
        return self.in_class or self.in_module

    in_module = True

    def visit_For(self, n):
        it = self.visit(n.iter)
        lv = self.fresh("L")
        names = bound([ast.Assign([n.target], const(0))] + n.body)
        dead = self.dead(n, names)
        self.loops.append(lv)
        body = self.block(n.body)
        self.loops.pop()
        orelse = self.block(n.orelse) if n.orelse else []
        head = [ast.Assign([n.target], call(f"{lv}.elem"))]
        return self.loop_frame(
            lv, names, call("_pv_.loop", it, ast.Tuple(
                [const(x) for x in names], ast.Load()), const(False), dead),
            head, body, orelse)

    def visit_While(self, n):
        lv = self.fresh("L")
        names = bound(n.body)
        dead = self.dead(n, names)
        self.loops.append(lv)
        saved, self.pre = self.pre, []
        test = self.visit(n.test)
        if self.pre:
            raise Unsupported("comprehension in a while condition")
        self.pre = saved
        body = self.block(n.body)
        self.loops.pop()
        orelse = self.block(n.orelse) if n.orelse else []
        # native truth of constants
        head = [ast.If(ast.UnaryOp(ast.Not(), call(f"{lv}.cond", test)),
                       [ast.Expr(call(f"{lv}.brk", const(True))),
                        ast.Continue()], [])]
        return self.loop_frame(
            lv, names, call("_pv_.loop", const(None), ast.Tuple(
                [const(x) for x in names], ast.Load()), const(True), dead),
            head, body, orelse)

    def visit_Break(self, n):
        return [ast.Expr(call(f"{self.loops[-1]}.brk")), ast.Continue()]

    def visit_Continue(self, n):
        return n

    def visit_Return(self, n):
        v = self.visit(n.value) if n.value else const(None)
        if self.loops:
            return [ast.Expr(call(f"{self.loops[-1]}.ret", v)),
                    ast.Continue()]
        return ast.Return(v)

    # -- expressions
    def visit_Lambda(self, n):
        self.in_lambda += 1
        n.args = self.visit(n.args)
        n.body = self.visit(n.body)
        self.in_lambda -= 1
        return n

    def visit_List(self, n):
        n.elts = [self.visit(e) for e in n.elts]
        if isinstance(n.ctx, ast.Load):
            return call("_pv_.mklist", n)
        return n

    def visit_Dict(self, n):
        self.generic_visit(n)
        return call("_pv_.mkdict", n)

    def comp(self, n, elt):
        if self.in_lambda or self.in_class or self.pre is None:
            # left to CPython: only for iterables of known extent
            self.generic_visit(n)
            if isinstance(n, ast.ListComp):
                return call("_pv_.mklist", n)
            return n
        f, r = self.fresh("C"), self.fresh("R")
        it = self.visit(n.generators[0].iter)
        saved, self.loops = self.loops, []
        mod, self.in_module = self.in_module, False
        pre0, self.pre = self.pre, []
        body = [ast.Expr(ast.Call(ast.Attribute(name(r), "append",
                                                ast.Load()), [elt], []))]
        for g in reversed(n.generators):
            for c in reversed(g.ifs):
                body = [ast.If(c, body, [])]
            body = [ast.For(g.target, g.iter, body, [])]
        body[0].iter = name("pvIt")
        # names of an outer scope are read through the closure
        stm = self.block(body)
        self.in_module = mod
        self.loops = saved
        self.pre = pre0
        fd = ast.FunctionDef(
            f, ast.arguments([], [ast.arg("pvIt")], None, [], [], None, []),
            [assign(r, call("_pv_.mklist", ast.List([], ast.Load())))] + stm +
            [ast.Return(name(r))], [], None)
        self.pre.append(fd)
        return call(f, it)

    def visit_ListComp(self, n):
        return self.comp(n, n.elt)

    def visit_GeneratorExp(self, n):
        return self.comp(n, n.elt)


class FnRewriter(Rewriter):
    def visit_FunctionDef(self, n):
        mod, self.in_module = self.in_module, False
        r = super().visit_FunctionDef(n)
        self.in_module = mod
        return r


class Hooks:
    """What the rewritten code calls as _pv_."""

    @staticmethod
    def loop(it, names, is_while=False, dead=()):
        return Loop(it, names, is_while, dead)

    @staticmethod
    def mklist(x):
        return PList(list(x))

    @staticmethod
    def mkdict(x):
        return PDict(x)

    @staticmethod
    def caught(e):
        if not isinstance(e, Exception) and not isinstance(
                e, (KeyboardInterrupt, SystemExit)):
            raise e
        if not genuine(e):
            raise Unsupported(f"engine: {type(e).__name__}: {e}") from e


class PDict(dict):
    """A dict display; changing it inside of a summarised loop is refused."""

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.serial = next(C.serial)

    def _w(self):
        for j in C.journals:
            if self.serial < j.start:
                raise Unsupported("dict changed in a summarised loop")

    def __setitem__(self, k, v):
        self._w()
        super().__setitem__(k, v)

    def __delitem__(self, k):
        self._w()
        super().__delitem__(k)

    def update(self, *a, **k):
        self._w()
        super().update(*a, **k)

    def setdefault(self, *a):
        self._w()
        return super().setdefault(*a)

    def pop(self, *a):
        self._w()
        return super().pop(*a)

    __hash__ = None


def pv_class(cls):
    """Journalled attributes for a class of the repository."""
    if issubclass(cls, BaseException):
        return cls
    if not any(getattr(b, "_pv_journal", False) for b in cls.__mro__[1:]):
        def __setattr__(self, n, v):
            core.touch_attr(self, n)
            object.__setattr__(self, n, v)

        def __delattr__(self, n):
            core.touch_attr(self, n)
            object.__delattr__(self, n)
        if "__setattr__" in cls.__dict__:
            raise Unsupported("class with its own __setattr__")
        cls.__setattr__, cls.__delattr__ = __setattr__, __delattr__
        old = cls.__init__

        cls._pv_journal = True
        new0 = cls.__new__

        def __new__(c, *a, **k):
            o = object.__new__(c)
            o.__dict__["_pv_serial"] = next(C.serial)
            return o
        if new0 is object.__new__:
            cls.__new__ = staticmethod(__new__)
    return cls


class World:
    """The rewritten modules of one symbolic run."""

    def __init__(self, shims, sym_builtins):
        self.mods = {}
        self.shims = shims
        self.bt = dict(vars(builtins))
        self.bt.update(sym_builtins)
        self.bt["__import__"] = self.imp
        self.trees = {}
        self.dropped = 0

    def module(self, nm):
        if nm in self.mods:
            return self.mods[nm]
        path = os.path.join(repo_dir(), nm + ".py")
        src = open(path).read()
        tree = ast.parse(src)
        rw = FnRewriter()
        tree = rw.visit(tree)
        self.dropped += rw.dropped
        ast.fix_missing_locations(tree)
        m = types.ModuleType("properimage." + nm)
        m.__package__ = "properimage"
        m.__file__ = path
        d = m.__dict__
        d["__builtins__"] = self.bt
        d["_pv_"] = Hooks
        d["_pv_class"] = pv_class
        d["_pv_locals"] = builtins.locals
        self.mods[nm] = m
        code = compile(tree, f"<pv:{nm}.py>", "exec")
        exec(code, d)
        return m

    def package(self):
        m = types.ModuleType("properimage")
        world = self

        class Pkg:
            def __getattr__(self, n):
                if os.path.exists(os.path.join(repo_dir(), n + ".py")):
                    return world.module(n)
                if n in ("__all__", "__path__", "__spec__"):
                    raise AttributeError(n)
                for mod in ("single_image", "operations"):
                    mm = world.module(mod)
                    if hasattr(mm, n):
                        return getattr(mm, n)
                raise Unsupported(f"properimage.{n}")
        return Pkg()

    def imp(self, nm, globals=None, locals=None, fromlist=(), level=0):
        if level or nm == "properimage" or nm.startswith("properimage."):
            base = nm.replace("properimage", "", 1).lstrip(".") \
                if not level else nm
            if base:
                return self.module(base)
            return self.package()
        return self.shims(nm, fromlist)
