"""Path-sensitive abstract interpreter for the Python subset psion is written in."""

from __future__ import annotations

import ast
import os
import sys

from .ctx import Ctx, NUMERIC, tag_of_const
from .values import *
from .values import T_ANY, T_BOOL, T_BYTES, T_INT, T_JSON, T_STR, T_NUM  # noqa: F401

sys.setrecursionlimit(20000)

OK = None
BREAK = ("break",)
CONTINUE = ("continue",)


class Mangle(ast.NodeTransformer):
    """Private names of classes (`__x`) get the names Python gives them."""

    def __init__(self):
        self.cls = None

    def name(self, n):
        if self.cls and n and n.startswith("__") and not n.endswith("__"):
            return f"_{self.cls.lstrip('_')}{n}"
        return n

    def visit_ClassDef(self, n):
        n.name = self.name(n.name)
        n.bases = [self.visit(b) for b in n.bases]
        n.decorator_list = [self.visit(b) for b in n.decorator_list]
        old, self.cls = self.cls, n.name
        n.body = [self.visit(b) for b in n.body]
        self.cls = old
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == "dict" and len(n.args) == 1 and isinstance(n.args[0], ast.ListComp):
            n.args[0] = ast.copy_location(ast.GeneratorExp(n.args[0].elt, n.args[0].generators), n.args[0])
        return n

    def visit_For(self, n):
        self.generic_visit(n)
        if isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id in ("list", "tuple") and len(n.iter.args) == 1 \
                and not n.iter.keywords and copy_loop(n) is not None:
            n.iter = n.iter.args[0]
        return n

    def visit_FunctionDef(self, n):
        n.name = self.name(n.name)
        return self.generic_visit(n)

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Name(self, n):
        n.id = self.name(n.id)
        return n

    def visit_Attribute(self, n):
        n.attr = self.name(n.attr)
        return self.generic_visit(n)

    def visit_arg(self, n):
        n.arg = self.name(n.arg)
        return n

    def visit_keyword(self, n):
        n.arg = self.name(n.arg)
        return self.generic_visit(n)


# ---------------------------------------------------------------- loops that only fill a mapping or a list
def super_store(s):
    """The call of a statement super().__setitem__(key, value)."""
    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr == "__setitem__" \
            and isinstance(s.value.func.value, ast.Call) and isinstance(s.value.func.value.func, ast.Name) and s.value.func.value.func.id == "super" \
            and not s.value.func.value.args and len(s.value.args) == 2 and not s.value.keywords:
        return s.value
    return None


def copy_loop(st):
    """Is the body of this loop free of effects except on entries of local mappings?  Returns their names, or None."""
    r = getattr(st, "_copy", 0)
    if r != 0:
        return r
    names, temps = set(), set()

    def pure(e):
        return not any(isinstance(x, (ast.NamedExpr, ast.Await, ast.Yield, ast.YieldFrom)) for x in ast.walk(e))

    def ok(s):
        if isinstance(s, (ast.Pass, ast.Continue)):
            return True
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
            return True
        if isinstance(s, ast.If):
            return pure(s.test) and all(ok(x) for x in s.body + s.orelse)
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and pure(s.value):
            t = s.targets[0]
            if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and pure(t.slice):
                names.add(t.value.id)
                return True
            if isinstance(t, ast.Name):
                temps.add(t.id)
                return True
        c = super_store(s)
        if c is not None and all(pure(x) for x in c.args):
            names.add("self")
            return True
        return False
    r = None
    if not st.orelse and all(ok(s) for s in st.body) and names and not names & temps:
        loads = {x.id for s in st.body for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}
        stored = sum(isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) for s in st.body for x in ast.walk(s))
        reads = sum(isinstance(x, ast.Name) and x.id in names for s in st.body for x in ast.walk(s))
        if reads == stored and loads is not None:
            r = names
    st._copy = r
    return r


STDLIB = "_psa_stdlib"


class Program:
    """The parsed source tree. Parsing happens once per check, from the files."""

    def __init__(self, root, package="psion"):
        self.root = root
        self.package = package
        self.asts = {}
        self.paths = {}
        self.sources = {}
        base = os.path.join(root, package)
        for d, _, files in sorted(os.walk(base)):
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, root)[:-3].replace(os.sep, ".")
                is_pkg = rel.endswith(".__init__")
                name = rel[: -len(".__init__")] if is_pkg else rel
                with open(p, encoding="utf-8") as fh:
                    src = fh.read()
                self.asts[name] = Mangle().visit(ast.parse(src, p))
                self.paths[name] = (p, is_pkg)
                self.sources[name] = src
        # directories without __init__ are namespace packages
        for name in list(self.asts):
            parts = name.split(".")
            for i in range(1, len(parts)):
                q = ".".join(parts[:i])
                if q not in self.asts:
                    self.asts[q] = ast.parse("")
                    self.paths[q] = (os.path.join(root, *parts[:i]), True)
                    self.sources[q] = ""
        self.nfuncs = sum(
            isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda))
            for t in self.asts.values()
            for n in ast.walk(t)
        )
        # the parts of the standard library that are given as source
        p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "stdlib.py")
        with open(p, encoding="utf-8") as fh:
            src = fh.read()
        self.asts[STDLIB] = Mangle().visit(ast.parse(src, p))
        self.paths[STDLIB] = (p, False)
        self.sources[STDLIB] = src


def _assigned(node):
    """Names bound in the scope of a function node (not in nested scopes)."""
    out, glob, nonl = set(), set(), set()
    has_yield = [False]

    def target(t):
        if isinstance(t, ast.Name):
            out.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                target(e)
        elif isinstance(t, ast.Starred):
            target(t.value)

    def walk(n, top=False):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) and not top:
            out.add(n.name)
            for d in n.decorator_list:
                walk(d)
            return
        if isinstance(n, ast.Lambda) and not top:
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            # only walrus targets leak
            for m in ast.walk(n):
                if isinstance(m, ast.NamedExpr):
                    target(m.target)
            walk(n.generators[0].iter)
            return
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            has_yield[0] = True
        if isinstance(n, ast.Assign):
            for t in n.targets:
                target(t)
        elif isinstance(n, (ast.AugAssign, ast.For, ast.AsyncFor)):
            target(n.target)
        elif isinstance(n, ast.AnnAssign):
            target(n.target)
        elif isinstance(n, ast.NamedExpr):
            target(n.target)
        elif isinstance(n, (ast.With, ast.AsyncWith)):
            for i in n.items:
                if i.optional_vars is not None:
                    target(i.optional_vars)
        elif isinstance(n, ast.ExceptHandler):
            if n.name:
                out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add((a.asname or a.name).split(".")[0])
        elif isinstance(n, ast.Global):
            glob.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
        elif isinstance(n, ast.Delete):
            for t in n.targets:
                target(t)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)):
            if n.name:
                out.add(n.name)
        elif isinstance(n, ast.MatchMapping):
            if n.rest:
                out.add(n.rest)
        for c in ast.iter_child_nodes(n):
            walk(c)

    if isinstance(node, ast.Lambda):
        for m in ast.walk(node.body):
            if isinstance(m, ast.NamedExpr):
                target(m.target)
        return frozenset(out), frozenset(), frozenset(), False
    for s in node.body:
        walk(s)
    return frozenset(out - glob - nonl), frozenset(glob), frozenset(nonl), has_yield[0]


class Interp:
    def __init__(self, program):
        self.program = program
        self.ctx = None
        self.modules = {}
        self.exc_stack = []
        self.building = []
        self.extclasses = {}
        self.depth = 0
        self.scope_cache = {}
        self.coverage = set()
        from . import models

        self.models = models
        models.install(self)

    # =================================================================== import
    def import_module(self, name):
        if name in self.modules:
            return self.modules[name]
        if name not in self.program.asts:
            return ExtRef(name)
        if "." in name:
            parent = self.import_module(name.rsplit(".", 1)[0])
            if name in self.modules:
                return self.modules[name]
        else:
            parent = None
        path, is_pkg = self.program.paths[name]
        m = AModule(name, path)
        m.attrs["__name__"] = name
        m.attrs["__file__"] = path
        self.modules[name] = m
        fr = Frame(m, "module")
        fr.vars = m.attrs
        self.push(path, "<module>", fr)
        try:
            self.drive(self.exec_block(self.program.asts[name].body, fr))
        finally:
            self.pop()
        if isinstance(parent, AModule):
            parent.attrs[name.rsplit(".", 1)[1]] = m
        return m

    def resolve_from(self, fr, node):
        if not node.level:
            return node.module
        name = fr.module.name
        is_pkg = self.program.paths[name][1]
        parts = name.split(".")
        drop = node.level - (1 if is_pkg else 0)
        base = parts[: len(parts) - drop] if drop else parts
        if node.module:
            base = base + node.module.split(".")
        return ".".join(base)

    # =================================================================== stack
    def push(self, path, qual, fr):
        self.ctx.stack.append((self.rel(path), qual, fr))
        self.depth += 1
        if self.depth > 150:
            self.depth -= 1
            self.ctx.stack.pop()
            raise Budget("recursion")

    def pop(self):
        self.ctx.stack.pop()
        self.depth -= 1

    def rel(self, p):
        r = os.path.dirname(self.program.root.rstrip("/"))
        return os.path.relpath(p, r) if p else "?"

    def drive(self, g):
        try:
            next(g)
        except StopIteration as s:
            return s.value
        raise Unsupported("yield outside a generator")

    # =================================================================== raising
    def exc_class(self, name):
        return self.models.exc_class(self, name)

    def make_exc(self, cls, *args):
        if isinstance(cls, str):
            cls = self.exc_class(cls)
        o = AObj(cls)
        o.payload = tuple(args)
        return o

    def throw(self, cls, *args, implicit=True):
        e = PyExc(self.make_exc(cls, *args), self.ctx.where())
        e.implicit = implicit
        raise e

    def may_raise(self, what, args, exc, *msg):
        """Decides whether an external operation fails on these operands."""
        if self.ctx.choose("raises:" + what, args, [False, True]):
            self.throw(exc, *msg)

    # =================================================================== statements
    def exec_block(self, body, fr):
        for st in body:
            sig = yield from self.exec(st, fr)
            if sig is not None:
                return sig
        return None

    def exec(self, st, fr):
        fr.line = getattr(st, "lineno", fr.line)
        self.ctx.step()
        m = getattr(self, "x_" + type(st).__name__, None)
        if m is None:
            raise Unsupported(type(st).__name__)
        r = m(st, fr)
        if r is not None and hasattr(r, "send"):
            r = yield from r
        return r

    def x_Pass(self, st, fr):
        return None

    def x_Break(self, st, fr):
        return BREAK

    def x_Continue(self, st, fr):
        return CONTINUE

    def x_Global(self, st, fr):
        return None

    x_Nonlocal = x_Global

    def x_Expr(self, st, fr):
        if isinstance(st.value, ast.Constant):
            return None
        if isinstance(st.value, (ast.Yield, ast.YieldFrom)):
            return self.x_yield(st.value, fr, None)
        v = self.eval(st.value, fr)
        if isinstance(v, ACoro):
            self.ctx.event("dropped-coroutine", name=v.name)
        return None

    def x_yield(self, y, fr, bind):
        if isinstance(y, ast.Yield):
            v = self.eval(y.value, fr) if y.value is not None else None
            sent = yield v
            r = sent
        else:
            src = self.ctx.n(self.eval(y.value, fr))
            if isinstance(src, AGen):
                r = yield from src.it
            else:
                for item in self.iterate(src):
                    yield item
                r = None
        if bind is not None:
            bind(r)
        return None

    def x_Assign(self, st, fr):
        if isinstance(st.value, (ast.Yield, ast.YieldFrom)):
            return self.x_yield(
                st.value, fr, lambda v: [self.assign(t, v, fr) for t in st.targets] and None
            )
        v = self.eval(st.value, fr)
        for t in st.targets:
            self.assign(t, v, fr)
        return None

    def x_AnnAssign(self, st, fr):
        if fr.kind == "class" and isinstance(st.target, ast.Name):
            fr.vars.setdefault("__annotations_order__", []).append(st.target.id)
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, fr), fr)
        return None

    def x_AugAssign(self, st, fr):
        if isinstance(st.target, ast.Name):
            cur = self.load_name(st.target.id, fr)
            self.assign(st.target, self.inplace(st.op, cur, self.eval(st.value, fr)), fr)
        elif isinstance(st.target, ast.Attribute):
            o = self.eval(st.target.value, fr)
            name = self.mangle(st.target.attr, fr)
            cur = self.getattr(o, name)
            self.setattr(o, name, self.inplace(st.op, cur, self.eval(st.value, fr)))
        else:
            o = self.eval(st.target.value, fr)
            k = self.eval(st.target.slice, fr)
            cur = self.getitem(o, k)
            self.setitem(o, k, self.inplace(st.op, cur, self.eval(st.value, fr)))
        return None

    def inplace(self, op, a, b):
        a = self.ctx.n(a)
        if isinstance(a, AList) and isinstance(op, ast.Add):
            self.ctx.touch(a, "+=")
            a.items.extend(self.iterate(b))
            return a
        if isinstance(a, ASet) and not a.frozen and isinstance(op, (ast.BitOr, ast.Sub, ast.BitAnd)):
            r = self.models.binop(self, op, a, b)
            if isinstance(r, ASet):
                self.ctx.touch(a, "augmented assignment")
                a.items = r.items
                return a
            return r
        if isinstance(a, ADict) and isinstance(op, ast.BitOr):
            self.models.dict_update(self, a, b)
            return a
        return self.models.binop(self, op, a, b)

    def x_Return(self, st, fr):
        if isinstance(st.value, (ast.Yield, ast.YieldFrom)):
            box = []
            return self._return_yield(st, fr, box)
        return ("return", self.eval(st.value, fr) if st.value is not None else None)

    def _return_yield(self, st, fr, box):
        yield from self.x_yield(st.value, fr, box.append)
        return ("return", box[0])

    def x_If(self, st, fr):
        if self.truth(self.eval(st.test, fr)):
            return (yield from self.exec_block(st.body, fr))
        return (yield from self.exec_block(st.orelse, fr))

    def x_While(self, st, fr):
        n = 0
        while self.truth(self.eval(st.test, fr)):
            n += 1
            if n > 600:
                raise Budget("while")
            sig = yield from self.exec_block(st.body, fr)
            if sig is BREAK:
                return None
            if sig is CONTINUE or sig is None:
                continue
            return sig
        return (yield from self.exec_block(st.orelse, fr))

    def guarded_loop(self, st, it, fr):
        """A loop over a mapping whose keys are only partly known, which copies entries to other mappings."""
        names = copy_loop(st)
        if names is None:
            return False
        src = self.models.guarded_view(self, it)
        if src is None:
            return False
        d, kind = src
        targets = []
        for n in names:
            try:
                o = self.ctx.n(self.load_name(n, fr))
            except PyExc:
                return False
            if isinstance(o, AObj) and isinstance(o.payload, ADict):
                o = o.payload
            if isinstance(o, AObj) or not isinstance(o, ADict) or o is d:
                return False
            targets.append(o)
        dropped = False
        for k, v, guard in list(self.models.dict_guarded_items(self, d)):
            before = [dict(o.entries) for o in targets]
            for o in targets:
                self.ctx.touch(o, "loop")
            self.assign(st.target, (k, v) if kind == "items" else k, fr)
            self.drive(self.exec_block(st.body, fr))
            changed = False
            for o, b in zip(targets, before):
                for kk, e in list(o.entries.items()):
                    if b.get(kk) is not e:
                        changed = True
                        if guard is not None:
                            o.entries[kk] = type(e)(e.key, e.val, guard)
            dropped = dropped or not changed
        st_ = [x for s in st.body for x in ast.walk(s) if isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Subscript)
               or super_store(x) is not None]
        if kind == "items" and isinstance(st.target, ast.Tuple) and len(st.target.elts) == 2 and len(st_) == 1 and not dropped:
            a, b = st.target.elts
            k_, v_ = (st_[0].targets[0].slice, st_[0].value) if isinstance(st_[0], ast.Assign) else super_store(st_[0]).args
            if all(isinstance(x, ast.Name) for x in (a, b, k_, v_)) and a.id == k_.id and b.id == v_.id:
                targets[0].sources = list(targets[0].sources) + [s for s in d.sources if s not in targets[0].sources]
                targets[0].removed = set(d.removed)
        return True

    def bytes_loop(self, st, it, fr):
        """A loop over the bytes of an opaque value that collects texts or builds a number."""
        if len(st.body) != 1 or st.orelse:
            return False
        src = self.models.bytes_iter(self, it)
        if src is None:
            return False
        s = st.body[0]
        elt = Term("byte", (src,), T_INT)
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) \
                and s.value.func.attr == "append" and isinstance(s.value.func.value, ast.Name) and len(s.value.args) == 1:
            n = s.value.func.value.id
            acc = self.ctx.n(self.load_name(n, fr))
            if isinstance(acc, AList) and not acc.items:
                self.assign(st.target, elt, fr)
                self.store_name(n, Term("map", (self.eval(s.value.args[0], fr), src), frozenset({"list"})), fr)
                return True
        if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and isinstance(s.op, ast.Add):
            n, e = s.target.id, s.value
        elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            n, e = s.targets[0].id, s.value
            if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add) and isinstance(e.left, ast.Name) and e.left.id == n \
                    and not any(isinstance(x, ast.Name) and x.id == n for x in ast.walk(e.right)):
                e = e.right
            else:
                if self.ctx.n(self.load_name(n, fr)) == 0 and isinstance(st.target, ast.Name) and \
                        ast.unparse(e).replace(" ", "").replace("(", "").replace(")", "") in [
                            x.format(n=n, b=st.target.id) for x in ("{n}<<8|{b}", "{n}*256+{b}", "{n}<<8+{b}", "{b}|{n}<<8",
                                                                    "{b}+{n}*256", "256*{n}+{b}")]:
                    self.store_name(n, self.models.int_from_bytes(self, src), fr)
                    return True
                return False
        else:
            return False
        acc = self.ctx.n(self.load_name(n, fr))
        if acc == "" and isinstance(acc, str):
            self.assign(st.target, elt, fr)
            v = self.eval(e, fr)
            self.store_name(n, self.models.join_map(self, Term("map", (v, src), frozenset({"list"}))), fr)
            return True
        return False

    def x_For(self, st, fr):
        it = self.eval(st.iter, fr)
        if self.guarded_loop(st, self.ctx.n(it), fr) or self.bytes_loop(st, self.ctx.n(it), fr):
            return None
        for item in self.iterate(it):
            self.assign(st.target, item, fr)
            sig = yield from self.exec_block(st.body, fr)
            if sig is BREAK:
                return None
            if sig is CONTINUE or sig is None:
                continue
            return sig
        return (yield from self.exec_block(st.orelse, fr))

    x_AsyncFor = x_For

    def x_Raise(self, st, fr):
        if st.exc is None:
            if not self.exc_stack:
                self.throw("RuntimeError", "No active exception to reraise")
            raise PyExc(self.exc_stack[-1], self.ctx.where())
        e = self.eval(st.exc, fr)
        e = self.as_exception(e)
        if st.cause is not None:
            cause = self.eval(st.cause, fr)
            if cause is not None:
                self.ctx.touch(e, ".__cause__")
                e.attrs["__cause__"] = self.as_exception(cause)
        raise PyExc(e, self.ctx.where())

    def as_exception(self, e):
        e = self.ctx.n(e)
        if isinstance(e, ExtRef):
            c = self.models.ext_class(self, e.path)
            if c is not None:
                e = c
        if isinstance(e, AClass):
            e = self.call(e, [], {})
        if isinstance(e, AObj) and e.cls.issub(self.exc_class("BaseException")):
            return e
        if isinstance(e, Term):
            self.ctx.note_wild("raise of unknown value")
            return self.make_exc("Exception", e)
        self.throw("TypeError", "exceptions must derive from BaseException")

    def match_exc(self, exc, types):
        types = self.ctx.n(types)
        if isinstance(types, tuple):
            return any(self.match_exc(exc, t) for t in types)
        if isinstance(types, ExtRef):
            c = self.models.ext_class(self, types.path)
            if c is None:
                return False
            types = c
        if isinstance(types, AClass):
            return exc.cls.issub(types)
        return False

    def x_Try(self, st, fr):
        sig = None
        try:
            try:
                sig = yield from self.exec_block(st.body, fr)
            except PyExc as e:
                for h in st.handlers:
                    if h.type is None or self.match_exc(e.obj, self.eval(h.type, fr)):
                        if h.name:
                            self.store_name(h.name, e.obj, fr)
                        self.exc_stack.append(e.obj)
                        try:
                            sig = yield from self.exec_block(h.body, fr)
                        finally:
                            self.exc_stack.pop()
                            if h.name:
                                self.del_name(h.name, fr)
                        break
                else:
                    raise
            else:
                if sig is None:
                    sig = yield from self.exec_block(st.orelse, fr)
        except PyExc as e:
            if st.finalbody:
                self.exc_stack.append(e.obj)
                try:
                    fin = yield from self.exec_block(st.finalbody, fr)
                finally:
                    self.exc_stack.pop()
                if fin is not None:
                    return fin
            raise
        if st.finalbody:
            fin = yield from self.exec_block(st.finalbody, fr)
            if fin is not None:
                return fin
        return sig

    def x_TryStar(self, st, fr):
        sig = None
        try:
            try:
                sig = yield from self.exec_block(st.body, fr)
            except PyExc as e:
                group = e.obj.cls.issub(self.exc_class("BaseExceptionGroup"))
                left = list(self.models.iterate(self, e.obj.payload[1])) if group else [e.obj]
                for h in st.handlers:
                    types = self.eval(h.type, fr)
                    mine = [x for x in left if self.match_exc(x, types)]
                    if not mine:
                        continue
                    left = [x for x in left if not any(x is y for y in mine)]
                    g = self.make_exc("ExceptionGroup", e.obj.payload[0] if group else "", AList(mine))
                    if h.name:
                        self.store_name(h.name, g, fr)
                    self.exc_stack.append(g)
                    try:
                        sig = yield from self.exec_block(h.body, fr)
                    finally:
                        self.exc_stack.pop()
                        if h.name:
                            self.del_name(h.name, fr)
                if left:
                    if not group:
                        raise
                    raise PyExc(self.make_exc("ExceptionGroup", e.obj.payload[0], AList(left)), e.origin)
            else:
                if sig is None:
                    sig = yield from self.exec_block(st.orelse, fr)
        except PyExc as e:
            if st.finalbody:
                fin = yield from self.exec_block(st.finalbody, fr)
                if fin is not None:
                    return fin
            raise
        if st.finalbody:
            fin = yield from self.exec_block(st.finalbody, fr)
            if fin is not None:
                return fin
        return sig

    def x_With(self, st, fr):
        return self._with(st, 0, fr)

    x_AsyncWith = x_With

    def _with(self, st, i, fr):
        if i == len(st.items):
            return (yield from self.exec_block(st.body, fr))
        item = st.items[i]
        cm = self.eval(item.context_expr, fr)
        is_async = isinstance(st, ast.AsyncWith)
        v = self.models.cm_enter(self, cm, is_async)
        if item.optional_vars is not None:
            self.assign(item.optional_vars, v, fr)
        try:
            sig = yield from self._with(st, i + 1, fr)
        except PyExc as e:
            if self.models.cm_exit(self, cm, e, is_async):
                return None
            raise
        self.models.cm_exit(self, cm, None, is_async)
        return sig

    def x_Assert(self, st, fr):
        if not self.truth(self.eval(st.test, fr)):
            self.throw("AssertionError", *([self.eval(st.msg, fr)] if st.msg is not None else []))
        return None

    def x_Delete(self, st, fr):
        for t in st.targets:
            if isinstance(t, ast.Name):
                self.load_name(t.id, fr)
                self.del_name(t.id, fr)
            elif isinstance(t, ast.Subscript):
                self.models.delitem(self, self.eval(t.value, fr), self.eval(t.slice, fr))
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, fr)
                name = self.mangle(t.attr, fr)
                if isinstance(o, (AObj, AClass, AModule)) and name in o.attrs:
                    self.ctx.touch(o, f"del .{name}")
                    del o.attrs[name]
                else:
                    self.throw("AttributeError", name)
        return None

    def x_Import(self, st, fr):
        for a in st.names:
            m = self.import_module(a.name)
            if a.asname:
                self.store_name(a.asname, self.models.ext_const(self, m), fr)
            else:
                top = a.name.split(".")[0]
                self.store_name(top, self.import_module(top), fr)
        return None

    def x_ImportFrom(self, st, fr):
        if st.module == "__future__":
            return None
        name = self.resolve_from(fr, st)
        m = self.import_module(name)
        for a in st.names:
            if a.name == "*":
                if isinstance(m, AModule):
                    pub = m.attrs.get("__all__")
                    names = (
                        [x for x in pub.items] if isinstance(pub, AList) else
                        [k for k in m.attrs if not k.startswith("_")]
                    )
                    for k in names:
                        self.store_name(k, m.attrs[k], fr)
                continue
            if isinstance(m, AModule):
                if a.name in m.attrs:
                    v = m.attrs[a.name]
                elif f"{name}.{a.name}" in self.program.asts:
                    v = self.import_module(f"{name}.{a.name}")
                else:
                    self.throw("ImportError", f"cannot import name {a.name!r} from {name!r}")
            else:
                v = self.models.ext_const(self, ExtRef(f"{name}.{a.name}"))
            self.store_name(a.asname or a.name, v, fr)
        return None

    # ------------------------------------------------------------------ definitions
    def x_FunctionDef(self, st, fr):
        f = self.make_func(st, fr)
        for d in reversed(st.decorator_list):
            f = self.decorate(self.eval(d, fr), f)
        self.store_name(st.name, f, fr)
        return None

    x_AsyncFunctionDef = x_FunctionDef

    def decorate(self, dec, f):
        return self.call(dec, [f], {})

    def make_func(self, node, fr):
        name = getattr(node, "name", "<lambda>")
        f = AFunc(name, node, fr.module)
        # class scopes are not visible from functions
        p = fr
        while p is not None and p.kind == "class":
            p = p.parent
        f.parent = p if (p is not None and p.kind != "module") else None
        f.owner = fr.clsname
        a = node.args
        f.defaults = [self.eval(d, fr) for d in a.defaults]
        f.kwdefaults = [None if d is None else (self.eval(d, fr),) for d in a.kw_defaults]
        info = self.scope_cache.get(node)
        if info is None:
            loc, glob, nonl, y = _assigned(node)
            params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
            if a.vararg:
                params.append(a.vararg.arg)
            if a.kwarg:
                params.append(a.kwarg.arg)
            info = (loc | set(params), glob, nonl, y)
            self.scope_cache[node] = info
        f.info = info
        f.is_async = isinstance(node, ast.AsyncFunctionDef)
        f.is_gen = info[3]
        f.localnames = info[0]
        if fr.kind == "class":
            f.qual = f"{fr.clsname}.{name}"
        elif fr.kind == "func":
            f.qual = f"{fr.func.qual}.{name}"
        else:
            f.qual = name
        return f

    def x_ClassDef(self, st, fr):
        bases = []
        for b in st.bases:
            v = self.ctx.n(self.eval(b, fr))
            c = self.models.as_class(self, v)
            if c is not None and c not in bases:
                bases.append(c)
        kws = {k.arg: self.eval(k.value, fr) for k in st.keywords}
        body = Frame(fr.module, "class", parent=fr)
        body.clsname = st.name
        body.line = st.lineno
        body.func = fr.func
        body.vars["__module__"] = fr.module.name
        body.vars["__qualname__"] = st.name
        self.drive(self.exec_block(st.body, body))
        cls = self.models.build_class(self, st.name, bases, body.vars, fr.module, st, kws)
        v = cls
        for d in reversed(st.decorator_list):
            v = self.decorate(self.eval(d, fr), v)
        self.store_name(st.name, v, fr)
        return None

    # ------------------------------------------------------------------ match
    def x_Match(self, st, fr):
        subj = self.eval(st.subject, fr)
        for case in st.cases:
            binds = {}
            if self.match_pat(case.pattern, subj, fr, binds):
                for k, v in binds.items():
                    self.store_name(k, v, fr)
                if case.guard is None or self.truth(self.eval(case.guard, fr)):
                    return (yield from self.exec_block(case.body, fr))
        return None

    def match_pat(self, p, v, fr, binds):
        if isinstance(p, ast.MatchValue):
            return self.equal(v, self.eval(p.value, fr))
        if isinstance(p, ast.MatchSingleton):
            return self.is_(v, p.value)
        if isinstance(p, ast.MatchOr):
            return any(self.match_pat(q, v, fr, binds) for q in p.patterns)
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match_pat(p.pattern, v, fr, binds):
                return False
            if p.name:
                binds[p.name] = v
            return True
        if isinstance(p, ast.MatchClass):
            cls = self.eval(p.cls, fr)
            if not self.models.isinstance_(self, v, cls):
                return False
            if p.patterns:
                names = cls.lookup("__match_args__")[1] if isinstance(cls, AClass) and not cls.builtin else None
                if names is None and isinstance(cls, AClass) and cls.dataclass is not None:
                    names = tuple(cls.fields)
                if names is not None:
                    if len(p.patterns) > len(names):
                        self.throw("TypeError", f"{cls.name}() accepts {len(names)} positional sub-patterns")
                    for name, q in zip(names, p.patterns):
                        if not self.models.hasattr_(self, v, name):
                            return False
                        if not self.match_pat(q, self.getattr(v, name), fr, binds):
                            return False
                else:
                    for q in p.patterns:  # e.g. str(x)
                        if not self.match_pat(q, v, fr, binds):
                            return False
            for name, q in zip(p.kwd_attrs, p.kwd_patterns):
                if not self.models.hasattr_(self, v, name):
                    return False
                if not self.match_pat(q, self.getattr(v, name), fr, binds):
                    return False
            return True
        if isinstance(p, ast.MatchSequence):
            if not self.models.isinstance_(self, v, (self.models.B["list"], self.models.B["tuple"])):
                return False
            items = list(self.iterate(v))
            star = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
            if not star:
                if len(items) != len(p.patterns):
                    return False
                return all(self.match_pat(q, x, fr, binds) for q, x in zip(p.patterns, items))
            i = star[0]
            rest = len(p.patterns) - 1
            if len(items) < rest:
                return False
            tail = len(p.patterns) - i - 1
            for q, x in zip(p.patterns[:i], items[:i]):
                if not self.match_pat(q, x, fr, binds):
                    return False
            mid = items[i: len(items) - tail]
            if p.patterns[i].name:
                binds[p.patterns[i].name] = AList(mid)
            for q, x in zip(p.patterns[i + 1:], items[len(items) - tail:]):
                if not self.match_pat(q, x, fr, binds):
                    return False
            return True
        if isinstance(p, ast.MatchMapping):
            if not self.models.isinstance_(self, v, self.models.B["dict"]):
                return False
            for k, q in zip(p.keys, p.patterns):
                kv = self.eval(k, fr)
                if not self.contains(v, kv):
                    return False
                if not self.match_pat(q, self.getitem(v, kv), fr, binds):
                    return False
            if p.rest:
                d = self.models.CTORS["dict"](self, [v], {})
                for k in p.keys:
                    self.models.delitem(self, d, self.eval(k, fr))
                binds[p.rest] = d
            return True
        raise Unsupported(type(p).__name__)

    # =================================================================== names
    def load_name(self, name, fr):
        f = fr
        first = True
        while f is not None:
            if f.kind == "class" and not first:
                f = f.parent
                continue
            if f.kind == "func" and name in f.func.info[1]:
                break  # declared global
            if name in f.vars:
                return f.vars[name]
            if f.kind == "func" and name in f.func.localnames:
                if first or True:
                    self.throw("UnboundLocalError", name)
            first = f.kind == "comp" and first
            f = f.parent
        g = fr.module.attrs
        if name in g:
            return g[name]
        b = self.models.builtin_name(self, name)
        if b is not self.models.MISSING:
            return b
        self.throw("NameError", name)

    def store_name(self, name, v, fr):
        if fr.kind == "module":
            if Mutable.cur_phase:
                self.ctx.touch(fr.module, f"global {name}")
            fr.vars[name] = v
            return
        if fr.kind == "func":
            if name in fr.func.info[1]:
                self.ctx.touch(fr.module, f"global {name}")
                fr.module.attrs[name] = v
                return
            if name in fr.func.info[2]:
                f = fr.parent
                while f is not None:
                    if f.kind == "func" and name in f.func.localnames:
                        self.ctx.touch(f, f"nonlocal {name}")
                        f.vars[name] = v
                        return
                    f = f.parent
        fr.vars[name] = v

    def del_name(self, name, fr):
        if fr.kind == "func" and name in fr.func.info[1]:
            fr.module.attrs.pop(name, None)
        else:
            fr.vars.pop(name, None)

    def mangle(self, name, fr):
        if name.startswith("__") and not name.endswith("__"):
            f = fr
            while f is not None:
                c = f.clsname or (f.func.owner if f.kind == "func" and f.func else None)
                if c:
                    return f"_{c.lstrip('_')}{name}"
                f = f.parent
        return name

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, fr), self.mangle(t.attr, fr), v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, fr), self.eval(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, fr)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr)
        else:
            raise Unsupported(type(t).__name__)

    def unpack(self, elts, v, fr):
        v = self.ctx.n(v)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if isinstance(v, Term) and not self.models.known_seq(self, v):
            tags = self.ctx.tags(v)
            if not tags & {"list", "tuple", "str", "bytes", "dict", "set", "obj"}:
                self.throw("TypeError", "cannot unpack non-iterable object")
            if "obj" in tags or not star:
                self.ctx.note_wild("unpacking of an unknown value")
                items = [Term("item", (v, i)) for i in range(len(elts))]
            else:
                items = list(self.iterate(v))
        else:
            items = list(self.iterate(v))
        if not star:
            if len(items) != len(elts):
                self.throw("ValueError", "unpack: wrong number of values")
            for e, x in zip(elts, items):
                self.assign(e, x, fr)
            return
        i = star[0]
        tail = len(elts) - i - 1
        if len(items) < i + tail:
            self.throw("ValueError", "not enough values to unpack")
        for e, x in zip(elts[:i], items[:i]):
            self.assign(e, x, fr)
        self.assign(elts[i].value, AList(items[i: len(items) - tail]), fr)
        for e, x in zip(elts[i + 1:], items[len(items) - tail:]):
            self.assign(e, x, fr)

    # =================================================================== expressions
    def eval(self, e, fr):
        ln = getattr(e, "lineno", None)
        if ln is not None:
            fr.line = ln
        return getattr(self, "e_" + type(e).__name__, self.e_unsupported)(e, fr)

    def e_unsupported(self, e, fr):
        raise Unsupported(type(e).__name__)

    def e_Constant(self, e, fr):
        return e.value

    def e_Name(self, e, fr):
        return self.load_name(e.id, fr)

    def e_Attribute(self, e, fr):
        return self.getattr(self.eval(e.value, fr), self.mangle(e.attr, fr))

    def e_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        f = fr
        while f.kind == "comp":
            f = f.parent
        self.store_name(e.target.id, v, f)
        return v

    def e_BoolOp(self, e, fr):
        is_and = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x, fr)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            if is_and and not t:
                return v
            if not is_and and t:
                return v
        return v

    def e_UnaryOp(self, e, fr):
        if isinstance(e.op, ast.Not):
            return not self.truth(self.eval(e.operand, fr))
        v = self.ctx.n(self.eval(e.operand, fr))
        return self.models.unary(self, e.op, v)

    def e_BinOp(self, e, fr):
        a = self.eval(e.left, fr)
        b = self.eval(e.right, fr)
        return self.models.binop(self, e.op, a, b)

    def e_Compare(self, e, fr):
        left = self.eval(e.left, fr)
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.eval(r, fr)
            res = self.compare(op, left, right)
            if i == len(e.ops) - 1:
                return res
            if not self.truth(res):
                return res
            left = right

    def e_IfExp(self, e, fr):
        return self.eval(e.body if self.truth(self.eval(e.test, fr)) else e.orelse, fr)

    def e_Lambda(self, e, fr):
        return self.make_func(e, fr)

    def e_Tuple(self, e, fr):
        return tuple(self.eval_elts(e.elts, fr))

    def e_List(self, e, fr):
        return AList(self.eval_elts(e.elts, fr))

    def e_Set(self, e, fr):
        return self.models.make_set(self, self.eval_elts(e.elts, fr))

    def eval_elts(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.eval(x.value, fr)))
            else:
                out.append(self.eval(x, fr))
        return out

    def e_Dict(self, e, fr):
        d = ADict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.models.dict_update(self, d, self.eval(v, fr))
            else:
                kk = self.eval(k, fr)
                self.models.dict_set(self, d, kk, self.eval(v, fr))
        return d

    def e_JoinedStr(self, e, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                parts.append(self.eval(v, fr))
        return self.models.cat(self, "str", parts)

    def e_FormattedValue(self, e, fr):
        v = self.eval(e.value, fr)
        if e.conversion == ord("r"):
            v = self.models.repr_(self, v)
        if e.format_spec is not None:
            spec = self.eval(e.format_spec, fr)
            return self.models.format_(self, v, spec)
        return self.models.str_(self, v)

    def e_Subscript(self, e, fr):
        o = self.eval(e.value, fr)
        return self.getitem(o, self.eval(e.slice, fr))

    def e_Slice(self, e, fr):
        f = lambda x: self.eval(x, fr) if x is not None else None  # noqa: E731
        return ExtObj("slice", lo=f(e.lower), hi=f(e.upper), step=f(e.step))

    def e_Await(self, e, fr):
        return self.await_(self.eval(e.value, fr))

    def await_(self, v):
        v = self.ctx.n(v)
        if isinstance(v, ACoro):
            if v.awaited:
                self.throw("RuntimeError", "cannot reuse already awaited coroutine")
            v.awaited = True
            return v.run()
        if isinstance(v, ExtObj) and v.kind == "future":
            if "value" not in v.attrs:
                if "exc" in v.attrs:
                    raise v.attrs["exc"]
                try:
                    v.attrs["value"] = v.attrs["run"]()
                except PyExc as e:
                    v.attrs["exc"] = e
                    raise
            return v.attrs["value"]
        if isinstance(v, AObj):
            m = self.models.find_method(self, v, "__await__")
            if m is not None:
                r = None
                for r in self.iterate(self.call(m, [], {})):
                    pass
                return r
        if isinstance(v, Term):
            self.ctx.note_wild("await of an unknown value")
            return Term("await", (v,))
        self.throw("TypeError", "object can't be used in 'await' expression")

    def e_Call(self, e, fr):
        # super() needs the frame
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            return self.zero_super(fr)
        if isinstance(e.func, ast.Name) and e.func.id in ("locals", "globals", "vars") and not e.args:
            f = fr
            while f.kind == "comp":
                f = f.parent
            d = ADict()
            for k, v in (f.vars if e.func.id != "globals" else fr.module.attrs).items():
                self.models.dict_set(self, d, k, v)
            return d
        fn = self.eval(e.func, fr)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.iterate(self.eval(a.value, fr)))
            else:
                args.append(self.eval(a, fr))
        kwargs = {}
        guards = {}
        for k in e.keywords:
            if k.arg is None:
                self.spread(self.eval(k.value, fr), kwargs, guards)
            else:
                kwargs[k.arg] = self.eval(k.value, fr)
        fr.line = getattr(e, "lineno", fr.line)
        return self.call(fn, args, kwargs, guards)

    def spread(self, d, kwargs, guards):
        d = self.ctx.n(d)
        d = self.models.dict_payload(self, d)
        if d is None:
            self.throw("TypeError", "argument after ** must be a mapping")
        if isinstance(d, Term):
            self.ctx.note_wild("** of an unknown mapping")
            return
        for k, v, g in self.models.dict_guarded_items(self, d):
            k = self.ctx.n(k)
            k = self.models.unwrap(k)
            if isinstance(k, str):
                if k in kwargs:
                    self.throw("TypeError", f"multiple values for keyword {k}")
                kwargs[k] = v
                if g is not None:
                    guards[k] = g
            elif isinstance(k, Term):
                self.ctx.note_wild("** with an unknown key")
            else:
                self.throw("TypeError", "keywords must be strings")

    def zero_super(self, fr):
        f = fr
        while f is not None and not (f.kind == "func" and f.cls is not None):
            f = f.parent
        if f is None:
            self.throw("RuntimeError", "super(): no arguments")
        a = f.func.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        return ASuper(f.cls, f.vars[names[0]])

    # comprehensions ---------------------------------------------------------
    def comp_frame(self, fr):
        c = Frame(fr.module, "comp", parent=fr, func=fr.func)
        c.line = fr.line
        return c

    def comp_items(self, gens, i, cf, first=None):
        g = gens[i]
        it = first if i == 0 and first is not None else self.eval(g.iter, cf)
        for item in self.iterate(it):
            self.assign(g.target, item, cf)
            if all(self.truth(self.eval(c, cf)) for c in g.ifs):
                if i + 1 < len(gens):
                    yield from self.comp_items(gens, i + 1, cf)
                else:
                    yield True

    def _first(self, e, fr):
        return (self.eval(e.generators[0].iter, fr),)

    def _opaque_map(self, e, fr):
        """[f(x) for x in <opaque bytes>]: a 'map' term instead of a loop."""
        if len(e.generators) == 1 and not e.generators[0].ifs:
            it = self.ctx.n(self.eval(e.generators[0].iter, fr))
            src = self.models.bytes_iter(self, it)
            if src is not None:
                cf = self.comp_frame(fr)
                elt = Term("byte", (src,), T_INT)
                self.assign(e.generators[0].target, elt, cf)
                return (Term("map", (self.eval(e.elt, cf), src), frozenset({"list"})), None)
            return (None, (it,))
        return (None, self._first(e, fr))

    def e_ListComp(self, e, fr):
        m, first = self._opaque_map(e, fr)
        if m is not None:
            return m
        cf = self.comp_frame(fr)
        out = []
        for _ in self.comp_items(e.generators, 0, cf, first[0]):
            out.append(self.eval(e.elt, cf))
        return AList(out)

    def e_SetComp(self, e, fr):
        first = self._first(e, fr)
        cf = self.comp_frame(fr)
        out = []
        for _ in self.comp_items(e.generators, 0, cf, first[0]):
            out.append(self.eval(e.elt, cf))
        return self.models.make_set(self, out)

    def e_GeneratorExp(self, e, fr):
        m, first = self._opaque_map(e, fr)
        if m is not None:
            return m
        cf = self.comp_frame(fr)

        def gen():
            for _ in self.comp_items(e.generators, 0, cf, first[0]):
                yield self.eval(e.elt, cf)

        gfn = None
        if len(e.generators) == 1:
            g = e.generators[0]

            def pred(x):
                self.assign(g.target, x, cf)
                return all(self.truth(self.eval(c, cf)) for c in g.ifs)
            f = self.models.gfilter(self, first[0], pred)
            if f is not None:
                def gfn():
                    items, d = f()
                    out = []
                    for x, guard in items:
                        self.assign(g.target, x, cf)
                        out.append((self.eval(e.elt, cf), guard))
                    same = isinstance(e.elt, ast.Tuple) and isinstance(g.target, ast.Tuple) and ast.unparse(e.elt) == ast.unparse(g.target) \
                        or isinstance(e.elt, ast.Name) and isinstance(g.target, ast.Name) and e.elt.id == g.target.id
                    return out, d if same else None
        return AGen(gen(), name="genexpr", gfn=gfn)

    def e_DictComp(self, e, fr):
        first = self.ctx.n(self._first(e, fr)[0])
        cf = self.comp_frame(fr)
        d = ADict()
        if len(e.generators) == 1:
            src = self.models.guarded_view(self, first)
            if src is not None:
                return self.models.guarded_dictcomp(self, e, src, cf, d)
        for _ in self.comp_items(e.generators, 0, cf, first):
            k = self.eval(e.key, cf)
            self.models.dict_set(self, d, k, self.eval(e.value, cf))
        return d

    # =================================================================== operations
    def truth(self, v):
        return self.models.truth(self, v)

    def compare(self, op, a, b):
        if isinstance(op, ast.Eq):
            return self.equal(a, b)
        if isinstance(op, ast.NotEq):
            return not self.equal(a, b)
        if isinstance(op, ast.Is):
            return self.is_(a, b)
        if isinstance(op, ast.IsNot):
            return not self.is_(a, b)
        if isinstance(op, ast.In):
            return self.contains(b, a)
        if isinstance(op, ast.NotIn):
            return not self.contains(b, a)
        return self.models.order(self, type(op).__name__, a, b)

    def equal(self, a, b):
        return self.models.equal(self, a, b)

    def is_(self, a, b):
        return self.models.is_(self, a, b)

    def contains(self, c, x):
        return self.models.contains(self, c, x)

    def getitem(self, o, k):
        return self.models.getitem(self, o, k)

    def setitem(self, o, k, v):
        return self.models.setitem(self, o, k, v)

    def iterate(self, v):
        return self.models.iterate(self, v)

    def getattr(self, o, name):
        return self.models.getattr_(self, o, name)

    def setattr(self, o, name, v):
        return self.models.setattr_(self, o, name, v)

    # =================================================================== calls
    def call(self, fn, args, kwargs=None, guards=None):
        kwargs = kwargs or {}
        fn = self.ctx.n(fn)
        if isinstance(fn, ABound):
            return self.call(fn.fn, [fn.self_] + list(args), kwargs, guards)
        if isinstance(fn, AFunc):
            return self.call_func(fn, args, kwargs, guards)
        if isinstance(fn, AClass):
            return self.models.instantiate(self, fn, args, kwargs, guards)
        if isinstance(fn, ABuiltin):
            for k in list(guards or ()):
                if fn.name not in ("dict", "dict.update", "FullDict"):
                    if not self.models.guard_holds(self, guards[k]):
                        kwargs.pop(k, None)
                    guards.pop(k)
            if fn.is_async:
                return ACoro(lambda: fn.fn(self, args, kwargs), fn.name)
            if guards:
                kwargs = {k: (self.models.Guarded(v, guards[k]) if k in guards else v) for k, v in kwargs.items()}
            try:
                return fn.fn(self, args, kwargs)
            except IndexError as e:
                t = e.__traceback__.tb_next
                if kwargs or t is None or t.tb_next is not None or len(args) > 1:
                    raise
            self.throw("TypeError", f"{fn.name}() misses an argument")
        if isinstance(fn, ExtRef):
            for k in list(guards or ()):
                if not self.models.guard_holds(self, guards[k]):
                    kwargs.pop(k, None)
            return self.models.call_ext(self, fn.path, args, kwargs)
        if isinstance(fn, AWrap):
            if fn.kind in ("staticmethod",):
                return self.call(fn.fn, args, kwargs, guards)
            self.throw("TypeError", f"'{fn.kind}' object is not callable")
        if isinstance(fn, AObj):
            m = self.models.find_method(self, fn, "__call__")
            if m is None:
                self.throw("TypeError", f"'{fn.cls.name}' object is not callable")
            return self.call(m, args, kwargs, guards)
        if isinstance(fn, ATypeOf):
            self.ctx.note_wild("call of type(x)")
            return Term("call", (fn.term,) + tuple(args))
        if isinstance(fn, ExtObj):
            return self.models.call_extobj(self, fn, args, kwargs)
        if isinstance(fn, Term):
            tags = self.ctx.tags(fn)
            if "obj" not in tags:
                self.throw("TypeError", "object is not callable")
            self.ctx.note_wild(f"call of {show(fn)}")
            return Term("call", (fn,) + tuple(a for a in args if _hashable(a)))
        self.throw("TypeError", f"'{type(fn).__name__}' object is not callable")

    def bind(self, f, args, kwargs, guards):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        nposonly = len(a.posonlyargs)
        kwargs = dict(kwargs)
        guards = guards or {}
        kwg = {}
        for k in list(guards):
            named = k in pos[nposonly:] or k in [x.arg for x in a.kwonlyargs]
            if named or not a.kwarg:
                if not self.models.guard_holds(self, guards[k]):
                    kwargs.pop(k, None)
            else:
                kwg[k] = guards[k]
        for i, v in enumerate(args):
            if i < len(pos):
                vals[pos[i]] = v
            elif not a.vararg:
                self.throw("TypeError", f"{f.qual}() takes {len(pos)} positional arguments")
        if a.vararg:
            vals[a.vararg.arg] = tuple(args[len(pos):])
        extra = {}
        for k, v in kwargs.items():
            if k in pos[nposonly:] or any(x.arg == k for x in a.kwonlyargs):
                if k in vals:
                    self.throw("TypeError", f"{f.qual}() got multiple values for {k!r}")
                vals[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                self.throw("TypeError", f"{f.qual}() got an unexpected keyword argument {k!r}")
        nd = len(f.defaults)
        for i, p in enumerate(pos):
            if p not in vals:
                j = i - (len(pos) - nd)
                if j >= 0:
                    vals[p] = f.defaults[j]
                else:
                    self.throw("TypeError", f"{f.qual}() missing argument {p!r}")
        for x, d in zip(a.kwonlyargs, f.kwdefaults):
            if x.arg not in vals:
                if d is None:
                    self.throw("TypeError", f"{f.qual}() missing keyword argument {x.arg!r}")
                vals[x.arg] = d[0]
        if a.kwarg:
            d = ADict()
            for k, v in extra.items():
                self.models.dict_set(self, d, k, v, guard=kwg.get(k))
            vals[a.kwarg.arg] = d
        return vals

    def call_func(self, f, args, kwargs, guards=None):
        vals = self.bind(f, args, kwargs, guards)
        fr = Frame(f.module, "func", parent=f.parent, func=f)
        fr.vars = vals
        fr.cls = f.attrs.get("__defcls__")
        fr.line = f.node.lineno
        self.ctx.calls += 1
        self.ctx.funcs.add((f.module.name, f.qual))
        path = f.module.path

        if isinstance(f.node, ast.Lambda):
            self.push(path, f.qual, fr)
            try:
                return self.eval(f.node.body, fr)
            finally:
                self.pop()

        if f.is_gen:
            return AGen(self.gen_iter(f, fr, path), is_async=f.is_async, name=f.qual)

        def run():
            self.push(path, f.qual, fr)
            try:
                sig = self.drive(self.exec_block(f.node.body, fr))
                return sig[1] if sig is not None else None
            finally:
                self.pop()

        if f.is_async:
            c = ACoro(run, f.qual)
            self.ctx.coros.append((c, self.ctx.where()))
            return c
        return run()

    def gen_iter(self, f, fr, path):
        g = self.exec_block(f.node.body, fr)
        sent = thrown = None
        while True:
            self.push(path, f.qual, fr)
            try:
                v = g.send(sent) if thrown is None else g.throw(thrown)
            except StopIteration as s:
                return s.value[1] if s.value is not None else None
            finally:
                self.pop()
            sent = thrown = None
            try:
                sent = yield v
            except PyExc as e:
                thrown = e


def _hashable(a):
    return True
