#!/usr/bin/env python3
"""Behaviour-preserving rewrites of the sources of psion, to find false alarms of the checks.

refactor.py OUT [names...]: writes OUT/<name>/src for each transformation.
"""
import ast
import os
import shutil
import sys

SRC = "/repo/src"


class Rename(ast.NodeTransformer):
    """Rename local variables (not parameters, globals, nonlocals)."""

    def _fn(self, node):
        self.generic_visit(node)
        if any(isinstance(n, (ast.Global, ast.Nonlocal)) for n in ast.walk(node)):
            return node
        params = {a.arg for n in ast.walk(node) if isinstance(n, ast.arguments)
                  for a in n.posonlyargs + n.args + n.kwonlyargs + [x for x in (n.vararg, n.kwarg) if x]}
        inner = [n for n in ast.walk(node) if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) and n is not node]
        if inner:
            return node
        stores = {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} - params
        for n in ast.walk(node):
            if isinstance(n, ast.Name) and n.id in stores:
                n.id = n.id + "_v"
            if isinstance(n, ast.ExceptHandler) and n.name in stores:
                n.name += "_v"
        return node
    visit_FunctionDef = visit_AsyncFunctionDef = _fn


class InvertIf(ast.NodeTransformer):
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse:
            return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
        return ast.If(ast.UnaryOp(ast.Not(), n.test), [ast.Pass()], n.body)

    def visit_IfExp(self, n):
        self.generic_visit(n)
        return ast.IfExp(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)


class DeMorgan(ast.NodeTransformer):
    def visit_BoolOp(self, n):
        self.generic_visit(n)
        return n

    def visit_If(self, n):
        self.generic_visit(n)
        if isinstance(n.test, ast.BoolOp):
            n.test = ast.UnaryOp(ast.Not(), ast.BoolOp(ast.Or() if isinstance(n.test.op, ast.And) else ast.And(),
                                 [ast.UnaryOp(ast.Not(), v) for v in n.test.values]))
        return n


class FlipCompare(ast.NodeTransformer):
    M = {ast.Eq: ast.Eq, ast.NotEq: ast.NotEq, ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in self.M:
            if not any(isinstance(x, ast.NamedExpr) for x in ast.walk(n)):
                return ast.Compare(n.comparators[0], [self.M[type(n.ops[0])]()], [n.left])
        if len(n.ops) == 1 and isinstance(n.ops[0], ast.NotIn):
            return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [ast.In()], n.comparators))
        if len(n.ops) == 1 and isinstance(n.ops[0], ast.IsNot):
            return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [ast.Is()], n.comparators))
        return n


class TempReturn(ast.NodeTransformer):
    """return e -> result = e; return result;  raise e -> err = e; raise err (keeps causes)."""

    def visit_Return(self, n):
        if n.value is None or isinstance(n.value, (ast.Constant, ast.Name)):
            return n
        return [ast.Assign([ast.Name("ret_value", ast.Store())], n.value), ast.Return(ast.Name("ret_value", ast.Load()))]

    def visit_Raise(self, n):
        if n.exc is None or n.cause is not None:
            return n
        return [ast.Assign([ast.Name("err_value", ast.Store())], n.exc), ast.Raise(ast.Name("err_value", ast.Load()))]


class TempArgs(ast.NodeTransformer):
    """f(a(), b()) as a statement or in return/assign: first-level call arguments into temporaries."""

    def _stmt(self, n):
        self.generic_visit(n)
        v = n.value
        aw = isinstance(v, ast.Await)
        call = v.value if aw else v
        if not isinstance(call, ast.Call) or any(isinstance(a, ast.Starred) for a in call.args) or any(k.arg is None for k in call.keywords):
            return n
        if isinstance(call.func, ast.Name) and call.func.id == "super":
            return n
        if not isinstance(call.func, (ast.Name, ast.Attribute)):
            return n
        f = call.func
        while isinstance(f, ast.Attribute):
            f = f.value
        if not isinstance(f, ast.Name):
            return n
        pre = []
        for i, a in enumerate(call.args):
            if not isinstance(a, (ast.Name, ast.Constant)):
                nm = f"arg_{i}"
                pre.append(ast.Assign([ast.Name(nm, ast.Store())], a))
                call.args[i] = ast.Name(nm, ast.Load())
        for i, k in enumerate(call.keywords):
            if not isinstance(k.value, (ast.Name, ast.Constant)):
                nm = f"kwarg_{k.arg}"
                pre.append(ast.Assign([ast.Name(nm, ast.Store())], k.value))
                k.value = ast.Name(nm, ast.Load())
        return pre + [n]

    def visit_Return(self, n):
        return self._stmt(n) if n.value is not None else n
    visit_Assign = visit_Expr = visit_Return

    def visit_ClassDef(self, n):
        n.body = [self.visit(b) if isinstance(b, (ast.FunctionDef, ast.AsyncFunctionDef)) else b for b in n.body]
        return n

    def visit_Module(self, n):
        n.body = [self.visit(b) if isinstance(b, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) else b for b in n.body]
        return n


class CompToLoop(ast.NodeTransformer):
    """x = [e for v in it if c] / return [..] -> loop.  Same for dict comprehensions, any() and all()."""
    n = 0

    def build(self, comp, res):
        if any(g.is_async for g in comp.generators):
            return None
        if isinstance(comp, (ast.ListComp,)):
            init = ast.List([], ast.Load())
            inner = ast.Expr(ast.Call(ast.Attribute(ast.Name(res, ast.Load()), "append", ast.Load()), [comp.elt], []))
        elif isinstance(comp, ast.DictComp):
            init = ast.Dict([], [])
            inner = ast.Assign([ast.Subscript(ast.Name(res, ast.Load()), comp.key, ast.Store())], comp.value)
        else:
            return None
        body = [inner]
        for g in reversed(comp.generators):
            for c in reversed(g.ifs):
                body = [ast.If(c, body, [])]
            body = [ast.For(g.target, g.iter, body, [])]
        return [ast.Assign([ast.Name(res, ast.Store())], init)] + body

    def quant(self, call, res):
        comp = call.args[0]
        isany = call.func.id == "any"
        test = comp.elt if isany else ast.UnaryOp(ast.Not(), comp.elt)
        body = [ast.If(test, [ast.Assign([ast.Name(res, ast.Store())], ast.Constant(isany)), ast.Break()], [])]
        if len(comp.generators) != 1:
            return None
        g = comp.generators[0]
        for c in reversed(g.ifs):
            body = [ast.If(c, body, [])]
        return [ast.Assign([ast.Name(res, ast.Store())], ast.Constant(not isany)), ast.For(g.target, g.iter, body, [])]

    def _stmt(self, n, field):
        e = getattr(n, field)
        if e is None:
            return n
        pre = []
        me = self

        class R(ast.NodeTransformer):
            done = False

            def visit_ListComp(self, c):
                if R.done:
                    return c
                me.n += 1
                b = me.build(c, f"acc_{me.n}")
                if b is None:
                    return c
                R.done = True
                pre.extend(b)
                return ast.Name(f"acc_{me.n}", ast.Load())
            visit_DictComp = visit_ListComp

            def visit_Call(self, c):
                if isinstance(c.func, ast.Name) and c.func.id in ("any", "all") and len(c.args) == 1 and isinstance(c.args[0], ast.GeneratorExp) and not R.done:
                    me.n += 1
                    b = me.quant(c, f"acc_{me.n}")
                    if b is not None:
                        R.done = True
                        pre.extend(b)
                        return ast.Name(f"acc_{me.n}", ast.Load())
                self.generic_visit(c)
                return c

            def visit_Lambda(self, c):
                return c

            def visit_BoolOp(self, c):
                c.values[0] = self.visit(c.values[0])
                return c

            def visit_IfExp(self, c):
                return c
        setattr(n, field, R().visit(e))
        return pre + [n]

    def visit_Return(self, n):
        return self._stmt(n, "value")
    visit_Assign = visit_Expr = visit_Return

    def visit_AnnAssign(self, n):
        return self._stmt(n, "value")

    def visit_If(self, n):
        self.generic_visit(n)
        return self._stmt(n, "test")

    def visit_ClassDef(self, n):
        n.body = [self.visit(b) if isinstance(b, (ast.FunctionDef, ast.AsyncFunctionDef)) else b for b in n.body]
        return n

    def visit_Module(self, n):
        n.body = [self.visit(b) if isinstance(b, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) else b for b in n.body]
        return n


class ForToWhile(ast.NodeTransformer):
    n = 0

    def visit_For(self, f):
        self.generic_visit(f)
        if f.orelse or any(isinstance(x, ast.Continue) for x in ast.walk(f)):
            return f
        self.n += 1
        it, end = f"it_{self.n}", f"end_{self.n}"
        item = f"item_{self.n}"
        return [
            ast.Assign([ast.Name(it, ast.Store())], ast.Call(ast.Name("iter", ast.Load()), [f.iter], [])),
            ast.Assign([ast.Name(end, ast.Store())], ast.Call(ast.Name("object", ast.Load()), [], [])),
            ast.Assign([ast.Name(item, ast.Store())], ast.Call(ast.Name("next", ast.Load()), [ast.Name(it, ast.Load()), ast.Name(end, ast.Load())], [])),
            ast.While(ast.Compare(ast.Name(item, ast.Load()), [ast.IsNot()], [ast.Name(end, ast.Load())]),
                      [ast.Assign([f.target], ast.Name(item, ast.Load()))] + f.body +
                      [ast.Assign([ast.Name(item, ast.Store())], ast.Call(ast.Name("next", ast.Load()), [ast.Name(it, ast.Load()), ast.Name(end, ast.Load())], []))], [])]


class ForIndex(ast.NodeTransformer):
    """for x in it -> items = list(it); for i in range(len(items)): x = items[i]."""
    n = 0

    def visit_For(self, f):
        self.generic_visit(f)
        self.n += 1
        a, i = f"items_{self.n}", f"i_{self.n}"
        return [ast.Assign([ast.Name(a, ast.Store())], ast.Call(ast.Name("list", ast.Load()), [f.iter], [])),
                ast.For(ast.Name(i, ast.Store()), ast.Call(ast.Name("range", ast.Load()), [ast.Call(ast.Name("len", ast.Load()), [ast.Name(a, ast.Load())], [])], []),
                        [ast.Assign([f.target], ast.Subscript(ast.Name(a, ast.Load()), ast.Name(i, ast.Load()), ast.Load()))] + f.body, f.orelse)]


class FString(ast.NodeTransformer):
    def __init__(self, how):
        self.how = how

    def visit_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                if v.conversion not in (-1, None) or v.format_spec is not None:
                    return n
                parts.append(self.visit(v.value) if self.how == "format" else ast.Call(ast.Name("str", ast.Load()), [self.visit(v.value)], []))
        if self.how == "format":
            fmt = "".join(p.value.replace("{", "{{").replace("}", "}}") if isinstance(v, ast.Constant) else "{}" for p, v in zip(parts, n.values))
            return ast.Call(ast.Attribute(ast.Constant(fmt), "format", ast.Load()), [p for p, v in zip(parts, n.values) if not isinstance(v, ast.Constant)], [])
        e = parts[0]
        for p in parts[1:]:
            e = ast.BinOp(e, ast.Add(), p)
        return e


class EarlyElse(ast.NodeTransformer):
    """if c: ...return/raise;  rest  ->  if c: ... else: rest."""

    def body(self, b):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)) and i + 1 < len(b):
                s.orelse = self.body(b[i + 1:])
                return b[:i + 1]
        return b

    def _fn(self, n):
        self.generic_visit(n)
        n.body = self.body(n.body)
        return n
    visit_FunctionDef = visit_AsyncFunctionDef = _fn


class SplitAnd(ast.NodeTransformer):
    """if a and b: X (no else) -> if a: if b: X."""

    def visit_If(self, n):
        self.generic_visit(n)
        if isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And) and not n.orelse:
            b = n.body
            for v in reversed(n.test.values):
                b = [ast.If(v, b, [])]
            return b[0]
        return n


class Walrus(ast.NodeTransformer):
    """if (x := e) ...: -> x = e; if x ...: (only where the walrus is evaluated first)."""

    def visit_If(self, n):
        self.generic_visit(n)
        t = n.test
        first = t
        parent = None
        while True:
            if isinstance(first, ast.NamedExpr):
                break
            if isinstance(first, ast.UnaryOp):
                parent, first, slot = first, first.operand, "operand"
            elif isinstance(first, ast.Compare):
                parent, first, slot = first, first.left, "left"
            elif isinstance(first, ast.BoolOp):
                parent, first, slot = first, first.values[0], 0
            elif isinstance(first, ast.Call) and first.args and isinstance(first.func, ast.Name):
                parent, first, slot = first, first.args[0], "arg"
            else:
                return n
        pre = ast.Assign([ast.Name(first.target.id, ast.Store())], first.value)
        new = ast.Name(first.target.id, ast.Load())
        if parent is None:
            n.test = new
        elif slot == "arg":
            parent.args[0] = new
        elif slot == 0 and isinstance(parent, ast.BoolOp):
            parent.values[0] = new
        else:
            setattr(parent, slot, new)
        return [pre, n]


class DictCalls(ast.NodeTransformer):
    """{"a": b} -> dict(a=b); d.get(k) -> d.get(k, None)."""

    def visit_Dict(self, n):
        self.generic_visit(n)
        if n.keys and all(isinstance(k, ast.Constant) and isinstance(k.value, str) and k.value.isidentifier() for k in n.keys):
            import keyword
            if not any(keyword.iskeyword(k.value) for k in n.keys):
                return ast.Call(ast.Name("dict", ast.Load()), [], [ast.keyword(k.value, v) for k, v in zip(n.keys, n.values)])
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == "get" and len(n.args) == 1 and not n.keywords:
            n.args.append(ast.Constant(None))
        return n


class TruthTests(ast.NodeTransformer):
    """if x -> if bool(x) ;  not x -> not bool(x)"""

    def visit_If(self, n):
        self.generic_visit(n)
        if not isinstance(n.test, (ast.Compare, ast.BoolOp, ast.UnaryOp)):
            n.test = ast.Call(ast.Name("bool", ast.Load()), [n.test], [])
        return n


class LambdaHelpers(ast.NodeTransformer):
    """Every if-test moves into a nested helper function called at once."""
    n = 0

    def visit_If(self, n):
        self.generic_visit(n)
        if any(isinstance(x, (ast.NamedExpr, ast.Await, ast.Yield)) for x in ast.walk(n.test)):
            return n
        if any(isinstance(x, ast.Name) and x.id == "super" for x in ast.walk(n.test)):
            return n
        self.n += 1
        nm = f"_check_{self.n}"
        f = ast.FunctionDef(nm, ast.arguments([], [], None, [], [], None, []), [ast.Return(n.test)], [], None, None)
        f.type_params = []
        n.test = ast.Call(ast.Name(nm, ast.Load()), [], [])
        return [f, n]

    def visit_ClassDef(self, n):
        n.body = [self.visit(b) if isinstance(b, (ast.FunctionDef, ast.AsyncFunctionDef)) else b for b in n.body]
        return n

    def visit_Module(self, n):
        n.body = [self.visit(b) if isinstance(b, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) else b for b in n.body]
        return n


class ExtractMethod(ast.NodeTransformer):
    """The body of every method moves to a private twin: def f(self, a): return self._f_impl(a)."""

    def visit_ClassDef(self, c):
        out = []
        for m in c.body:
            if isinstance(m, (ast.FunctionDef, ast.AsyncFunctionDef)) and not m.decorator_list and m.name not in ("__init__", "__new__", "__init_subclass__", "__setitem__") \
                    and not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(m)) and not m.name.startswith("__") \
                    and not m.args.vararg and not m.args.kwarg and not m.args.kwonlyargs and not m.args.posonlyargs \
                    and not m.name.startswith("validate_"):
                import copy
                impl = copy.deepcopy(m)
                impl.name = f"_{m.name}_impl"
                impl.args.defaults = []
                a = [x.arg for x in m.args.args]
                call = ast.Call(ast.Attribute(ast.Name(c.name if False else a[0], ast.Load()), impl.name, ast.Load()), [ast.Name(x, ast.Load()) for x in a[1:]], [])
                m.body = [ast.Return(ast.Await(call) if isinstance(m, ast.AsyncFunctionDef) else call)]
                out += [impl, m]
            else:
                out.append(m)
        c.body = out
        return c


class Unwalrus(Walrus):
    pass


class SetTuple(ast.NodeTransformer):
    """x in (a, b) -> x in [a, b]  ;  isinstance(x, (a, b)) -> isinstance(x, a) or isinstance(x, b)."""

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)) and isinstance(n.comparators[0], ast.Tuple):
            n.comparators = [ast.List(n.comparators[0].elts, ast.Load())]
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == "isinstance" and isinstance(n.args[1], ast.Tuple) and isinstance(n.args[0], ast.Name):
            return ast.BoolOp(ast.Or(), [ast.Call(n.func, [n.args[0], e], []) for e in n.args[1].elts])
        return n


class InEq(ast.NodeTransformer):
    """x in (a, b) -> x == a or x == b for names and constants."""

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], ast.In) and isinstance(n.comparators[0], ast.Tuple) and isinstance(n.left, ast.Name):
            return ast.BoolOp(ast.Or(), [ast.Compare(n.left, [ast.Eq()], [e]) for e in n.comparators[0].elts])
        return n


class TryFinallyNoop(ast.NodeTransformer):
    """Function bodies in try/finally: pass; dead statements."""

    def _fn(self, n):
        self.generic_visit(n)
        doc = [n.body[0]] if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else []
        rest = n.body[len(doc):]
        if not rest:
            return n
        n.body = doc + [ast.Assign([ast.Name("_unused", ast.Store())], ast.Constant(0)), ast.Try(rest, [], [], [ast.Pass()])]
        return n
    visit_FunctionDef = visit_AsyncFunctionDef = _fn


class Reraise(ast.NodeTransformer):
    """Function bodies in try/except Exception: raise."""

    def _fn(self, n):
        self.generic_visit(n)
        doc = [n.body[0]] if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else []
        rest = n.body[len(doc):]
        if not rest or any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(n)):
            return n
        n.body = doc + [ast.Try(rest, [ast.ExceptHandler(ast.Name("Exception", ast.Load()), None, [ast.Raise()])], [], [])]
        return n
    visit_FunctionDef = visit_AsyncFunctionDef = _fn


class AugAssign(ast.NodeTransformer):
    """d.update(x=..) stays; x += y -> x = x + y for names; d[k] = v -> d.__setitem__? (no)"""

    def visit_AugAssign(self, n):
        if isinstance(n.target, ast.Name):
            return ast.Assign([n.target], ast.BinOp(ast.Name(n.target.id, ast.Load()), n.op, n.value))
        return n


class JoinCat(ast.NodeTransformer):
    """b".".join([a, b]) -> a + b"." + b"""

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == "join" and isinstance(n.func.value, ast.Constant) and len(n.args) == 1 \
                and isinstance(n.args[0], ast.List) and len(n.args[0].elts) > 1:
            e = n.args[0].elts[0]
            for x in n.args[0].elts[1:]:
                e = ast.BinOp(ast.BinOp(e, ast.Add(), n.func.value), ast.Add(), x)
            return e
        return n


class Ternary(ast.NodeTransformer):
    """x or y -> x if x else y for names/attributes/subscripts on the left in value position."""

    def visit_BoolOp(self, n):
        self.generic_visit(n)
        if len(n.values) == 2 and isinstance(n.values[0], (ast.Name, ast.Attribute)):
            import copy
            a, b = n.values
            if isinstance(n.op, ast.Or):
                return ast.IfExp(a, copy.deepcopy(a), b)
            return ast.IfExp(a, b, copy.deepcopy(a))
        return n


class TernaryToIf(ast.NodeTransformer):
    def visit_Return(self, n):
        if isinstance(n.value, ast.IfExp):
            return ast.If(n.value.test, [ast.Return(n.value.body)], [ast.Return(n.value.orelse)])
        return n

    def visit_Assign(self, n):
        if isinstance(n.value, ast.IfExp) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            return ast.If(n.value.test, [ast.Assign(n.targets, n.value.body)], [ast.Assign(n.targets, n.value.orelse)])
        return n


class StarArgs(ast.NodeTransformer):
    """f(a, b, k=c) -> f(*(a, b), **{"k": c})"""

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in ("super", "isinstance"):
            return n
        if len(n.args) >= 2 and not any(isinstance(a, (ast.Starred, ast.GeneratorExp)) for a in n.args):
            n.args = [ast.Starred(ast.Tuple(n.args, ast.Load()), ast.Load())]
        if n.keywords and all(k.arg for k in n.keywords):
            n.keywords = [ast.keyword(None, ast.Dict([ast.Constant(k.arg) for k in n.keywords], [k.value for k in n.keywords]))]
        return n

    def visit_ClassDef(self, n):
        n.body = [self.visit(b) for b in n.body]
        return n


class ExcAs(ast.NodeTransformer):
    """except (A, B): -> except A as e / separate handlers"""

    def visit_Try(self, n):
        self.generic_visit(n)
        import copy
        hs = []
        for h in n.handlers:
            if isinstance(h.type, ast.Tuple) and h.name is None:
                for t in h.type.elts:
                    hs.append(ast.ExceptHandler(t, "exc_v", copy.deepcopy(h.body)))
            else:
                hs.append(h)
        n.handlers = hs
        return n


class LoopFilter(ast.NodeTransformer):
    """[x for x in it if c] -> list(filter(lambda x: c, it)); [e for x in it] -> list(map(lambda x: e, it))"""

    def visit_ListComp(self, n):
        self.generic_visit(n)
        if len(n.generators) != 1 or not isinstance(n.generators[0].target, ast.Name) or any(isinstance(x, (ast.Await, ast.NamedExpr)) for x in ast.walk(n)):
            return n
        g = n.generators[0]
        lam = lambda b: ast.Lambda(ast.arguments([], [ast.arg(g.target.id)], None, [], [], None, []), b)
        it = g.iter
        for c in g.ifs:
            it = ast.Call(ast.Name("filter", ast.Load()), [lam(c), it], [])
        if not (isinstance(n.elt, ast.Name) and n.elt.id == g.target.id):
            it = ast.Call(ast.Name("map", ast.Load()), [lam(n.elt), it], [])
        return ast.Call(ast.Name("list", ast.Load()), [it], [])


class Match(ast.NodeTransformer):
    """if x == const: A elif x == const: ...: -> match"""

    def visit_If(self, n):
        self.generic_visit(n)
        t = n.test
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.Eq) and isinstance(t.comparators[0], ast.Constant) \
                and isinstance(t.comparators[0].value, (str, int)) and not isinstance(t.comparators[0].value, bool):
            cases = [ast.match_case(ast.MatchValue(t.comparators[0]), None, n.body)]
            if n.orelse:
                cases.append(ast.match_case(ast.MatchAs(None, None), None, n.orelse))
            return ast.Match(t.left, cases)
        return n


class GetattrConst(ast.NodeTransformer):
    """self.x loads -> getattr(self, "x")"""

    def visit_Attribute(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id in ("self", "cls") and not n.attr.startswith("__"):
            return ast.Call(ast.Name("getattr", ast.Load()), [n.value, ast.Constant(n.attr)], [])
        return n


class SuperExplicit(ast.NodeTransformer):
    """super() -> super(Class, self)"""

    def visit_ClassDef(self, c):
        for m in c.body:
            if isinstance(m, (ast.FunctionDef, ast.AsyncFunctionDef)) and m.args.args:
                first = m.args.args[0].arg
                for x in ast.walk(m):
                    if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "super" and not x.args:
                        x.args = [ast.Name(c.name, ast.Load()), ast.Name(first, ast.Load())]
        return c


class ModuleConst(ast.NodeTransformer):
    """String constants in functions become module constants."""

    def visit_Module(self, n):
        self.consts = {}
        self.infn = 0
        self.generic_visit(n)
        pre = [ast.Assign([ast.Name(nm, ast.Store())], ast.Constant(v)) for v, nm in self.consts.items()]
        i = 0
        while i < len(n.body) and (isinstance(n.body[i], ast.Expr) and isinstance(n.body[i].value, ast.Constant) or isinstance(n.body[i], ast.ImportFrom) and n.body[i].module == "__future__"):
            i += 1
        n.body[i:i] = pre
        return n

    def _fn(self, n):
        self.infn += 1
        n.body = [n.body[0]] * bool(self._doc(n)) + [self.visit(b) for b in n.body[self._doc(n):]]
        self.infn -= 1
        return n

    def _doc(self, n):
        return int(isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant))
    visit_FunctionDef = visit_AsyncFunctionDef = _fn

    def visit_JoinedStr(self, n):
        return n

    def visit_Match(self, n):
        return n

    def visit_Constant(self, n):
        if self.infn and isinstance(n.value, (str, bytes)) and n.value:
            nm = self.consts.setdefault(n.value, f"_K{len(self.consts)}")
            return ast.Name(nm, ast.Load())
        return n


T = {
    "identity": lambda: ast.NodeTransformer(), "rename": Rename, "invert-if": InvertIf, "demorgan": DeMorgan, "flip-compare": FlipCompare,
    "temp-return": TempReturn, "temp-args": TempArgs, "comp-to-loop": CompToLoop, "for-while": ForToWhile, "for-index": ForIndex,
    "fstring-format": lambda: FString("format"), "fstring-concat": lambda: FString("concat"), "early-else": EarlyElse, "split-and": SplitAnd,
    "walrus": Walrus, "dict-calls": DictCalls, "bool-tests": TruthTests, "test-helpers": LambdaHelpers, "extract-method": ExtractMethod,
    "set-tuple": SetTuple, "in-eq": InEq, "try-finally": TryFinallyNoop, "reraise": Reraise, "augassign": AugAssign, "join-cat": JoinCat,
    "ternary": Ternary, "ternary-if": TernaryToIf, "star-args": StarArgs, "exc-as": ExcAs, "map-filter": LoopFilter, "match": Match,
    "getattr": GetattrConst, "super-explicit": SuperExplicit, "module-const": ModuleConst,
}


def apply(src, t):
    tree = ast.parse(src)
    tree = t().visit(tree)
    ast.fix_missing_locations(tree)
    return ast.unparse(tree) + "\n"


def make(out, names):
    for name in names:
        d = os.path.join(out, name)
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree("/repo", d, ignore=shutil.ignore_patterns(".git", "__pycache__"))
        for root, _, fs in os.walk(os.path.join(d, "src")):
            for f in fs:
                if f.endswith(".py"):
                    p = os.path.join(root, f)
                    s = open(p).read()
                    try:
                        for part in name.split("+"):
                            s = apply(s, T[part])
                    except Exception as e:
                        print("cannot", name, p, repr(e))
                        continue
                    open(p, "w").write(s)


if __name__ == "__main__":
    make(sys.argv[1], sys.argv[2:] or list(T))
