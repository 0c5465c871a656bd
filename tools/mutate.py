#!/usr/bin/env python3
"""mutate.py OUT.jsonl FILE...: single-point AST mutants of the files; runs tests, then the checks; records what catches each.

Only for development: shows which changes no check reports.
"""
import ast, copy, json, os, shutil, subprocess, sys, tempfile, time, random
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JOSE = "C05 C26 C02 C01 C07 C11 C03 C04 C06 C09 C12 C10 C25 C30 C08".split()
OAUTH = "C32 C14 C29 C33 C28 C30 C20 C18 C17 C15 C16 C23 C27 C22 C31 C25 C19 C26 C13 C24 C21".split()
CMP = {ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.LtE],
       ast.GtE: [ast.Gt], ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}


def points(tree):
    """Yields (description, function that mutates a copy of the tree in place given the node path index)."""
    nodes = list(ast.walk(tree))
    doc = set()
    for n in nodes:
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) \
                and isinstance(n.body[0].value, ast.Constant):
            doc.add(id(n.body[0])), doc.add(id(n.body[0].value))
    ann = set()
    for n in nodes:
        for f in ("annotation", "returns"):
            x = getattr(n, f, None)
            if isinstance(x, ast.AST):
                ann |= {id(y) for y in ast.walk(x)}
    fstr = set()
    for n in nodes:
        if isinstance(n, ast.JoinedStr):
            fstr |= {id(v) for v in n.values if isinstance(v, ast.Constant)}
    for i, n in enumerate(nodes):
        if id(n) in doc or id(n) in ann:
            continue
        ln = getattr(n, "lineno", 0)

        def P(desc, f, i=i, ln=ln):
            return (ln, desc, i, f)
        if isinstance(n, ast.Compare):
            for k, o in enumerate(n.ops):
                for new in CMP[type(o)]:
                    yield P(f"compare {type(o).__name__}->{new.__name__}", lambda m, k=k, new=new: m.ops.__setitem__(k, new()))
        if isinstance(n, (ast.If, ast.IfExp, ast.While)):
            yield P("cond true", lambda m: setattr(m, "test", ast.Constant(True)))
            yield P("cond false", lambda m: setattr(m, "test", ast.Constant(False)))
        if isinstance(n, ast.BoolOp):
            yield P("and<->or", lambda m: setattr(m, "op", ast.Or() if isinstance(m.op, ast.And) else ast.And()))
            for k in range(len(n.values)):
                if len(n.values) > 1:
                    yield P(f"drop operand {k}", lambda m, k=k: m.values.pop(k))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            yield P("drop not", lambda m: setattr(m, "op", ast.UAdd()) or setattr(m, "__class__", ast.UnaryOp) or m.__dict__.update(op=ast.Not(), operand=ast.UnaryOp(ast.Not(), m.operand)))
        if hasattr(n, "body") and isinstance(n.body, list):
            for fld in ("body", "orelse", "finalbody"):
                for k, s in enumerate(getattr(n, fld, []) or []):
                    if id(s) in doc or isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom, ast.Pass)):
                        continue
                    if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Return, ast.If, ast.For, ast.Try, ast.AnnAssign)):
                        yield (s.lineno, f"delete {type(s).__name__}", i, lambda m, fld=fld, k=k: getattr(m, fld).__setitem__(k, ast.Pass()))
        if isinstance(n, ast.Constant) and id(n) not in fstr:
            v = n.value
            if isinstance(v, bool):
                yield P(f"{v}->{not v}", lambda m: setattr(m, "value", not m.value))
            elif isinstance(v, int):
                yield P(f"{v}->{v + 1}", lambda m: setattr(m, "value", m.value + 1))
                if v:
                    yield P(f"{v}->{v - 1}", lambda m: setattr(m, "value", m.value - 1))
            elif isinstance(v, str) and v and " " not in v:
                yield P(f"{v[:20]!r}->x", lambda m: setattr(m, "value", m.value + "x"))
            elif isinstance(v, bytes) and v:
                yield P(f"{v[:20]!r}->x", lambda m: setattr(m, "value", m.value + b"x"))
        if isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
            yield P("return None", lambda m: setattr(m, "value", ast.Constant(None)))
        if isinstance(n, ast.Await):
            pass
        if isinstance(n, ast.ExceptHandler) and isinstance(n.type, ast.Tuple):
            for k in range(len(n.type.elts)):
                yield P(f"handler drops {ast.unparse(n.type.elts[k])}", lambda m, k=k: m.type.elts.pop(k))
        if isinstance(n, (ast.List, ast.Tuple, ast.Set)) and isinstance(getattr(n, "ctx", ast.Load()), ast.Load) and len(n.elts) > 0:
            for k in range(len(n.elts)):
                yield P(f"drop element {ast.unparse(n.elts[k])[:25]}", lambda m, k=k: m.elts.pop(k))
        if isinstance(n, ast.Dict):
            for k in range(len(n.keys)):
                yield P(f"drop key {ast.unparse(n.keys[k])[:25] if n.keys[k] else '**'}", lambda m, k=k: (m.keys.pop(k), m.values.pop(k)))
        if isinstance(n, ast.Call):
            for k in range(len(n.keywords)):
                yield P(f"drop keyword {n.keywords[k].arg}", lambda m, k=k: m.keywords.pop(k))
            if len(n.args) >= 2:
                yield P("swap args", lambda m: m.args.__setitem__(slice(0, 2), m.args[1::-1]))
            if len(n.args) > 1:
                yield P("drop last arg", lambda m: m.args.pop())
            if len(n.args) == 1 and not n.keywords and not isinstance(n.args[0], (ast.GeneratorExp, ast.Starred)):
                yield P(f"unwrap {ast.unparse(n.func)[:25]}", lambda m: m.__dict__.update(func=ast.Lambda(ast.arguments([], [ast.arg("z")], None, [], [], None, []), ast.Name("z", ast.Load()))))
        if isinstance(n, ast.BinOp):
            sw = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.FloorDiv, ast.FloorDiv: ast.Mult, ast.Mod: ast.FloorDiv}
            if type(n.op) in sw:
                yield P("arith", lambda m: setattr(m, "op", sw[type(m.op)]()))
        if isinstance(n, ast.comprehension) and n.ifs:
            yield P("drop filter", lambda m: setattr(m, "ifs", []))
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n.decorator_list:
            yield P("drop decorator", lambda m: m.decorator_list.clear())


def mutants(path):
    src = open(path).read()
    tree = ast.parse(src)
    base = ast.unparse(tree)
    seen = {base}
    for ln, desc, i, f in points(tree):
        t = copy.deepcopy(tree)
        m = list(ast.walk(t))[i]
        try:
            f(m)
            ast.fix_missing_locations(t)
            out = ast.unparse(t)
            ast.parse(out)
        except Exception:
            continue
        if out in seen:
            continue
        seen.add(out)
        yield ln, desc, out


def diff(a, b):
    import difflib
    return "\n".join(l for l in difflib.unified_diff(a.splitlines(), b.splitlines(), n=0, lineterm="") if not l.startswith(("---", "+++", "@@")))


def one(job):
    rel, ln, desc, text, base = job
    tmp = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
    r = {"file": rel, "line": ln, "what": desc, "diff": diff(base, text)}
    try:
        shutil.copytree("/repo/src", tmp + "/src")
        shutil.copytree("/repo/tests", tmp + "/tests")
        open(os.path.join(tmp, rel), "w").write(text + "\n")
        env = dict(os.environ, PYTHONPATH=tmp + "/src", PYTHONDONTWRITEBYTECODE="1", TZ="UTC")
        p = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "tests", "-q", "-x", "--deselect", DES, "-p", "no:cacheprovider"] if False else
                           ["/opt/venv/bin/python", "-m", "pytest", "tests", "-q", "-p", "no:cacheprovider"], cwd=tmp, env=env, capture_output=True, text=True)
        last = (p.stdout.strip().splitlines() or [""])[-1]
        if "46 passed" not in last:
            r["result"] = "tests"
            return r
        imp = subprocess.run(["/opt/venv/bin/python", "-c", "import psion.oauth2.providers.starlette, psion.oidc, psion.oauth2.endpoints, psion.oauth2.grants, psion.oidc.flows.authorization_code"],
                             cwd=tmp, env=env, capture_output=True, text=True)
        if imp.returncode:
            r["result"] = "import"
            return r
        order = JOSE if "/jose/" in rel else OAUTH if "/oauth2/" in rel or "oidc/flows" in rel else JOSE + [x for x in OAUTH if x not in JOSE]
        if "oidc/claims" in rel:
            order = ["C26", "C25"]
        odd = []
        for pid in order:
            p = subprocess.run([sys.executable, VERIF_COPY + "/check.py", pid, "--first", "--root", tmp, "--out", tmp + "/ev"], capture_output=True, text=True)
            if p.returncode == 1:
                r["result"] = pid
                return r
            if p.returncode or "NOT-ANALYSED" in p.stdout:
                odd.append(f"{pid}:{p.returncode}:" + "|".join(l[:150] for l in p.stdout.splitlines() if l.startswith(("NOT-", "VAC")))[:300])
        r["result"] = "survives"
        r["odd"] = odd
        return r
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    out = sys.argv[1]
    done = set()
    if os.path.exists(out):
        for l in open(out):
            d = json.loads(l)
            done.add((d["file"], d["diff"]))
    jobs = []
    for f in sys.argv[2:]:
        p = os.path.join("/repo", f)
        base = ast.unparse(ast.parse(open(p).read()))
        for ln, desc, text in mutants(p):
            if (f, diff(base, text)) not in done:
                jobs.append((f, ln, desc, text, base))
    random.Random(7).shuffle(jobs)
    print(len(jobs), "mutants", flush=True)
    t0 = time.time()
    with ThreadPoolExecutor(int(os.environ.get("J", "8"))) as ex, open(out, "a") as fo:
        for n, r in enumerate(ex.map(one, jobs)):
            fo.write(json.dumps(r) + "\n")
            fo.flush()
    print("done", time.time() - t0)


VERIF_COPY = os.environ.get("PSA", VERIF)
if __name__ == "__main__":
    main()
