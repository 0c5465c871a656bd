#!/usr/bin/env python3
"""mkedits.py FILE.ed OUT [names]: trees with small edits, given as replacements in the source without comments and docstrings.

A file consists of blocks

    @@ Cxx.name path/below/src/psion.py
    old text
    ===
    new text

`@@ + path` continues the same tree with another replacement.
"""
import ast, os, shutil, sys


def bare(text):
    t = ast.parse(text)
    for n in ast.walk(t):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) \
                and isinstance(n.body[0].value, ast.Constant) and isinstance(n.body[0].value.value, str):
            n.body = n.body[1:] or [ast.Pass()]
    return ast.unparse(t)


def blocks(path):
    cur = None
    for line in open(path).read().split("\n"):
        if line.startswith("@@ "):
            if cur:
                yield cur
            name, file = line[3:].split()
            cur = [name, file, [], None]
        elif cur is not None and line == "===":
            cur[3] = []
        elif cur is not None:
            (cur[2] if cur[3] is None else cur[3]).append(line)
    if cur:
        yield cur


def main(path, out, names):
    name, done = None, []
    for n, file, old, new in blocks(path):
        name = name if n == "+" else n
        if names and name not in names:
            continue
        d = os.path.join(out, name)
        if n != "+":
            shutil.rmtree(d, ignore_errors=True)
            shutil.copytree("/repo", d, ignore=shutil.ignore_patterns(".git", "__pycache__"))
        p = os.path.join(d, "src/psion", file)
        raw = open(p).read()
        try:
            text = bare(raw)
        except SyntaxError:  # between two replacements
            text = raw
        a, b = "\n".join(old).strip("\n"), "\n".join(new).strip("\n")
        if text.count(a) != 1 and raw.count(a) == 1:
            text = raw
        if text.count(a) != 1:
            print("BAD", name, file, "occurs", text.count(a), "times:", a[:60])
            continue
        open(p, "w").write(text.replace(a, b))
        done.append((name, p))
    for name, p in done:
        try:
            ast.parse(open(p).read())
        except SyntaxError as e:
            print("BAD", name, e)


main(sys.argv[1], sys.argv[2], sys.argv[3:])
