#!/usr/bin/env python3
"""mkrefactors.py OUT [names]: trees with the handwritten behaviour-preserving edits of tools/refactors/*.rf.

`=== file::Class.method` replaces that function (or class) by the text below, `=== file::+` adds the text after the imports.
"""
import ast, glob, os, shutil, sys, textwrap

HERE = os.path.dirname(os.path.abspath(__file__))


def find(tree, qual):
    body, node = tree.body, None
    for part in qual.split("."):
        node = next(n for n in body if getattr(n, "name", None) == part)
        body = node.body
    return node


def edit(text, qual, new):
    tree = ast.parse(text)
    lines = text.split("\n")
    if qual == "+":
        last = max([n.end_lineno for n in tree.body if isinstance(n, (ast.Import, ast.ImportFrom))] or [0])
        return "\n".join(lines[:last] + ["", new.strip("\n"), ""] + lines[last:])
    n = find(tree, qual)
    start = min([n.lineno] + [d.lineno for d in n.decorator_list])
    ind = " " * n.col_offset
    return "\n".join(lines[:start - 1] + textwrap.indent(textwrap.dedent(new).strip("\n"), ind).split("\n") + lines[n.end_lineno:])


def main(out, names):
    for f in sorted(glob.glob(os.environ.get("RF", HERE + "/refactors") + "/*.rf")):
        name = os.path.basename(f)[:-3]
        if names and name not in names:
            continue
        d = os.path.join(out, name)
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree("/repo", d, ignore=shutil.ignore_patterns(".git", "__pycache__"))
        cur, buf, edits = None, [], []
        for line in open(f).read().split("\n") + ["=== end"]:
            if line.startswith("=== "):
                if cur:
                    edits.append((cur, "\n".join(buf)))
                cur, buf = line[4:].strip(), []
            else:
                buf.append(line)
        for target, new in edits:
            file, qual = target.split("::")
            p = os.path.join(d, "src/psion", file)
            try:
                t = edit(open(p).read(), qual, new)
                ast.parse(t)
            except Exception as e:
                print("BAD", name, target, repr(e))
                continue
            open(p, "w").write(t)


main(sys.argv[1], sys.argv[2:])
