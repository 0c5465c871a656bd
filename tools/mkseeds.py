#!/usr/bin/env python3
"""Builds seeded/<id>/ from tools/seeds/*.seed: confirms each in a scratch copy of /repo.

A .seed file: a header of `key: value` lines (property, needs, breaks, file), then blocks
separated by lines `--- old`, `--- new` (repeatable, with `--- file <path>` in front) and `--- demo`.
"""
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(os.path.dirname(HERE), "seeded")
DEMO = """#!/bin/bash
# run in the root of the repository
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src:$here" TZ=UTC
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
exec "$py" -W ignore "$here/demo.py"
"""


def parse(path):
    meta, edits, demo, cur, f, mode = {}, [], [], None, None, "head"
    for line in open(path).read().split("\n"):
        if line.startswith("--- "):
            w = line[4:].split()
            mode = w[0]
            if mode == "file":
                f = w[1]
            elif mode == "old":
                edits.append([f, [], []])
            continue
        if mode == "head":
            if ":" in line:
                k, v = line.split(":", 1)
                meta[k.strip()] = v.strip()
        elif mode == "old":
            edits[-1][1].append(line)
        elif mode == "new":
            edits[-1][2].append(line)
        elif mode == "demo":
            demo.append(line)
    return meta, [(a, "\n".join(b), "\n".join(c)) for a, b, c in edits], "\n".join(demo)


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **kw)


def main(names):
    seeds = sorted(glob.glob(os.path.join(HERE, "seeds", "*.seed")))
    for s in seeds:
        name = os.path.basename(s)[:-5]
        if names and name not in names:
            continue
        meta, edits, demo = parse(s)
        tmp = tempfile.mkdtemp(prefix="seed-")
        repo = os.path.join(tmp, "repo")
        sh(f"cp -a /repo {repo}", "/")
        out = os.path.join(OUT, name)
        os.makedirs(out, exist_ok=True)
        with open(os.path.join(out, "demo.sh"), "w") as f:
            f.write(DEMO)
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        open(os.path.join(out, "demo.py"), "w").write(demo.strip("\n") + "\n")
        if "from app import" in demo or "import app" in demo:
            shutil.copy(os.path.join(HERE, "seeds", "app.py"), out)
        why = []
        r = sh(f"bash {out}/demo.sh", repo)
        if r.returncode:
            why.append("demo fails on the unchanged tree: " + (r.stderr + r.stdout)[-400:])
        for f, old, new in edits:
            p = os.path.join(repo, f)
            t = open(p).read()
            if t.count(old) != 1:
                why.append(f"{f}: the old text occurs {t.count(old)} times")
                continue
            open(p, "w").write(t.replace(old, new))
        d = sh("git diff", repo).stdout
        open(os.path.join(out, "patch.diff"), "w").write(d)
        r = sh(f"bash {out}/demo.sh", repo)
        if r.returncode == 0:
            why.append("demo passes with the change")
        last = (r.stderr.strip().split("\n") or [""])[-1]
        # lines removed must be original ones
        rem = [l[1:] for l in d.split("\n") if l.startswith("-") and not l.startswith("---")]
        for f, old, new in edits:
            orig = sh(f"git show e3d461f:{f}", "/repo").stdout.split("\n")
            if rem and not any(l in orig for l in rem if l.strip()):
                why.append("no original line is changed")
        r = sh("/opt/venv/bin/python -m pytest tests -q -p no:cacheprovider 2>&1 | tail -3", repo,
               env={**os.environ, "PYTHONPATH": repo + "/src", "PYTHONDONTWRITEBYTECODE": "1", "TZ": "UTC"})
        if "46 passed" not in r.stdout:
            why.append("tests: " + r.stdout.strip()[-200:])
        json.dump({"property": meta["property"], "needs": meta["needs"], "what_it_breaks": meta["breaks"]},
                  open(os.path.join(out, "meta.json"), "w"), indent=1)
        shutil.rmtree(tmp)
        print(name, "OK" if not why else "BAD", "; ".join(why), "|", last[:150])


main(sys.argv[1:])
