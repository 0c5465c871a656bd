#!/usr/bin/env python3
"""Runs every check (or only the bug's own, with --own) on a scratch copy with each planted bug."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, "seeded")


def one(args):
    name, pids = args
    d = os.path.join(SEEDED, name)
    own = json.load(open(os.path.join(d, "meta.json")))["property"]
    tmp = tempfile.mkdtemp(prefix="rs-")
    try:
        repo = os.path.join(tmp, "repo")
        subprocess.run(["cp", "-a", "/repo", repo], check=True)
        subprocess.run(["git", "apply", os.path.join(d, "patch.diff")], cwd=repo, check=True)
        res = {}
        for p in pids or [own]:
            r = subprocess.run([sys.executable, "check.py", p, "--tier", "quick", "--root", repo, "--first", "--out", os.path.join(tmp, "ev")],
                               cwd=VERIF, capture_output=True, text=True)
            res[p] = (r.returncode, next((l for l in r.stdout.splitlines() if "VIOLATION" in l or "GAP" in l), "")[:160])
        return name, own, res
    finally:
        shutil.rmtree(tmp)


def main():
    a = sys.argv[1:]
    allp = "--all" in a
    names = [x for x in a if not x.startswith("-")] or sorted(os.listdir(SEEDED))
    pids = [c["property"] for c in json.load(open(os.path.join(VERIF, "MANIFEST.json")))["checks"]] if allp else None
    with ThreadPoolExecutor(8) as ex:
        for name, own, res in ex.map(one, [(n, pids) for n in names]):
            hit = sorted(p for p, (c, _) in res.items() if c == 1)
            odd = sorted(f"{p}:{c}" for p, (c, _) in res.items() if c not in (0, 1))
            print(f"{name:28} own={own} {'CAUGHT' if own in hit else 'MISSED'} by={','.join(hit)} odd={','.join(odd)} {res[own][1] if own in res else ''}", flush=True)


main()
