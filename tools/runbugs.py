#!/usr/bin/env python3
"""runbugs.py DIR [names]: for each tree DIR/Cxx.name: do the tests pass, does check Cxx report it (else, which does)?"""
import json, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = sys.argv[1]
names = sys.argv[2:] or sorted(os.listdir(d))
pids = [c["property"] for c in json.load(open(f"{VERIF}/MANIFEST.json"))["checks"]]


def run(name, pid):
    r = subprocess.run([sys.executable, f"{VERIF}/check.py", pid, "--first", "--root", f"{d}/{name}", "--out", f"/tmp/bug-ev/{name}"], capture_output=True, text=True)
    return r.returncode, r.stdout


def one(name):
    t = os.path.join(d, name)
    env = dict(os.environ, PYTHONPATH=t + "/src", PYTHONDONTWRITEBYTECODE="1", TZ="UTC")
    r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "tests", "-q", "-p", "no:cacheprovider"], cwd=t, env=env, capture_output=True, text=True)
    ok = "46 passed" in r.stdout
    pid = name.split(".")[0]
    rc, out = run(name, pid)
    what = [l.strip() for l in out.splitlines() if l.startswith("  [")]
    odd = [l for l in out.splitlines() if l.startswith(("NOT-", "UNMOD", "VAC"))]
    return f"{'ok   ' if ok else 'TESTS'} {'CAUGHT' if rc == 1 else 'MISSED rc=%d' % rc} {name} {(what or [''])[0][:130]} {odd[:2] if rc != 1 else ''}"


with ThreadPoolExecutor(int(os.environ.get("J", "7"))) as ex:
    for l in ex.map(one, names):
        print(l[:420], flush=True)
