#!/usr/bin/env python3
"""sweep.py DIR [-c C01,C02] [-j 7]: runs checks on every tree DIR/<name>; prints everything that is not quiet."""
import argparse, json, os, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument("dir")
ap.add_argument("-c", default="")
ap.add_argument("-n", default="")
ap.add_argument("-j", type=int, default=7)
ap.add_argument("--tests", action="store_true")
a = ap.parse_args()
pids = a.c.split(",") if a.c else [c["property"] for c in json.load(open(f"{VERIF}/MANIFEST.json"))["checks"]]
names = a.n.split(",") if a.n else sorted(os.listdir(a.dir))


def tests(name):
    d = os.path.join(a.dir, name)
    out = []
    env = dict(os.environ, PYTHONPATH=d + "/src", PYTHONDONTWRITEBYTECODE="1", TZ="UTC")
    r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "tests", "-q", "-p", "no:cacheprovider"], cwd=d, env=env, capture_output=True, text=True)
    last = r.stdout.strip().splitlines()[-1] if r.stdout.strip() else r.stderr[-200:]
    if "46 passed" not in last:
        out.append("TESTS " + last)
    for s in sorted(os.listdir(f"{VERIF}/seeded")):
        r = subprocess.run(["bash", f"{VERIF}/seeded/{s}/demo.sh"], cwd=d, capture_output=True, text=True)
        if r.returncode:
            out.append(f"DEMO {s} " + (r.stderr.strip().splitlines() or [""])[-1][:150])
    return name, out


def one(x):
    name, pid = x
    t = time.time()
    r = subprocess.run([sys.executable, f"{VERIF}/check.py", pid, "--root", os.path.join(a.dir, name), "--out", f"/tmp/sweep-ev/{name}"],
                       capture_output=True, text=True, env=dict(os.environ, VERIF_TIER="quick"))
    lines = r.stdout.splitlines()
    return name, pid, r.returncode, time.time() - t, lines + r.stderr.splitlines()[-3:]


with ThreadPoolExecutor(a.j) as ex:
    if a.tests:
        for n, o in ex.map(tests, names):
            for l in o:
                print(n, l, flush=True)
    else:
        for name, pid, rc, t, lines in ex.map(one, [(n, p) for p in pids for n in names]):
            odd = [l for l in lines if l.startswith(("NOT-ANALYSED", "UNMODELLED", "VACUOUS", "  [", "ANALYSIS"))]
            if rc or odd:
                print(f"{name} {pid} rc={rc} {t:.0f}s", flush=True)
                for l in odd[:4] or lines[-3:]:
                    print("      ", l[:260], flush=True)
