#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--root /repo]

Decides one property from the source of the repository.  Exit 0: the property held on
every partition analysed.  Exit 1: VIOLATION line.  Exit 2: the analysis found nothing
to decide on (vacuous) and says so.
"""

import argparse
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def known_findings(pid):
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith(f"finding: property={pid} "):
                out.append(line.split(" ", 2)[2])
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--root", default="/repo")
    ap.add_argument("--out", default=os.path.join(HERE, "evidence"))
    ap.add_argument("--first", action="store_true", help="stop at the first finding (for sweeps)")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    from psa.report import Check, FirstFinding

    pid = a.property
    try:
        C = Check(pid, a.tier, a.root)
    except Exception as e:
        traceback.print_exc()
        print(f"ANALYSIS-FAILED property={pid} the program could not be loaded: {e}")
        return 2
    mod = importlib.import_module("props." + pid.lower())
    C.first = a.first
    try:
        mod.check(C)
    except FirstFinding:
        C.vacuous = []
    except Exception as e:
        traceback.print_exc()
        C.gap(f"the rest of this check: internal error {type(e).__name__}: {e}")
    if C.vacuous and not C.gaps and not C.wild:
        # everything was analysed, and what the property promises to work works in no partition
        for v in C.vacuous:
            C.bad("reachable", v)
        C.vacuous = []
    known = known_findings(pid)
    fresh = []
    for (rule, what), f in sorted(C.findings.items()):
        k = f"{rule}: {what}"
        if any(k.startswith(x) for x in known):
            print(f"KNOWN-FINDING: property={pid} {k}")
        else:
            fresh.append(f)
    ev = {
        "property": pid, "tier": a.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "coverage": {
            "explanation": "Path-sensitive abstract interpretation of the source (trace partitioning over provenance "
                           "terms, type tags, nullness and order facts); every partition of every abstract input class "
                           "was enumerated unless listed under not_analysed.",
            "functions_analysed": len(C.funcs), "functions": sorted(C.funcs)[:200],
            "input_classes": C.scenarios, "partitions": C.paths, "infeasible_partitions": C.infeasible,
            "obligations": C.obligations, "rules": C.rules, "samples": C.samples,
            "unmodelled_operations": C.wild, "not_analysed": C.gaps[:50], "vacuous": C.vacuous,
        },
        "assumptions": C.assumptions + [
            "library models in psa/ext.py (cryptography, base64, json, urllib, datetime, starlette)",
            "lists and mappings of unknown size are represented by generic elements (at most two)",
        ],
        "wall_s": round(time.time() - t0, 3),
        "violations": len(fresh),
    }
    os.makedirs(a.out, exist_ok=True)
    with open(os.path.join(a.out, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print(f"{pid}: {C.scenarios} input classes, {C.paths} partitions, {C.obligations} obligations, "
          f"{len(C.funcs)} functions, {len(C.gaps)} gaps, {len(fresh)} findings, {time.time() - t0:.1f}s")
    for g in C.gaps[:10]:
        print("NOT-ANALYSED", g)
    for w, n in list(C.wild.items())[:10]:
        print("UNMODELLED", w, n)
    if fresh:
        rp = os.path.join(a.out, f"{pid}.replay.json")
        with open(rp, "w") as f:
            json.dump(fresh, f, indent=1, default=str)
        for x in fresh[:8]:
            print(f"  [{x['rule']}] {x['what']}")
            if a.v:
                for l in x.get("path", [])[-40:]:
                    print("      ", l[:220])
                for l in x.get("events", []):
                    print("       event", l)
                print("       outcome", x.get("outcome"), x.get("origin"))
            else:
                for l in (x.get("origin") or [])[-2:]:
                    print("      at", l)
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    for v in C.vacuous:
        print(f"VACUOUS property={pid} {v}")
    if not C.obligations:
        return 2
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
