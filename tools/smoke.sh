#!/bin/bash
# every check on /repo; prints those that are not quiet or have gaps
cd "$(dirname "$0")/.." || exit 2
python3 - <<'P' | xargs -P "${J:-8}" -I{} sh -c 'python3 check.py {} ${ROOT:+--root $ROOT --out /tmp/smoke-ev} > /tmp/smoke.{} 2>&1; echo "{} rc=$? $(grep -c NOT-ANALYSED /tmp/smoke.{}) gaps $(grep -o "[0-9.]*s$" /tmp/smoke.{} | tail -1)"; grep -E "^  \[|VACUOUS" /tmp/smoke.{} | head -5; rm -f /tmp/smoke.{}'
import json
for c in json.load(open("MANIFEST.json"))["checks"]: print(c["property"])
P
