"""Collects obligations, findings and gaps of one property check."""

from __future__ import annotations

import json
import os
import time

from .ctx import Scenario
from .explore import Result, loaded, run_all
from .values import *


LIMIT = 780.0   # seconds of analysis per check


class FirstFinding(BaseException):
    pass


class Check:
    first = False

    def __init__(self, pid, tier, root):
        self.pid, self.tier, self.root = pid, tier, root
        self.t0 = time.time()
        self.I = loaded(os.path.join(root, "src"))
        self.findings = {}
        self.gaps = []
        self.vacuous = []
        self.obligations = 0
        self.discharged = 0
        self.paths = 0
        self.infeasible = 0
        self.scenarios = 0
        self.funcs = set()
        self.wild = {}
        self.rules = {}
        self.assumptions = []
        self.samples = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    # ---------------------------------------------------------------- running
    def run(self, scenario, entry, **kw):
        left = LIMIT - (time.time() - self.t0)
        if left < 1:
            self.gap(f"{scenario.name}: not analysed, the time of this check is used up")
            return Result(scenario)
        kw["max_seconds"] = min(kw.get("max_seconds", 240.0), left)
        r = run_all(self.I, scenario, entry, **kw)
        if hasattr(scenario, "world"):
            from .oauth import consistent
            keep = []
            for p in r.paths:
                self.I.ctx = p.ctx
                if consistent(self.I):
                    keep.append(p)
                else:
                    r.infeasible += 1
            r.paths = keep
        self.scenarios += 1
        self.paths += len(r.paths)
        self.infeasible += r.infeasible
        self.funcs |= {f for f in r.funcs if 'psaworld' not in f}
        for w, n in r.wild.items():
            self.wild[w] = self.wild.get(w, 0) + n
        for u in r.unknown:
            self.gap(f"{scenario.name}: {u.why}", u.origin[-1] if u.origin else "")
        if not r.complete:
            self.gap(f"{scenario.name}: enumeration of partitions stopped at {len(r.paths)}")
        return r

    def gap(self, what, where=""):
        if len(self.gaps) < 200:
            self.gaps.append(f"{what} {where}".strip())

    def rule(self, name, text):
        self.rules[name] = {"rule": text, "obligations": 0}

    def oblige(self, rule, n=1):
        self.obligations += n
        if rule in self.rules:
            self.rules[rule]["obligations"] += n

    def guard(self, ok, what):
        """Non-vacuity: the construct the rule is about must exist / be reachable."""
        if not ok:
            self.vacuous.append(what)

    # ---------------------------------------------------------------- findings
    def bad(self, rule, what, path=None, where=None):
        if path is not None and path.ctx.wild:
            self.gap(f"{rule}: {what} on a path with unmodelled operations {sorted(path.ctx.wild)[:3]}")
            return
        key = (rule, what)
        if key in self.findings:
            self.findings[key]["count"] += 1
            return
        f = {"rule": rule, "what": what, "count": 1}
        if where:
            f["where"] = where
        if path is not None:
            f["scenario"] = path.scenario_name if hasattr(path, "scenario_name") else path.ctx.scenario.name
            f["outcome"] = path.kind + (f" {path.exc_name()}" if path.kind == "raise" else "")
            f["origin"] = path.origin[-6:]
            f["path"] = [f"{d.loc[0]}:{d.loc[2]} {d.loc[1]}: {d.text()}" for d in path.ctx.decisions][-60:]
            f["events"] = [e["kind"] + " " + (e["where"][-1] if e["where"] else "") for e in path.ctx.events][-40:]
        self.findings[key] = f
        if self.first:
            raise FirstFinding

    def sample(self, what):
        if len(self.samples) < 12:
            self.samples.append(what)


def describe(path):
    return [f"{d.loc[0]}:{d.loc[2]} {d.text()}" for d in path.ctx.decisions]
