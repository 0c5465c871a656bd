"""Enumeration of the trace partitions of one entry point.

Every question the abstract state cannot answer splits the partition; the split is
replayed deterministically from a prefix of answers, so that the partitions form a
finite tree which is enumerated completely (or the analysis says that it was not).
"""

from __future__ import annotations

import sys
import time
import traceback

from .ctx import Ctx, Scenario
from .interp import Interp, Program
from .values import *

sys.setrecursionlimit(20000)


class Path:
    __slots__ = ("kind", "value", "origin", "ctx", "why", "scenario", "extra")

    def __init__(self, kind, value, ctx, origin=(), why="", extra=None):
        self.kind = kind          # "return", "raise", "unknown"
        self.value = value
        self.ctx = ctx
        self.origin = list(origin)
        self.why = why
        self.extra = extra

    @property
    def events(self):
        return self.ctx.events

    def ev(self, *kinds):
        return [e for e in self.ctx.events if e["kind"] in kinds]

    def exc_name(self):
        return self.value.cls.name if self.kind == "raise" else None

    def decisions(self):
        return [d for d in self.ctx.decisions]


class Result:
    def __init__(self, scenario):
        self.scenario = scenario
        self.paths = []
        self.infeasible = 0
        self.complete = True
        self.wild = {}
        self.funcs = set()
        self.unknown = []
        self.seconds = 0.0

    def returns(self):
        return [p for p in self.paths if p.kind == "return"]

    def raises(self):
        return [p for p in self.paths if p.kind == "raise"]


def loaded(root="/repo/src", package="psion"):
    """A fresh interpreter with every module of the package imported abstractly."""
    Mutable.cur_phase = 0
    prog = Program(root, package)
    I = Interp(prog)
    I.ctx = Ctx(Scenario("import"))
    I.exc_stack = []
    I.depth = 0
    for name in sorted(prog.asts):
        I.import_module(name)
    I.boot_wild = dict(I.ctx.wild)
    I.ctx.saved = {}
    return I


def run_all(I, scenario, entry, max_paths=20000, max_seconds=240.0, prune=None):
    """`entry(I)` returns the abstract result of the entry point."""
    res = Result(scenario)
    prefix = []
    t0 = time.time()
    while True:
        ctx = Ctx(scenario, prefix)
        I.ctx = ctx
        I.exc_stack = []
        I.depth = 0
        Mutable.cur_phase = 1
        try:
            v = entry(I)
            p = Path("return", v, ctx)
        except PyExc as e:
            p = Path("raise", e.obj, ctx, e.origin)
            p.extra = e.implicit
        except Infeasible as e:
            p = None
            res.infeasible += 1
        except (Budget, Unsupported) as e:
            p = Path("unknown", None, ctx, ctx.where(), f"{type(e).__name__}: {e}")
        except RecursionError as e:
            p = Path("unknown", None, ctx, ctx.where()[-5:], "RecursionError")
        except Exception as e:  # a gap of the analyser itself
            tb = traceback.extract_tb(e.__traceback__)[-1]
            p = Path("unknown", None, ctx, ctx.where(),
                     f"analyser: {type(e).__name__}: {e} ({tb.filename.rsplit('/', 1)[-1]}:{tb.lineno})")
        finally:
            ctx.rollback()
            Mutable.cur_phase = 0
        res.funcs |= ctx.funcs
        if p is not None:
            for w, n in ctx.wild.items():
                res.wild[w] = res.wild.get(w, 0) + n
            if p.kind == "unknown":
                res.unknown.append(p)
            else:
                res.paths.append(p)
        trail = ctx.trail[:]
        while trail and trail[-1][0] + 1 >= trail[-1][1]:
            trail.pop()
        if not trail:
            break
        prefix = [i for i, _ in trail[:-1]] + [trail[-1][0] + 1]
        if len(res.paths) + len(res.unknown) >= max_paths or time.time() - t0 > max_seconds:
            res.complete = False
            break
    res.seconds = time.time() - t0
    return res
