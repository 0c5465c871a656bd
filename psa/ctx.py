"""The abstract state of one partition of traces: facts, decisions, events."""

from __future__ import annotations

import math

from .values import (
    ADict, AList, AObj, Budget, Infeasible, Mutable, NATIVE, Term, ckey, show,
    T_BOOL, T_BYTES, T_INT, T_NUM, T_STR,
)

NUMERIC = frozenset({"int", "float", "bool"})


class Decision:
    __slots__ = ("kind", "args", "choice", "options", "loc", "forced")

    def __init__(self, kind, args, choice, options, loc, forced):
        self.kind, self.args, self.choice = kind, args, choice
        self.options, self.loc, self.forced = options, loc, forced

    def text(self):
        a = ", ".join(show(x) for x in self.args)
        return f"{self.kind}({a}) = {self.choice!r}"


class Scenario:
    """A class of abstract inputs: facts that hold initially, plus an oracle that
    answers questions about atoms lazily (None: both answers are possible)."""

    def __init__(self, name=""):
        self.name = name
        self.eqs = []
        self.facts = {}
        self.types = {}
        self.bounds = []
        self.oracles = []
        self.expand = {}
        self.surrogates = False  # may texts contain lone surrogates?
        self.deep = {}         # JSON value -> "read" / "copy": too deeply nested to be read / to be copied or written

    def copy(self):
        s = Scenario(self.name)
        s.surrogates = self.surrogates
        s.deep = dict(self.deep)
        s.eqs = list(self.eqs)
        s.facts = dict(self.facts)
        s.types = dict(self.types)
        s.bounds = list(self.bounds)
        s.oracles = list(self.oracles)
        s.expand = dict(self.expand)
        return s

    def eq(self, a, b, value=True):
        self.eqs.append((a, b, value))
        return self

    def fact(self, kind, *args, value=True):
        self.facts[(kind,) + tuple(ckey(a) for a in args)] = value
        return self

    def typ(self, term, tags):
        self.types[term] = frozenset([tags] if isinstance(tags, str) else tags)
        return self

    def bound(self, a, b, signs):
        """sign(a-b) is in `signs` (a subset of -1, 0, 1)."""
        self.bounds.append((a, b, frozenset(signs)))
        return self

    def oracle(self, fn):
        self.oracles.append(fn)
        return self


class Ctx:
    MAX_STEPS = 60000
    MAX_FORKS = 400

    def __init__(self, scenario, prefix=()):
        self.scenario = scenario
        self.prefix = list(prefix)
        self.pos = 0
        self.trail = []  # (index, number of options) of real forks
        self.decisions = []
        self.facts = {}
        self.uf = {}
        self.consts = {}
        self.diseq = []
        self.shapes = {}
        self.types = {}
        self.lo = {}
        self.hi = {}
        self.excl = {}
        self.expand = {}
        self.events = []
        self.saved = {}
        self.stack = []
        self.steps = 0
        self.wild = {}
        self.funcs = set()
        self.mutations = []
        self.coros = []
        self.fresh_n = {}
        self.notes = []
        self.calls = 0
        self.load(scenario)

    # ------------------------------------------------------------------ set up
    def load(self, sc):
        self.facts.update(sc.facts)
        for t, v in sc.expand.items():
            self.expand[t] = v() if callable(v) else v
        for t, tags in sc.types.items():
            self.types[t] = tags
        for a, b, v in sc.eqs:
            if v:
                self.union(a, b)
            else:
                self.diseq.append((ckey(a), ckey(b)))
        for a, b, signs in sc.bounds:
            lin = self.lin_sub(self.lin_of(a), self.lin_of(b))
            self.narrow(lin, signs)

    # ------------------------------------------------------------------ state
    def loc(self):
        for fr in reversed(self.stack):
            return (fr[0], fr[1], fr[2].line if fr[2] is not None else 0)
        return ("?", "?", 0)

    def where(self):
        return [
            f"{f}:{fr.line if fr is not None else 0} in {q}" for f, q, fr in self.stack
        ]

    def event(self, kind, **data):
        data["kind"] = kind
        data["where"] = self.where()
        data["ndec"] = len(self.decisions)
        self.events.append(data)
        return data

    def step(self):
        self.steps += 1
        if self.steps > self.MAX_STEPS:
            raise Budget("steps")

    def touch(self, obj, what):
        """Called before a mutable object is written."""
        if obj.phase == 0 and Mutable.cur_phase > 0 and id(obj) not in self.saved:
            self.saved[id(obj)] = (obj, obj.snapshot())
        if Mutable.cur_phase >= 2 and obj.phase < 2:
            self.mutations.append((obj, what, self.where()))

    def rollback(self):
        for obj, snap in self.saved.values():
            obj.restore(snap)
        self.saved = {}

    def fresh(self, stem):
        n = self.fresh_n.get(stem, 0)
        self.fresh_n[stem] = n + 1
        return f"{stem}#{n}" if n else stem

    # ------------------------------------------------------------------ choice
    def choose(self, kind, args, options):
        key = (kind,) + tuple(ckey(a) for a in args)
        if key in self.facts:
            return self.facts[key]
        v = self.ask(kind, args, options)
        self.facts[key] = v
        return v

    def ask(self, kind, args, options):
        options = list(options)
        if not options:
            raise Infeasible(kind)
        if len(options) == 1:
            return options[0]
        for o in self.scenario.oracles:
            v = o(self, kind, args)
            if v is not None:
                if v not in options:
                    raise Infeasible(f"{kind} {v!r} not in {options!r}")
                self.decisions.append(Decision(kind, args, v, options, self.loc(), True))
                return v
        if self.pos < len(self.prefix):
            idx = self.prefix[self.pos]
        else:
            idx = 0
        self.pos += 1
        if self.pos > self.MAX_FORKS:
            raise Budget("forks")
        self.trail.append((idx, len(options)))
        v = options[idx]
        self.decisions.append(Decision(kind, args, v, options, self.loc(), False))
        return v

    # ------------------------------------------------------------------ equality
    def find(self, k):
        uf = self.uf
        while k in uf:
            k = uf[k]
        return k

    def union(self, a, b):
        ka, kb = ckey(a), ckey(b)
        ra, rb = self.find(ka), self.find(kb)
        if ra == rb:
            return
        ca = a if not isinstance(a, Term) else self.consts.get(ra, (None,))
        cb = b if not isinstance(b, Term) else self.consts.get(rb, (None,))
        # constants become the representative of their class
        if isinstance(ra, Term):
            self.uf[ra] = rb
        else:
            self.uf[rb] = ra

    def const_of(self, t):
        """The constant `t` is known to equal, as (True, value) or (False, None)."""
        r = self.find(t)
        if isinstance(r, tuple) and r[0] == "c":
            v = r[2]
            return True, v
        return False, None

    def n(self, v):
        """Normalise: expand, and replace a term by the constant it equals."""
        if isinstance(v, Term):
            ok, c = self.const_of(v)
            if ok:
                if isinstance(c, int) and not isinstance(c, bool):
                    tags = self.tags(v)
                    if tags == T_BOOL:
                        return bool(c)
                return c
            tags = self.types.get(v)
            if tags is not None and tags == frozenset({"none"}):
                return None
            e = self.expand.get(v)
            if e is not None:
                return self.n(e) if isinstance(e, Term) else e
        return v

    def known_eq(self, a, b):
        """True / False / None without deciding anything."""
        ka, kb = ckey(a), ckey(b)
        if ka == kb:
            return True
        ra, rb = self.find(ka), self.find(kb)
        if ra == rb:
            return True
        if not isinstance(ra, Term) and not isinstance(rb, Term):
            return False
        for x, y in self.diseq:
            fx, fy = self.find(x), self.find(y)
            if (fx == ra and fy == rb) or (fx == rb and fy == ra):
                return False
        return None

    def eq_atoms(self, a, b):
        k = self.known_eq(a, b)
        if k is not None:
            return k
        ta, tb = self.tags(a), self.tags(b)
        if not (ta & tb) and not ((ta & NUMERIC) and (tb & NUMERIC)):
            return False
        if isinstance(a, Term) and isinstance(b, Term) and b.uid < a.uid:
            a, b = b, a
        elif not isinstance(a, Term):
            a, b = b, a
        v = self.ask("eq", (a, b), [True, False])
        if v:
            self.union(a, b)
            if isinstance(a, Term) and len(ta & tb) < len(ta):
                self.types[a] = (ta & tb) or ta
        else:
            self.diseq.append((ckey(a), ckey(b)))
        return v

    # ------------------------------------------------------------------ types
    def tags(self, v):
        if isinstance(v, Term):
            ok, c = self.const_of(v)
            if ok:
                t = self.types.get(v, v.ty)
                if len(t) > 1:
                    return tag_of_const(c)
                return t
            return self.types.get(v, v.ty)
        return tag_of_const(v)

    def decide_type(self, t, tags):
        """Is the runtime type of `t` one of `tags`?"""
        cur = self.tags(t)
        yes, no = cur & tags, cur - tags
        if not no:
            return True
        if not yes:
            return False
        v = self.ask("type", (t, tuple(sorted(yes))), [True, False])
        self.types[t] = yes if v else no
        return v

    # ------------------------------------------------------------------ numbers
    def lin_of(self, v):
        v = self.n(v)
        if isinstance(v, bool):
            return ((), int(v))
        if isinstance(v, (int, float)):
            return ((), v)
        if isinstance(v, Term):
            if v.op == "lin":
                out = {}
                c = v.args[1]
                for t, k in v.args[0]:
                    m = self.n(t)
                    if isinstance(m, (int, float)):
                        c += k * m
                    else:
                        out[m] = out.get(m, 0) + k
                return (tuple(sorted(((t, k) for t, k in out.items() if k), key=lambda x: x[0].uid)), c)
            if v.op == "nowf":
                return (((v.args[0] if v.args else Term("sym", ("now",), T_INT), 1),), 0)
            return (((v, 1),), 0)
        return None

    def lin_sub(self, a, b):
        d = dict(a[0])
        for t, k in b[0]:
            d[t] = d.get(t, 0) - k
        items = tuple(sorted(((t, k) for t, k in d.items() if k), key=lambda x: x[0].uid))
        return (items, a[1] - b[1])

    def _canon(self, lin):
        items, c = lin
        flip = items[0][1] < 0
        if flip:
            items = tuple((t, -k) for t, k in items)
            c = -c
        return items, c, flip

    def bounds_of(self, items):
        lo = self.lo.get(items, float("-inf"))
        hi = self.hi.get(items, float("inf"))
        if len(items) == 1 and items[0][1] == 1:
            op = items[0][0].op
            if op in ("len", "mod", "find", "bitlen"):
                lo = max(lo, 0)
            if items[0][0].meta.get("positive"):
                lo = max(lo, 1)
            if op == "len" and items[0][0].args and isinstance(items[0][0].args[0], Term):
                if items[0][0].args[0].meta.get("nonempty"):
                    lo = max(lo, 1)
            if op == "mod" and isinstance(items[0][0].args[1], int):
                hi = min(hi, items[0][0].args[1] - 1)
        elif len(items) > 1 and all(t.op == "len" and k > 0 for t, k in items):
            lo = max(lo, sum(k * (1 if isinstance(t.args[0], Term) and t.args[0].meta.get("nonempty") else 0) for t, k in items))
        if any(t.op == "//" and isinstance(t.args[1], int) and t.args[1] > 0 for t, _ in items):
            l2, h2 = self.floor_bounds(items)
            lo, hi = max(lo, l2), min(hi, h2)
        return lo, hi

    def lin_bounds(self, lin):
        """Bounds of a linear form from what is known."""
        items, c = lin
        if not items:
            return c, c
        items, c, flip = self._canon(lin)
        lo, hi = self.bounds_of(items)
        lo, hi = lo + c, hi + c
        return (-hi, -lo) if flip else (lo, hi)

    def floor_bounds(self, items):
        """Bounds of a linear form with quotients x // m, from the bounds of the x."""
        inf = float("inf")
        fl = [(t, k) for t, k in items if t.op == "//" and isinstance(t.args[1], int) and t.args[1] > 0]
        rest = [(t, k) for t, k in items if (t, k) not in fl]
        m = fl[0][0].args[1]
        down = lambda x: x if x in (inf, -inf) else math.floor(x / m)
        up = lambda x: x if x in (inf, -inf) else math.ceil(x / m)
        if not rest and len(fl) == 1 and fl[0][1] == 1:
            lo, hi = self.lin_bounds(self.lin_of(fl[0][0].args[0]))
            return down(lo), down(hi)
        if not rest and len(fl) == 2 and fl[1][0].args[1] == m and {fl[0][1], fl[1][1]} == {1, -1}:
            a, b = (fl[0][0], fl[1][0]) if fl[0][1] == 1 else (fl[1][0], fl[0][0])
            lo, hi = self.lin_bounds(self.lin_sub(self.lin_of(a.args[0]), self.lin_of(b.args[0])))
            return down(lo), up(hi)
        if len(fl) == 1 and rest and fl[0][1] % m == 0:
            x, q = self.lin_of(fl[0][0].args[0]), fl[0][1] // m
            d = {}
            for t, k in list(rest) + [(t, k * q) for t, k in x[0]]:
                d[t] = d.get(t, 0) + k
            lin = (tuple(sorted(((t, k) for t, k in d.items() if k), key=lambda y: y[0].uid)), q * x[1])
            lo, hi = self.lin_bounds(lin)
            return (lo - q * (m - 1), hi) if q > 0 else (lo, hi - q * (m - 1))
        return -inf, inf

    def sign_set(self, lin):
        items, c = lin
        if not items:
            return {(c > 0) - (c < 0)}
        items, c, flip = self._canon(lin)
        lo, hi = self.bounds_of(items)
        p = -c  # sign of T - p
        s = set()
        if lo < p:
            s.add(-1)
        if lo <= p <= hi and p not in self.excl.get(items, ()):
            s.add(0)
        if hi > p:
            s.add(1)
        if flip:
            s = {-x for x in s}
        return s

    def narrow(self, lin, signs):
        items, c = lin
        if not items:
            return
        items, c, flip = self._canon(lin)
        p = -c
        if flip:
            signs = {-x for x in signs}
        lo, hi = self.bounds_of(items)
        if -1 not in signs:
            lo = max(lo, p)
        if 1 not in signs:
            hi = min(hi, p)
        if 0 not in signs:
            self.excl.setdefault(items, set()).add(p)
            if -1 not in signs:
                lo = max(lo, p + 1)
            if 1 not in signs:
                hi = min(hi, p - 1)
        self.lo[items], self.hi[items] = lo, hi

    def decide_sign(self, lin, want):
        """Is sign(lin) in `want`?"""
        cur = self.sign_set(lin)
        want = frozenset(want)
        yes, no = cur & want, cur - want
        if not no:
            return True
        if not yes:
            return False
        items, c = lin
        t = Term("lin", (items, c), T_INT)
        shape = None
        if len(items) == 1 and items[0][0].op == "mod" and isinstance(items[0][0].args[0], Term) and items[0][0].args[0].op in ("bitlen", "len"):
            # whether the size of a number is a multiple of something: all numbers of one partition agree
            m = items[0][0].args
            shape = (m[0].op, m[0].args[0].op if isinstance(m[0].args[0], Term) else None, m[1], items[0][1], c, want)
        if shape is not None and m[0].op == "bitlen" and shape in self.shapes:
            v = self.shapes[shape]
        else:
            v = self.ask("sign", (t, tuple(sorted(want))), [True, False])
            if shape is not None:
                self.shapes[shape] = v
        self.narrow(lin, yes if v else no)
        return v

    def is_zero(self, v, r=0):
        """Is the number v equal to r, as far as is known?"""
        if isinstance(v, (int, float)):
            return v == r
        k = self.known_eq(v, r)
        if k is not None:
            return k
        s = self.sign_set(self.lin_sub(self.lin_of(v), ((), r)))
        return True if s == {0} else False if 0 not in s else None

    def note_wild(self, what):
        self.wild[what] = self.wild.get(what, 0) + 1


def tag_of_const(v):
    if v is None:
        return frozenset({"none"})
    if isinstance(v, bool):
        return T_BOOL
    if isinstance(v, int):
        return T_INT
    if isinstance(v, float):
        return frozenset({"float"})
    if isinstance(v, str):
        return T_STR
    if isinstance(v, bytes):
        return T_BYTES
    if isinstance(v, tuple):
        return frozenset({"tuple"})
    if isinstance(v, AList):
        return frozenset({"list"})
    if isinstance(v, ADict):
        return frozenset({"dict"})
    if isinstance(v, AObj) and v.payload is not None:
        return tag_of_const(v.payload)
    return frozenset({"obj"})
