"""What the library encodes it decodes to the same value."""
from psa import jose as J, oauth as O
from psa.ctx import Scenario
from psa.values import *
from psa.values import T_BYTES, T_INT, T_STR

N = J.sym("number", T_INT, positive=True)
B = J.sym("octets", T_BYTES)
S = J.sym("text", T_STR)
F = J.sym("number-any", T_INT)
A, Z = J.sym("member-a", T_STR), J.sym("member-z", T_STR)


def web(I, name):
    return I.import_module("psion.webtools").attrs[name]


def chain(names, value, via=None):
    def entry(I):
        v = value(I) if callable(value) else value
        Mutable.cur_phase = 2
        for n in names:
            v = I.ctx.n(I.call(I.getattr(v, n[1:]), [], {}) if n.startswith(".") else I.call(web(I, n), [v], {}))
        return v
    return entry


def check(C):
    O.setup(C)
    C.rule("integer", "a positive integer of any size is the same after int_to_b64 and b64_to_int, given as bytes or text; what is no natural number is refused with ValueError")
    C.rule("octets", "octets of any length are the same after base64url_encode and base64url_decode; the encoded form is unpadded and URL safe")
    C.rule("text", "text is the same after to_bytes and to_string; values that have the asked type already and None stay as they are")
    C.rule("json", "a JSON document is the same after json_dumps and json_loads, read as text or as bytes")
    C.rule("full", "a FullDict has exactly the members given that are not None, given as a mapping, by name or by assignment; the mapping given is left alone")
    have = C.I.import_module("psion.webtools").attrs

    def run(rule, what, names, value, judge, facts=None, raises=()):
        gone = [n for n in names if not n.startswith(".") and n not in have]
        if gone:
            C.gap(f"{gone[0]} does not exist")
            return
        sc = Scenario(what)
        if facts:
            facts(sc)
        r = C.run(sc, chain(names, value))
        C.guard(r.paths or r.unknown, f"no partition of {what}")
        C.oblige(rule, len(r.paths))
        for p in r.paths:
            C.I.ctx = p.ctx
            if p.kind == "raise":
                if p.exc_name() not in raises:
                    C.bad(rule, f"{what} raises {p.exc_name()}", p)
            elif raises:
                C.bad(rule, f"{what} gives {show(C.I.ctx.n(p.value))[:60]}", p)
            else:
                why = judge(C.I, C.I.ctx.n(p.value))
                if why:
                    C.bad(rule, f"{what}: {why}", p)

    def equals(want):
        def judge(I, v):
            if type(v) is bool and not isinstance(want, bool):
                return f"the result is {v}"
            if v is want or not isinstance(v, Mutable) and O.same(I, v, want):
                return None
            return f"the result is {show(v)[:80]}"
        return judge

    # integers: one symbol for all of them, and the sizes around the octet boundaries one by one
    run("integer", "a positive integer, encoded and decoded", ["int_to_b64", "b64_to_int"], N, equals(N))
    run("integer", "a positive integer, encoded, read as text and decoded", ["int_to_b64", ".decode", "b64_to_int"], N, equals(N))
    for x, what in ((S, "text"), (B, "octets"), (None, "nothing"), (J.sym("fraction", frozenset({"float"})), "a fraction")):
        run("integer", f"{what} as a number", ["int_to_b64"], x, None, raises=("ValueError",))
    run("integer", "a negative integer", ["int_to_b64"], F, None, lambda sc: sc.bound(F, 0, [-1]), raises=("ValueError",))

    # octets
    def encoded(I, v):
        if isinstance(v, bytes):
            return None if not set(v) & set(b"=+/") else f"the form is {v!r}"
        if isinstance(v, Term) and v.op == "b64":
            return None if v.args[0] == "url" and v.args[1] is False else f"the form is {show(v)[:60]}"
        return f"the form is {show(v)[:60]}"
    run("octets", "octets, encoded and decoded", ["base64url_encode", "base64url_decode"], B, equals(B))
    run("octets", "octets, encoded", ["base64url_encode"], B, encoded)
    run("octets", "text, encoded and decoded", ["base64url_encode", "base64url_decode", "to_string"], S, equals(S))

    # text
    run("text", "text, to octets and back", ["to_bytes", "to_string"], S, equals(S))
    for fn, x, what in (("to_bytes", B, "octets"), ("to_bytes", None, "nothing"), ("to_string", S, "text"), ("to_string", None, "nothing"),
                        ("to_bytes", b"", "no octets"), ("to_string", "", "empty text")):
        run("text", f"{what} through {fn}", [fn], x, equals(x))

    # JSON
    for mid, what in (([], "text"), (["to_bytes"], "octets")):
        def doc(I):
            return J.adict({"a": A, "n": F, "none": None, "yes": True, "list": AList([Z, F])})

        def same(I, v):
            m = J.mapping_of(I, v)
            if not isinstance(m, ADict):
                return f"the result is {show(v)[:80]}"
            got = {e.key: I.ctx.n(e.val) for e in m.entries.values()}
            if set(got) != {"a", "n", "none", "yes", "list"}:
                return f"the members are {sorted(map(str, got))}"
            ok = O.same(I, got["a"], A) and O.same(I, got["n"], F) and got["none"] is None and got["yes"] is True
            xs = O.listed(I, got["list"])
            ok = ok and xs is not None and len(xs) == 2 and O.same(I, xs[0], Z) and O.same(I, xs[1], F)
            return None if ok else f"the members are {', '.join(k + '=' + show(x)[:30] for k, x in got.items())}"
        run("json", f"a document, written and read as {what}", ["json_dumps"] + mid + ["json_loads"], doc, same)
    for x, what in ((F, "a number"), (None, "nothing")):
        run("json", f"{what} as a document", ["json_loads"], x, None, raises=("TypeError",))

    # mappings without None
    if "FullDict" in have:
        full(C, have)


VALUES = {"false": False, "zero": 0, "empty": "", "none": None, "text": A}


def full(C, have):
    def go(what, entry, want, given=None):
        sc = Scenario(what)
        r = C.run(sc, entry)
        C.guard(r.paths or r.unknown, f"no partition of {what}")
        C.oblige("full", len(r.paths))
        for p in r.paths:
            C.I.ctx = p.ctx
            if p.kind == "raise":
                C.bad("full", f"{what} raises {p.exc_name()}", p)
                continue
            v, left = p.value
            got = members(C.I, v)
            if got is None:
                C.bad("full", f"{what}: the result is {show(v)[:60]}", p)
            elif set(got) != set(want) or any(not eq(C.I, got[k], want[k]) for k in want):
                C.bad("full", f"{what}: the members are {', '.join(str(k) + '=' + show(x)[:30] for k, x in got.items())}", p)
            if left is not None:
                m = members(C.I, left)
                if m is None or set(m) != set(VALUES) or any(not eq(C.I, m[k], VALUES[k]) for k in m):
                    C.bad("full", f"{what}: the mapping given is changed", p)

    def members(I, v):
        m = J.mapping_of(I, v)
        return None if not isinstance(m, ADict) else {e.key: I.ctx.n(e.val) for e in m.entries.values()}

    def eq(I, a, b):
        if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
            return a is b
        return O.same(I, a, b)
    kept = {k: v for k, v in VALUES.items() if v is not None}

    def mapping(I):
        d = J.adict(VALUES)
        Mutable.cur_phase = 2
        return I.call(have["FullDict"], [d], {}), d

    def named(I):
        Mutable.cur_phase = 2
        return I.call(have["FullDict"], [], dict(VALUES)), None

    def both(I):
        d = J.adict(VALUES)
        Mutable.cur_phase = 2
        return I.call(have["FullDict"], [d], {"text": Z, "more": None, "other": 0}), d

    def assigned(I):
        Mutable.cur_phase = 2
        o = I.call(have["FullDict"], [], {})
        for k, v in VALUES.items():
            I.setitem(o, k, v)
        return o, None

    def kept_(I):
        Mutable.cur_phase = 2
        o = I.call(have["FullDict"], [], {"text": A})
        I.setitem(o, "text", Z)
        return o, None
    go("a mapping made full", mapping, kept)
    go("members by name made full", named, kept)
    go("a mapping and members by name made full", both, {**kept, "text": Z, "other": 0})
    go("members assigned one by one", assigned, kept)
    go("a member assigned anew", kept_, {"text": Z})
    go("nothing made full", lambda I: (I.call(have["FullDict"], [], {}), None), {})
    go("None made full", lambda I: (I.call(have["FullDict"], [None], {}), None), {})
