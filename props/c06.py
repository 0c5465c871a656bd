"""Types of the registered claims and the expectations of the caller."""
import itertools

from psa import ext, jose as J
from psa.ctx import Scenario
from psa.values import *
from psa.values import T_ANY, T_JSON, T_STR
from props.c05 import SITES, base, build

ALL = frozenset({"bool", "int", "float", "str", "list", "dict"})
KINDS = {"iss": ALL - {"str"}, "sub": ALL - {"str"}, "jti": ALL - {"str"}, "aud": ALL - {"str", "list"},
         "exp": ALL - {"int"}, "nbf": ALL - {"int"}, "iat": ALL - {"int"}}
NOW = ext.NOW
X, Y, Z = (J.sym(f"expected-{n}", T_STR, nonempty=True) for n in "xyz")
ITEM = [Term("sym", (f"item{i}",), T_JSON) for i in range(20)]


def in_range(sc, names):
    for c, ok in (("exp", {1}), ("nbf", {-1, 0}), ("iat", {-1, 0})):
        if c in names:
            sc.typ(J.citem(c), "int")
            sc.bound(J.citem(c), NOW, ok)


def with_options(site, mk):
    def entry(I):
        opts = mk(I)
        key = J.make_key(I, "oct") if site == "decode" else None
        Mutable.cur_phase = 2
        if site == "claims":
            return I.call(J.cls(I, "psion.jose.jwt", "JsonWebTokenClaims"), [J.CLAIMS, opts], {})
        tok = J.token(I, J.H_SEG, J.C_SEG, J.SIG)
        return J.decode(I, "jwt", tok, key, "HS256", None, opts)
    return entry


def options(spec):
    return lambda I: J.adict({c: J.adict({k: AList(v) if isinstance(v, list) else v for k, v in o.items()})
                              if isinstance(o, dict) else o for c, o in spec})


# ways in which an expectation about the claim `c` is met or violated
def good(sc, c, how):
    t = J.citem(c)
    sc.fact("present", J.src(J.CLAIMS), c, value=True)
    if how in IDLE:
        sc.typ(t, "str")
        return None if how == "not-a-dict" else {}
    if how == "essential":
        sc.typ(t, "str")
        return {"essential": True}
    if how == "value":
        sc.typ(t, "str"), sc.eq(t, X)
        return {"value": X}
    if how == "values":
        sc.typ(t, "str"), sc.eq(t, Y)
        return {"values": [X, Y]}
    if how == "values-list":
        sc.expand[t] = lambda: AList([Z, Y])
        return {"values": [X, Y]}
    if how == "all":
        sc.typ(t, "str"), sc.eq(t, Y)
        return {"essential": True, "value": Y, "values": [X, Y]}


def bad(sc, c, how):
    t = J.citem(c)
    sc.fact("present", J.src(J.CLAIMS), c, value=how not in ("absent", "value-absent", "values-absent"))
    sc.eq(t, X, False), sc.eq(t, Y, False)
    if how == "absent":
        return {"essential": True}
    if how == "null":
        sc.typ(t, "none")
        return {"essential": True}
    if how in ("value", "value-absent"):
        return {"value": X}
    if how == "values-absent":
        return {"values": [X, Y]}
    if how == "values":
        sc.typ(t, ALL - {"list"})
        return {"values": [X, Y]}
    if how == "values-list":
        sc.expand[t] = lambda: AList([Z])
        return {"values": [X, Y]}
    if how == "values-none":
        sc.expand[t] = lambda: AList([])
        return {"values": [X, Y]}
    if how == "essential+values":
        sc.typ(t, "str")
        return {"essential": True, "values": [X, Y]}
    if how == "value+values":
        sc.eq(t, Z)
        return {"value": X, "values": [Y, Z]}
    if how == "values+value":
        sc.eq(t, Z)
        return {"values": [Z], "value": X}
    if how == "value+list":
        sc.expand[t] = lambda: AList([Z, Y])
        return {"essential": True, "value": X, "values": [Y]}


GOOD = ("essential", "value", "values", "values-list", "all")
# entries of the options that ask for nothing
IDLE = ("not-a-dict", "nothing")
BAD = ("absent", "null", "value", "value-absent", "values", "values-absent", "values-list", "values-none", "essential+values",
       "value+values", "values+value", "value+list")


def check(C):
    C.rule("claim-type", "no partition in which a registered claim has another type than RFC 7519 gives it is accepted")
    C.rule("well-typed", "registered claims of the right type (and in range) are accepted")
    C.rule("expectations", "no partition in which an expectation of the caller is not met is accepted, at any position and "
                           "in any combination")
    C.rule("met", "a token that meets every expectation is accepted")
    for site in SITES:
        for others in (False, True):
            for c, tags in KINDS.items():
                but = tuple(J.REGISTERED) if others else (c,)
                sc = base(f"{site}: {c} of another type, others {'present' if others else 'absent'}", but)
                for o in but:
                    if o == c:
                        sc.typ(J.citem(c), tags)
                    elif o not in ("exp", "nbf", "iat"):
                        sc.typ(J.citem(o), "str")
                in_range(sc, [b for b in but if b != c])
                r = C.run(sc, build(site))
                C.guard(r.paths or r.unknown, f"no partition of {sc.name}")
                C.oblige("claim-type", len(r.paths))
                for p in r.returns():
                    C.bad("claim-type", f"{site}: the claim {c} is accepted with another type", p)
        for n in (1, 2, 3, 20):
            for pos in range(n) if n < 20 else (19,):
                sc = base(f"{site}: aud list of {n}, item {pos} not a string", ("aud",))
                for i in range(n):
                    sc.typ(ITEM[i], ALL - {"str"} | {"none"} if i == pos else "str")
                sc.expand[J.citem("aud")] = lambda n=n: AList(ITEM[:n])
                sc.typ(J.citem("aud"), "list")
                r = C.run(sc, build(site))
                C.guard(r.paths or r.unknown, f"no partition of {sc.name}")
                C.oblige("claim-type", len(r.paths))
                for p in r.returns():
                    C.bad("claim-type", f"{site}: aud is accepted with an item that is not a string", p)
        for aud in ("str", "list"):
            sc = base(f"{site}: every claim well typed, aud {aud}", tuple(J.REGISTERED))
            for c in ("iss", "sub", "jti"):
                sc.typ(J.citem(c), "str")
            if aud == "str":
                sc.typ(J.citem("aud"), "str")
            else:
                sc.typ(J.citem("aud"), "list")
                sc.typ(ITEM[0], "str"), sc.typ(ITEM[1], "str")
                sc.expand[J.citem("aud")] = lambda: AList(ITEM[:2])
            in_range(sc, J.REGISTERED)
            r = C.run(sc, build(site))
            C.guard(r.paths or r.unknown, f"no partition of {sc.name}")
            C.oblige("well-typed", len(r.paths))
            for p in r.raises():
                C.bad("well-typed", f"{site}: rejected with {p.exc_name()} although every claim is well typed", p)

    def opt_base(name, but=()):
        sc = base(name, but)
        sc.eq(X, Y, False), sc.eq(X, Z, False), sc.eq(Y, Z, False)
        return sc

    names = ("role", "tenant", "scope")
    B = ["!" + b for b in BAD]
    combos = [(h,) for h in B] + [p for g in GOOD + IDLE for b in B for p in ((g, b), (b, g))]
    if C.thorough:
        combos += [p for g in GOOD for h in GOOD for b in B for p in ((g, h, b), (g, b, h), (b, g, h))]
    else:
        combos += [(g, "values-list", b) for g in GOOD for b in ("!absent", "!value", "!values")]
    for site in ("claims", "decode"):
        for combo in combos:
            sc = opt_base(f"{site}: expectations {' / '.join(combo)}")
            spec = []
            pos = next(i for i, h in enumerate(combo) if h[0] == "!")
            for i, h in enumerate(combo):
                spec.append((names[i], bad(sc, names[i], h[1:]) if i == pos else good(sc, names[i], h)))
            r = C.run(sc, with_options(site, options(spec)))
            C.guard(r.paths or r.unknown, f"no partition of {sc.name}")
            C.oblige("expectations", len(r.paths))
            for p in r.returns():
                C.bad("expectations", f"{site}: accepted although the expectation {combo[pos][1:]} about one claim is not met", p)
        # expectations about claims that have a meaning of their own
        for c in J.REGISTERED + ("nonce", "azp"):
            for h in BAD if c not in ("exp", "nbf", "iat") else ("absent", "value-absent", "values-absent"):
                sc = opt_base(f"{site}: expectation {h} about {c}", () if h.endswith("absent") or c not in J.REGISTERED else (c,))
                r = C.run(sc, with_options(site, options([(c, bad(sc, c, h))])))
                C.guard(r.paths or r.unknown, f"no partition of {sc.name}")
                C.oblige("expectations", len(r.paths))
                for p in r.returns():
                    C.bad("expectations", f"{site}: accepted although the expectation {h} about the claim {c} is not met", p)
        for h in ("absent", "value", "values"):
            sc = opt_base(f"{site}: twenty expectations, the last one ({h}) is not met")
            spec = [(f"claim{i}", good(sc, f"claim{i}", "essential")) for i in range(19)] + [("role", bad(sc, "role", h))]
            r = C.run(sc, with_options(site, options(spec)))
            C.guard(r.paths or r.unknown, f"no partition of {sc.name}")
            C.oblige("expectations", len(r.paths))
            for p in r.returns():
                C.bad("expectations", f"{site}: accepted although the last one of many expectations ({h}) is not met", p)
        for h in ("absent", "value", "values"):
            for last in (True, False):
                sc = opt_base(f"{site}: {'the last' if last else 'the first'} of twenty expectations ({h}) is not met, the others ask for nothing")
                spec = [("role", bad(sc, "role", h))]
                idle = [(f"claim{i}", {"essential": False}) for i in range(19)]
                for n, _ in idle:
                    sc.fact("present", J.src(J.CLAIMS), n, value=False)
                r = C.run(sc, with_options(site, options(idle + spec if last else spec + idle)))
                C.guard(r.paths or r.unknown, f"no partition of {sc.name}")
                C.oblige("expectations", len(r.paths))
                for p in r.returns():
                    C.bad("expectations", f"{site}: accepted although one of many expectations ({h}) is not met", p)
        for combo in [(g,) for g in GOOD + IDLE] + list(itertools.permutations(GOOD + IDLE, 2)):
            sc = opt_base(f"{site}: met expectations {' / '.join(combo)}")
            spec = [(names[i], good(sc, names[i], h)) for i, h in enumerate(combo)]
            r = C.run(sc, with_options(site, options(spec)))
            C.guard(r.paths or r.unknown, f"no partition of {sc.name}")
            C.oblige("met", len(r.paths))
            for p in r.raises():
                C.bad("met", f"{site}: rejected with {p.exc_name()} although every expectation is met ({' / '.join(combo)})", p)

