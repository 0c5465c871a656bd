"""Validation of the JOSE header."""
from psa import jose as J
from psa.ctx import Scenario
from psa.values import *
from psa.values import T_JSON, T_STR

SITES = ("header", "jws", "jwt", "deserialize", "deserialize-novalidate", "decode", "decode-novalidate")
ALL = frozenset({"none", "bool", "int", "float", "str", "list", "dict"})
KNOWN = ("alg", "jku", "jwk", "kid", "x5u", "x5c", "x5t", "x5t#S256", "x5tS256", "typ", "cty", "crit")
NAME = J.sym("critical-name", T_STR, nonempty=True)
OTHER = J.sym("other-name", T_STR, nonempty=True)
ITEM = [Term("sym", (f"crit{i}",), T_JSON) for i in range(20)]


def build(site):
    def entry(I):
        key = J.make_key(I, "oct") if site.startswith("de") else None
        Mutable.cur_phase = 2
        if site == "header":
            return I.call(J.cls(I, "psion.jose.jws", "JsonWebSignatureHeader"), [J.HDR], {})
        if site == "jws":
            return I.call(J.cls(I, "psion.jose.jws", "JsonWebSignature"), [J.PAYLOAD, J.HDR], {})
        if site == "jwt":
            return I.call(J.cls(I, "psion.jose.jwt", "JsonWebToken"), [J.CLAIMS, J.HDR], {})
        api = "jws" if site.startswith("des") else "jwt"
        tok = J.token(I, J.H_SEG, J.P_SEG if api == "jws" else J.C_SEG, J.SIG)
        return J.decode(I, api, tok, key, None, False if site.endswith("novalidate") else None)
    return entry


def base(name, but=(), alg="HS256"):
    sc = Scenario(name)
    sc.fact("truthy", J.HDR, value=True)
    sc.fact("truthy", J.CLAIMS, value=True)
    J.no_claims(sc)
    for x in ("alg", "kid", "typ", "cty", "crit"):
        sc.fact("present", J.src(J.HDR), x, value=(x == "alg" and alg is not None) or x in but)
    if alg is not None:
        sc.eq(J.hitem("alg"), alg)

    def sig(ctx, kind, args):
        if kind == "eq" and any(isinstance(a, Term) and a.op == "mac" for a in args):
            return True
        if kind == "raises:b64":
            return False
        return None
    sc.oracle(sig)
    return sc


def cases():
    sc = base("alg missing", alg=None)
    sc.fact("present", J.src(J.HDR), "alg", value=False)
    yield "a missing alg", sc
    sc = base("alg is not registered", ("alg",), alg=None)
    for a in J.ALGS:
        sc.eq(J.hitem("alg"), a, False)
    yield "an alg that is not registered", sc
    for x in ("kid", "typ", "cty"):
        sc = base(f"{x} not a string", (x,))
        sc.typ(J.hitem(x), ALL - {"str"})
        yield f"a {x} that is not a string", sc
        sc = base(f"{x} empty", (x,))
        sc.eq(J.hitem(x), "")
        yield f"an empty {x}", sc
    sc = base("crit not a list", ("crit",))
    sc.typ(J.hitem("crit"), ALL - {"list"})
    yield "a crit that is not a list", sc

    def crit(name, items, n=1):
        sc = base(name, ("crit",))
        sc.typ(J.hitem("crit"), "list")
        sc.expand[J.hitem("crit")] = lambda: AList(items)
        for k in KNOWN:
            sc.eq(NAME, k, False), sc.eq(OTHER, k, False)
        sc.eq(NAME, OTHER, False)
        return sc
    yield "an empty crit", crit("crit empty", [])
    for n in (1, 2, 20):
        for pos in range(n) if n < 20 else (19,):
            items = ["alg"] * n
            items[pos] = ITEM[pos]
            sc = crit(f"crit item {pos} of {n} not a string", items)
            sc.typ(ITEM[pos], ALL - {"str"})
            yield "a crit with an item that is not a string", sc
            items = ["alg"] * n
            items[pos] = ""
            yield "a crit with an empty item", crit(f"crit item {pos} of {n} empty", items)
            items = ["alg"] * n
            items[pos] = NAME
            sc = crit(f"crit item {pos} of {n} not understood, present", items)
            sc.fact("present", J.src(J.HDR), NAME, value=True)
            yield "a critical parameter that is not understood", sc
            sc = crit(f"crit item {pos} of {n} absent", items)
            sc.fact("present", J.src(J.HDR), NAME, value=False)
            yield "a critical parameter that is absent", sc
            items = ["alg"] * n
            items[pos] = "jku"
            sc = crit(f"crit item {pos} of {n} is jku, null", items)
            sc.fact("present", J.src(J.HDR), "jku", value=True)
            sc.typ(J.hitem("jku"), "none")
            yield "a critical parameter without a value", sc
            items = ["alg"] * n
            items[pos] = "typ"
            yield "a critical parameter that is absent", crit(f"crit item {pos} of {n} is typ, absent", items)


def check(C):
    C.rule("header", "no partition with an invalid header parameter yields a header, signature object or decoded token")
    C.rule("good", "a header whose parameters are well formed is accepted")
    for site in SITES:
        for what, sc in cases():
            sc.name = f"{site}: {sc.name}"
            r = C.run(sc, build(site))
            C.guard(r.paths or r.unknown, f"no partition of {sc.name}")
            C.oblige("header", len(r.paths))
            for p in r.returns():
                C.bad("header", f"{site}: accepts a header with {what}", p)
        for but in ((), ("typ",), ("cty",), ("typ", "cty")):
            sc = base(f"{site}: well formed {' '.join(but)}", but)
            for x in but:
                sc.typ(J.hitem(x), "str")
                sc.eq(J.hitem(x), "", False)
                sc.fact("truthy", J.hitem(x), value=True)
            r = C.run(sc, build(site))
            C.guard(r.paths or r.unknown, f"no partition of {sc.name}")
            C.oblige("good", len(r.paths))
            for p in r.raises():
                C.bad("good", f"{site}: rejects a well formed header with {p.exc_name()}", p)
