"""ID token claims: the expected nonce and the authentication time are enforced."""
from psa import ext, jose as J
from psa.values import *
from psa.values import T_STR
from props.c05 import base
from props.c06 import ALL, in_range

NOW = ext.NOW
NONCE = J.sym("expected-nonce", T_STR, nonempty=True)
OTHERS = ("iss", "sub", "aud", "exp", "iat")


def build(options):
    def entry(I):
        o = options(I) if options else None
        Mutable.cur_phase = 2
        return I.call(J.cls(I, "psion.oidc.claims", "IDToken"), [J.CLAIMS] + ([o] if o is not None else []), {})
    return entry


def check(C):
    C.rule("nonce", "with an expected nonce, claims whose nonce is missing or different are rejected, whatever else is expected")
    C.rule("auth-time", "claims whose authentication time is no whole number, or is missing although a maximum age is stated, are rejected")
    C.rule("inherited", "everything that makes the claims of a token unacceptable makes those of an ID token unacceptable")
    C.rule("good", "claims that meet all of this are accepted and unchanged")

    def mk(name, but, others):
        but = tuple(but) + (OTHERS if others else ())
        sc = base(name, but)
        for c in ("nonce", "auth_time", "max_age"):
            sc.fact("present", J.src(J.CLAIMS), c, value=c in but)
        if others:
            for c in ("iss", "sub", "aud"):
                sc.typ(J.citem(c), "str")
            in_range(sc, ("exp", "iat"))
        return sc

    def never(rule, what, sc, entry):
        r = C.run(sc, entry)
        C.guard(r.paths or r.unknown, f"no partition of {sc.name}")
        C.oblige(rule, len(r.paths))
        for p in r.returns():
            C.bad(rule, f"claims with {what} are accepted", p)

    plain = lambda I: J.adict({"nonce": NONCE})
    more = lambda I: J.adict({"iss": J.adict({"essential": False}), "nonce": NONCE})
    last = lambda I: J.adict({"nonce": NONCE, "sub": J.adict({"essential": False})})
    for others in (False, True):
        for oname, opts in (("nonce", plain), ("iss, nonce", more), ("nonce, sub", last)):
            sc = mk(f"no nonce, expecting {oname}", ("custom",), others)
            never("nonce", "no nonce", sc, build(opts))
            sc = mk(f"another nonce, expecting {oname}", ("nonce",), others)
            sc.eq(J.citem("nonce"), NONCE, False)
            never("nonce", "another nonce", sc, build(opts))
            sc = mk(f"the nonce, expecting {oname}", ("nonce",), others)
            sc.typ(J.citem("nonce"), "str"), sc.eq(J.citem("nonce"), NONCE)
            good(C, sc, build(opts), "the expected nonce")
        for opts in (None, plain):
            for t in sorted(ALL - {"int"}):
                sc = mk(f"auth_time is a {t}{', expecting a nonce' if opts else ''}", ("auth_time", "nonce"), others)
                sc.typ(J.citem("auth_time"), t)
                sc.typ(J.citem("nonce"), "str"), sc.eq(J.citem("nonce"), NONCE)
                never("auth-time", f"an auth_time that is a {t}", sc, build(opts))
            sc = mk(f"max_age without auth_time{', expecting a nonce' if opts else ''}", ("max_age", "nonce"), others)
            sc.typ(J.citem("max_age"), "int"), sc.bound(J.citem("max_age"), 0, {1})
            sc.typ(J.citem("nonce"), "str"), sc.eq(J.citem("nonce"), NONCE)
            never("auth-time", "a max_age but no auth_time", sc, build(opts))
            for t, sign in (("null", {0, 1}), ("missing", {0}), ("null", {0})):
                have = ("max_age", "nonce") + (("auth_time",) if t == "null" else ())
                sc = mk(f"max_age {'0' if sign == {0} else ''} and auth_time {t}{', expecting a nonce' if opts else ''}", have, others)
                sc.typ(J.citem("max_age"), "int"), sc.bound(J.citem("max_age"), 0, sign)
                if t == "null":
                    sc.typ(J.citem("auth_time"), "none")
                sc.typ(J.citem("nonce"), "str"), sc.eq(J.citem("nonce"), NONCE)
                never("auth-time", f"a max_age but an auth_time that is {t}", sc, build(opts))
            sc = mk(f"auth_time{', expecting a nonce' if opts else ''}", ("auth_time", "max_age", "nonce"), others)
            sc.typ(J.citem("max_age"), "int"), sc.bound(J.citem("max_age"), 0, {0, 1})
            sc.typ(J.citem("auth_time"), "int"), sc.bound(J.citem("auth_time"), 0, {0, 1})
            sc.typ(J.citem("nonce"), "str"), sc.eq(J.citem("nonce"), NONCE)
            good(C, sc, build(opts), "an auth_time")
    # what the claims of every token are checked for
    for c, signs in (("exp", {-1, 0}), ("iat", {1}), ("nbf", {1})):
        sc = mk(f"{c} out of range", (c, "nonce", "auth_time"), False)
        sc.typ(J.citem(c), "int"), sc.bound(J.citem(c), NOW, signs), sc.typ(J.citem("auth_time"), "int")
        sc.typ(J.citem("nonce"), "str"), sc.eq(J.citem("nonce"), NONCE)
        for opts in (None, plain):
            never("inherited", f"{c} out of range", sc, build(opts))
    for c, ok in (("iss", "str"), ("sub", "str"), ("aud", "list str"), ("exp", "int"), ("iat", "int"), ("nbf", "int"), ("jti", "str")):
        sc = mk(f"{c} of the wrong type", (c,), False)
        sc.typ(J.citem(c), ALL - set(ok.split()))
        never("inherited", f"the claim {c} of the wrong type", sc, build(None))
    for c in ("iss", "sub", "custom"):
        sc = mk(f"essential {c} missing", ("nonce",), False)
        sc.fact("present", J.src(J.CLAIMS), c, value=False)
        sc.typ(J.citem("nonce"), "str"), sc.eq(J.citem("nonce"), NONCE)
        never("inherited", f"no {c} although it is essential", sc, build(lambda I: J.adict(
            {"nonce": NONCE, c: J.adict({"essential": True})})))


def good(C, sc, entry, what):
    r = C.run(sc, entry)
    C.guard(r.paths or r.unknown, f"no partition of {sc.name}")
    C.oblige("good", len(r.paths))
    for p in r.raises():
        C.bad("good", f"claims with {what} are rejected with {p.exc_name()}", p)
    for p in r.returns():
        C.I.ctx = p.ctx
        w = J.same_mapping(C.I, p.value, J.CLAIMS)
        if w:
            C.bad("good", f"claims with {what} are changed: {w}", p)
