"""Time claims against true POSIX time."""
from psa import ext, jose as J
from psa.ctx import Scenario
from psa.values import *
from psa.values import T_INT

NOW = ext.NOW
SITES = ("claims", "token", "decode", "decode-novalidate", "id-token")
# claims objects that were acceptable when they were built
AGED = ("aged-claims", "aged-token")


# what the caller asks for besides: nothing, an empty set of expectations, or one that is met
OPTIONS = {"": None, " (no expectations)": {}, " (an expectation)": {"token_use": {"essential": False}}}


def build(site, opts=""):
    def entry(I):
        Mutable.cur_phase = 2
        o = OPTIONS[opts]
        kw = {} if o is None else {"options": J.adict({k: J.adict(v) for k, v in o.items()})}
        if site == "claims":
            return I.call(J.cls(I, "psion.jose.jwt", "JsonWebTokenClaims"), [J.CLAIMS], kw)
        if site == "id-token":
            return I.call(J.cls(I, "psion.oidc.claims", "IDToken"), [J.CLAIMS], kw)
        if site == "token":
            return I.call(J.cls(I, "psion.jose.jwt", "JsonWebToken"), [J.CLAIMS, J.adict({"alg": "HS256"})], {})
        if site in AGED:
            # the members are given to the object later
            c = I.call(J.cls(I, "psion.jose.jwt", "JsonWebTokenClaims"), [J.adict({"sub": "somebody"})], {})
            for n in ("exp", "nbf", "iat"):
                if I.ctx.facts.get(("present", J.src(J.CLAIMS), ckey(n))) is True:
                    I.setitem(c, n, J.citem(n))
            if site == "aged-claims":
                return I.call(J.cls(I, "psion.jose.jwt", "JsonWebTokenClaims"), [c], kw)
            return I.call(J.cls(I, "psion.jose.jwt", "JsonWebToken"), [c, J.adict({"alg": "HS256"})], {})
        key = J.make_key(I, "oct")
        tok = J.token(I, J.H_SEG, J.C_SEG, J.SIG)
        return J.decode(I, "jwt", tok, key, "HS256", False if site == "decode-novalidate" else None, **kw)
    return entry


def base(name, but):
    sc = Scenario(name)
    sc.fact("truthy", J.CLAIMS, value=True)
    sc.fact("truthy", J.HDR, value=True)
    J.no_claims(sc, but)
    for b in but:
        sc.fact("present", J.src(J.CLAIMS), b, value=True)
    for x in ("typ", "cty", "crit", "kid"):
        sc.fact("present", J.src(J.HDR), x, value=False)
    sc.fact("present", J.src(J.HDR), "alg", value=True)
    sc.eq(J.hitem("alg"), "HS256")

    def sig(ctx, kind, args):
        if kind == "eq" and any(isinstance(a, Term) and a.op == "mac" for a in args):
            return True
        if kind == "raises:b64":
            return False
        return None
    sc.oracle(sig)
    return sc


def check(C):
    C.rule("expired", "no partition with exp <= now is accepted, whatever the time zone")
    C.rule("not-yet-valid", "no partition with nbf > now or iat > now is accepted, whatever the time zone")
    C.rule("timely", "a token with exp > now, nbf <= now and iat <= now is not rejected")
    e, n, i = J.citem("exp"), J.citem("nbf"), J.citem("iat")
    for site, opts in [(s, o) for s in SITES + AGED for o in (OPTIONS if not s.endswith("token") or s == "id-token" else ("",))]:
        for others in (False, True):
            for claim, signs, rule, names in (("exp", {-1, 0}, "expired", ("ExpiredToken",)),
                                              ("nbf", {1}, "not-yet-valid", ("NotYetValidToken",)),
                                              ("iat", {1}, "not-yet-valid", ("InvalidJWTClaim",))):
                but = ("exp", "nbf", "iat") if others else (claim,)
                sc = base(f"{site}{opts}: {claim} out of range, others {'in range' if others else 'absent'}", but)
                for c, t, ok in (("exp", e, {1}), ("nbf", n, {-1, 0}), ("iat", i, {-1, 0})):
                    if c in but:
                        sc.typ(t, "int")
                        sc.bound(t, NOW, signs if c == claim else ok)
                r = C.run(sc, build(site, opts))
                C.oblige(rule, len(r.paths))
                C.guard(r.paths or r.unknown, f"no partition of {sc.name}")
                for p in r.returns():
                    C.bad(rule, f"{site}: accepted although {claim} is "
                                f"{'not after' if claim == 'exp' else 'after'} the current time", p)
                for p in r.raises():
                    if p.exc_name() not in names and not p.extra:
                        pass
        for but in (("exp",), ("nbf",), ("iat",), ("exp", "nbf", "iat")):
            sc = base(f"{site}{opts}: {' '.join(but)} in range", but)
            for c, t, ok in (("exp", e, {1}), ("nbf", n, {-1, 0}), ("iat", i, {-1, 0})):
                if c in but:
                    sc.typ(t, "int")
                    sc.bound(t, NOW, ok)
            r = C.run(sc, build(site, opts))
            C.oblige("timely", len(r.paths))
            C.guard(r.paths or r.unknown, f"no partition of {sc.name}")
            for p in r.raises():
                C.bad("timely", f"{site}: a token whose {'/'.join(but)} {'is' if len(but) == 1 else 'are'} in range is "
                                f"rejected with {p.exc_name()}", p)
