"""Restrictions declared by the key."""
from psa import jose as J
from psa.ctx import Scenario
from psa.values import *
from psa.values import T_STR

KID = J.sym("header-kid", T_STR, nonempty=True)
KKID = J.sym("key-kid", T_STR, nonempty=True)
KALG = J.sym("key-alg", T_STR, nonempty=True)
KUSE = J.sym("key-use", T_STR, nonempty=True)
OP = J.sym("key-op", T_STR, nonempty=True)


def base(name, alg, kid):
    sc = Scenario(name)
    for x in ("typ", "cty", "crit"):
        sc.fact("present", J.src(J.HDR), x, value=False)
    sc.fact("present", J.src(J.HDR), "alg", value=True)
    sc.eq(J.hitem("alg"), alg)
    sc.fact("present", J.src(J.HDR), "kid", value=kid)
    if kid:
        sc.typ(J.hitem("kid"), "str")
        sc.fact("truthy", J.hitem("kid"), value=True)
        sc.eq(J.hitem("kid"), KID)
    sc.fact("truthy", J.HDR, value=True)
    sc.fact("truthy", J.CLAIMS, value=True)
    J.no_claims(sc)
    for a in ("sign", "verify"):
        sc.eq(OP, a, False)
    sc.eq(KALG, alg, False)
    sc.eq(KUSE, "sig", False)
    sc.eq(KID, KKID, False)
    return sc


def operation(op, which, alg, kid, extra, private=True, keyless=None):
    def entry(I):
        ex = {k: v(I) if callable(v) else v for k, v in extra.items()}
        if keyless is not None:
            key = keyless(I)
        else:
            key = J.make_key(I, which, private, **ex)
        Mutable.cur_phase = 2
        if op in ("jws-verify", "jwt-verify"):
            api = op[:3]
            p = J.P_SEG if api == "jws" else J.C_SEG
            return J.decode(I, api, J.token(I, J.H_SEG, p, J.SIG), key)
        h = {"alg": alg}
        if kid:
            h["kid"] = KID
        return J.encode(I, op[:3], J.adict(h), key)
    return entry


OPS = ("jws-sign", "jws-verify", "jwt-sign", "jwt-verify")


def check(C):
    C.rule("key-restriction", "no partition in which the key's alg, kid, use, key_ops, type or curve does not allow the "
                              "operation signs or accepts a token")
    C.rule("public-cannot-sign", "no partition signs with a key that has no private part")
    for alg in J.ALGS:
        which = J.TABLE[alg][0] if J.TABLE[alg] else None
        kinds = [which] if which else ["oct", "RSA", "P-256"]
        for w in kinds:
            for op in OPS:
                ok = {"alg": alg, "kid": KID, "use": "sig", "key_ops": lambda I: AList(["sign", "verify"])}
                viol = {
                    "alg": [("alg", KALG, False)],
                    "kid": [("kid", KKID, True), ("kid", None, True)],
                    "use": [("use", KUSE, False)],
                    "key_ops": [("key_ops", ops, False) for ops in (
                        lambda I: AList([OP]), lambda I: AList(["sign", OP]), lambda I: AList([OP, "verify"]),
                        lambda I: AList(["sign", "verify"] * 9 + [OP]))],
                }
                for what, cases in viol.items():
                    for member, val, needs_kid in cases:
                        for others in (False, True):
                            kid = needs_kid or others
                            extra = {k: v for k, v in ok.items() if k != member} if others else {}
                            if val is not None:
                                extra[member] = val
                            sc = base(f"{op} {alg} {w} {what} does not match, others {'match' if others else 'absent'}", alg, kid)
                            r = C.run(sc, operation(op, w, alg, kid, extra))
                            C.oblige("key-restriction", len(r.paths))
                            for p in r.returns():
                                C.bad("key-restriction", f"{op}: succeeds although the {what} of the key does not allow it"
                                                         + (" (alg none)" if alg == "none" else ""), p)
                for others in (False, True):
                    sc = base(f"{op} {alg} {w} everything matches", alg, others)
                    r = C.run(sc, operation(op, w, alg, others, ok if others else {}))
                    C.guard(r.returns() or r.unknown, f"{op} {alg}: a key that allows the operation never works")
                for nm, mk in (("nothing", lambda I: None), ("a plain dict", lambda I: J.adict(J.members(w)))):
                    sc = base(f"{op} {alg} key is {nm}", alg, False)
                    r = C.run(sc, operation(op, w, alg, False, {}, keyless=mk))
                    C.oblige("key-restriction", len(r.paths))
                    for p in r.returns():
                        C.bad("key-restriction", f"{op}: succeeds although {nm} was given as the key"
                                                 + (" (alg none)" if alg == "none" else ""), p)
        if which is None:
            continue
        for w in J.KEYS:
            if w == which:
                continue
            for op in OPS:
                sc = base(f"{op} {alg} with a {w} key", alg, False)
                r = C.run(sc, operation(op, w, alg, False, {}))
                C.oblige("key-restriction", len(r.paths))
                for p in r.returns():
                    C.bad("key-restriction", f"{op}: {alg} works with a key of type {w}", p)
        if which != "oct":
            for op in ("jws-sign", "jwt-sign"):
                sc = base(f"{op} {alg} with a public key", alg, False)
                r = C.run(sc, operation(op, which, alg, False, {}, private=False))
                C.oblige("public-cannot-sign", len(r.paths))
                for p in r.returns():
                    C.bad("public-cannot-sign", f"{op}: {alg} signs with a public key", p)
