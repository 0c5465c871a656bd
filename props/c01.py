"""Signature gate."""
from psa import ext, jose as J, methods as MM
from psa.ctx import Scenario
from psa.values import *
from psa.values import T_BYTES, T_STR

RULE = "signature-gate"


def base(name, alg, extra_present=()):
    sc = Scenario(name)
    sc.fact("present", J.src(J.HDR), "alg", value=True)
    sc.eq(J.hitem("alg"), alg)
    for x in ("typ", "cty", "crit"):
        sc.fact("present", J.src(J.HDR), x, value=x in extra_present)
    if "kid" in extra_present:
        sc.fact("present", J.src(J.HDR), "kid", value=True)
    sc.fact("truthy", J.HDR, value=True)
    sc.fact("truthy", J.CLAIMS, value=True)
    J.no_claims(sc)
    return sc


def check(C):
    C.rule(RULE, "with validation on, no partition in which the signature of the received header and payload "
                 "under the caller's key does not verify returns a token")
    C.rule("contents", "an accepted token carries the header and payload of the received segments")
    C.rule("segments", "text that does not consist of exactly three segments yields nothing, with validation on or off, although "
                       "it contains three segments that would be accepted")
    algs = J.SIGNED
    for alg in algs:
        which, _, params = J.TABLE[alg]
        for private in ((True, False) if which != "oct" else (True,)):
            for api in ("jws", "jwt"):
                for pin in (None, alg):
                    for good in (False, True):
                        if good and (not private or pin):
                            continue
                        run(C, alg, which, params, api, private, pin, good)
    typed(C)
    segments(C)
    header_key(C)
    received(C)
    # a key of another type never verifies anything
    for alg in algs:
        for which in J.KEYS:
            if which != J.TABLE[alg][0]:
                mismatch(C, alg, which)


def entry_for(api, which, private, pin, msg, extra=None):
    def entry(I):
        key = J.make_key(I, which, private, **(extra or {}))
        Mutable.cur_phase = 2
        p = J.P_SEG if api == "jws" else J.C_SEG
        msg[0] = J.message(I, J.H_SEG, p)
        tok = J.token(I, J.H_SEG, p, J.SIG)
        return J.decode(I, api, tok, key, pin)
    return entry


def run(C, alg, which, params, api, private, pin, good):
    name = f"{api} {alg} key={which}{'' if private else ' public'} pinned={pin} signature {'valid' if good else 'invalid'}"
    sc = base(name, alg)
    msg = [None]
    sc.oracle(J.verify_oracle(which, params, lambda: msg[0], good))
    r = C.run(sc, entry_for(api, which, private, pin, msg))
    C.oblige(RULE, len(r.paths))
    if not good:
        for p in r.returns():
            C.bad(RULE, f"{api}: a token with alg {alg} is accepted although its signature is not valid "
                        f"for the received header and payload under the given key", p)
        C.guard(any(p.kind == "raise" for p in r.paths) or r.unknown, f"no partition of {name}")
        return
    C.guard(r.returns() or r.unknown, f"a valid {alg} token is never accepted ({api})")
    for p in r.returns():
        C.oblige("contents")
        why = J.contents(C.I, p, api)
        if why:
            C.bad("contents", f"{api} {alg}: {why}", p)


def typed(C):
    """The header also names a type, a content type and the key."""
    for alg in ("HS256", "RS256", "ES256", "PS256"):
        which, _, params = J.TABLE[alg]
        for api in ("jws", "jwt"):
            for good in (False, True):
                sc = base(f"{api} {alg}: typ, cty and kid, signature {'valid' if good else 'invalid'}", alg, ("typ", "cty", "kid"))
                kid = J.sym("key-kid", T_STR, nonempty=True)
                for x in ("typ", "cty", "kid"):
                    sc.typ(J.hitem(x), "str")
                    sc.fact("truthy", J.hitem(x), value=True)
                sc.eq(J.hitem("kid"), kid)
                msg = [None]
                sc.oracle(J.verify_oracle(which, params, lambda: msg[0], good))
                r = C.run(sc, entry_for(api, which, True, None, msg, {"kid": kid, "use": "sig", "alg": alg}))
                C.guard(r.paths or r.unknown, f"no partition of {sc.name}")
                C.oblige(RULE, len(r.paths))
                for p in r.returns():
                    why = J.contents(C.I, p, api)
                    if not good:
                        C.bad(RULE, f"{api}: a token with alg {alg} is accepted although its signature is not valid (typ, cty and kid)", p)
                    elif why:
                        C.bad("contents", f"{api} {alg} (typ, cty and kid): {why}", p)
                C.guard(not good or r.returns() or r.unknown, f"a valid {alg} token with typ, cty and kid is never accepted ({api})")


def mismatch(C, alg, which):
    sc = base(f"alg {alg} with a {which} key", alg)
    msg = [None]
    r = C.run(sc, entry_for("jws", which, True, None, msg))
    C.oblige(RULE, len(r.paths))
    for p in r.returns():
        C.bad(RULE, f"a token with alg {alg} is accepted with a key of type {which}", p)


def header_key(C):
    """The header carries key material of its own: another key, under which the token may be valid."""
    for alg in J.SIGNED:
        which, _, params = J.TABLE[alg]
        for private in (True, False) if which != "oct" else (True,):
            for name, more in (("jwk", lambda: {"jwk": J.adict(J.members(which, private, "2"))}),
                               ("jwk and kid", lambda: {"kid": "k2", "jwk": J.adict({**J.members(which, private, "2"), "kid": "k2"})}),
                               ("x5c, jku and x5u", lambda: {"x5c": AList([J.sym("certificate", T_STR)]), "x5u": J.sym("x5u", T_STR),
                                                             "jku": J.sym("jku", T_STR), "x5t": J.sym("x5t", T_STR)})):
                for api in ("jws", "jwt") if alg[2:] == "256" or C.thorough else ("jws",):
                    sc = base(f"{api} {alg}: the header carries {name} of another{'' if private else ' public'} key", alg)
                    msg = [None]
                    sc.oracle(J.verify_oracle(which, params, lambda: msg[0], False))

                    def entry(I):
                        ids = {"kid": "k2"} if "kid" in name else {}
                        key = J.make_key(I, which, True, **ids)
                        h = J.adict({"alg": alg, **more()})
                        Mutable.cur_phase = 2
                        e = Term("enc", (ext.json_dumps(I, [h], {}),), T_BYTES)
                        hseg = Term("b64", ("url", False, e), T_BYTES)
                        p = J.P_SEG if api == "jws" else J.C_SEG
                        msg[0] = J.message(I, hseg, p)
                        return J.decode(I, api, J.token(I, hseg, p, J.SIG), key, None)
                    r = C.run(sc, entry)
                    C.guard(r.paths or r.unknown, f"no partition of {sc.name}")
                    C.oblige(RULE, len(r.paths))
                    for p in r.returns():
                        C.bad(RULE, f"{api}: a token with alg {alg} whose header carries {name} is accepted although its signature is "
                                    f"not valid under the key of the caller", p)


TXT = [J.sym(f"segment-text{i}", T_STR, nosep=(b".", ".")) for i in range(3)]
RAW = [J.sym(f"segment{i}", T_BYTES, nosep=(b".", ".")) for i in range(3)]


def received(C):
    """Three arbitrary segments: the octets that are authenticated are the received ones."""
    for alg in ("HS256", "RS256", "ES256", "PS256"):
        which, _, params = J.TABLE[alg]
        for api, form in (("jws", "octets"), ("jwt", "octets"), ("jwt", "text")):
            sc = Scenario(f"{api} {alg}: three arbitrary segments, as {form}")
            msg = [None]
            sc.oracle(J.verify_oracle(which, params, lambda: msg[0], False))

            def orc(ctx, kind, args):
                if kind == "eq" and isinstance(args[0], Term) and args[0].op == "item" and args[0].args[1] == "alg":
                    return args[1] == alg
                if kind == "present" and isinstance(args[1], str):
                    return args[1] == "alg"
                return None
            sc.oracle(orc)

            def entry(I):
                key = J.make_key(I, which)
                Mutable.cur_phase = 2
                msg[0] = J.message(I, RAW[0], RAW[1])
                if form == "text":
                    e = [MM.encode(I, t) for t in TXT]
                    msg[0] = J.message(I, e[0], e[1])
                    return J.decode(I, api, J.M.mk_cat(I, "str", [TXT[0], ".", TXT[1], ".", TXT[2]]), key, None)
                return J.decode(I, api, J.token(I, *RAW), key, None)
            r = C.run(sc, entry)
            C.guard(r.paths or r.unknown, f"no partition of {sc.name}")
            C.oblige(RULE, len(r.paths))
            for p in r.returns():
                C.bad(RULE, f"{api}: a token is accepted although its signature is not valid for exactly the received octets ({alg})", p)


SHAPES = (("one segment", "h"), ("two segments", "h.p"), ("four segments", "h.p.s.x"), ("a trailing dot", "h.p.s."),
          ("a leading dot", ".h.p.s"), ("five segments", "h.p.s.x.x"), ("an empty segment inside", "h..p.s"))
EXTRA = J.sym("further-segment", T_BYTES)
EXTRA.meta["nosep"] = (".", b".")


def segments(C):
    for alg in ("HS256", "RS256", "ES256", "none"):
        which, _, params = J.TABLE[alg] or ("oct", None, ("HMAC", "SHA256"))
        for api in ("jws", "jwt"):
            for validate in (True, False):
                for name, shape in SHAPES:
                    sc = base(f"{api} {alg}: {name}, validate={validate}", alg)
                    msg = [None]
                    sc.oracle(J.verify_oracle(which, params, lambda: msg[0], True))

                    def entry(I):
                        key = J.make_key(I, which, True)
                        Mutable.cur_phase = 2
                        p = J.P_SEG if api == "jws" else J.C_SEG
                        sig = J.SIG if alg != "none" else b""
                        msg[0] = J.message(I, J.H_SEG, p)
                        ps = [{"h": J.H_SEG, "p": p, "s": sig, "x": EXTRA}.get(c, b".") for c in shape]
                        return J.decode(I, api, J.M.mk_cat(I, "bytes", [x for x in ps if x != b""]), key, None, validate)
                    r = C.run(sc, entry)
                    C.guard(r.paths or r.unknown, f"no partition of {sc.name}")
                    C.oblige("segments", len(r.paths))
                    for p in r.returns():
                        C.bad("segments", f"{api}: text with {name} is accepted as a token ({alg})", p)
