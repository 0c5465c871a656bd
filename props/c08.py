"""Malformed tokens are rejected with the documented errors only."""
from psa import jose as J
from psa.ctx import Scenario
from psa.values import *
from psa.values import T_BYTES, T_JSON, T_STR

TOK = J.sym("token", T_BYTES)
TXT = J.sym("token-text", T_STR)
RAW = [J.sym(f"segment{i}", T_BYTES, nosep=(b".", ".")) for i in range(3)]
HJ = J.sym("header-json", T_JSON)
PJ = J.sym("payload-json", T_JSON)
OPTS = (None, "aud")


def build(api, tok, which, pin, validate, options=None):
    def entry(I):
        key = J.make_key(I, which)
        o = None
        if options:
            want = J.sym("expected", T_STR, nonempty=True)
            o = J.adict({options[0]: J.adict({"values": AList([want, J.sym("expected-too", T_STR, nonempty=True)])} if options[1] == "values" else
                                             {"essential": True, "value": want})})
        Mutable.cur_phase = 2
        return J.decode(I, api, tok(I), key, pin, validate, o)
    return entry


def check(C):
    C.rule("total", "every partition of the decoding of an arbitrary token ends in a token object or in a JoseError")
    C.guard("JoseError" in C.I.import_module("psion.jose.exceptions").attrs, "JoseError is not defined")
    base_err = C.I.import_module("psion.jose.exceptions").attrs["JoseError"]
    got = {"return": 0, "raise": 0}

    def go(sc, entry):
        r = C.run(sc, entry)
        C.guard(r.paths or r.unknown, f"no partition of {sc.name}")
        C.oblige("total", len(r.paths))
        for p in r.paths:
            got[p.kind] += 1
            if p.kind == "raise" and not p.value.cls.issub(base_err):
                C.bad("total", f"{sc.what}: a malformed token makes it raise {p.exc_name()}", p)

    def scen(name, what, **present):
        sc = Scenario(name)
        sc.what = what
        sc.surrogates = True
        return sc

    combos = [("HS256", "oct"), ("RS256", "RSA"), ("ES256", "P-256"), ("PS256", "RSA"), ("none", "oct")]
    if C.thorough:
        combos = [(a, w) for a in J.ALGS for w in J.KEYS]
    apis = (("jws", "deserialize"), ("jwt", "decode"))
    for api, what in apis:
        # anything at all: one optional member of the header (and one claim) at a time
        for focus in HEADER if api == "jws" else HEADER + CLAIM:
            for val in (True, False):
                for tok, nm in ((TOK, "bytes"), (TXT, "text")) if api == "jwt" and (focus == "kid" or C.thorough) else ((TOK, "bytes"),):
                    sc = scen(f"{what} of arbitrary {nm}, validate={val}, any {focus}", what)
                    only(sc, focus)
                    go(sc, build(api, lambda I, tok=tok: tok, "oct", None, val))
        # three arbitrary segments
        for val in (True, False):
            for pin in (None, "HS256"):
                sc = scen(f"{what} of three arbitrary segments, validate={val}, pinned={pin}", what)
                only(sc, None)
                go(sc, build(api, lambda I: J.token(I, *RAW), "oct", pin, val))
        # a header of each algorithm, any signature and any payload, any key
        for alg, w in combos:
            for val in (True, False):
                for body in (RAW[1], J.seg(PJ), J.C_SEG):
                    if body is J.C_SEG and api == "jws":
                        continue
                    for focus in CLAIM if body is J.C_SEG and (alg == "HS256" or C.thorough) else (None,):
                        for opt in (None, "values", "value") if focus and val else (None,):
                            sc = scen(f"{what} {alg} with a {w} key, validate={val}, body {show(body)[:30]}, any {focus}"
                                      f"{f', {opt} expected' if opt else ''}", what)
                            only(sc, focus)
                            sc.fact("present", J.src(J.HDR), "alg", value=True)
                            sc.eq(J.hitem("alg"), alg)
                            go(sc, build(api, lambda I, body=body: J.token(I, J.H_SEG, body, RAW[2]), w, None, val, opt and (focus, opt)))
        # any JSON value as the header
        for focus in HEADER:
            sc = scen(f"{what}: any JSON value as the header, any {focus}", what)
            only(sc, focus)
            go(sc, build(api, lambda I: J.token(I, J.seg(HJ), J.P_SEG if api == "jws" else J.C_SEG, RAW[2]), "oct", None, True))
        # a critical list whose further items are anything
        sc = scen(f"{what}: further items of crit", what)
        only(sc, "crit", 2)
        go(sc, build(api, lambda I: J.token(I, J.H_SEG, J.P_SEG if api == "jws" else J.C_SEG, RAW[2]), "oct", None, False))
        # deeply nested JSON: too deep to be read, or to be copied or written again
        for where in ("header", "payload") if api == "jwt" else ("header",):
            for stage in ("read", "copy"):
                for val in (True, False):
                    sc = scen(f"{what}: the {where} is nested too deeply to {stage}, validate={val}", what)
                    only(sc, None)
                    sc.fact("present", J.src(J.HDR), "alg", value=True)
                    sc.eq(J.hitem("alg"), "none")
                    sc.deep[J.HDR if where == "header" else J.CLAIMS] = stage
                    go(sc, build(api, lambda I: J.token(I, J.H_SEG, J.P_SEG if api == "jws" else J.C_SEG, b""), "oct", None, val))
    C.guard(got["return"] or C.gaps, "no token is ever accepted")
    C.guard(got["raise"] or C.gaps, "no token is ever rejected")


HEADER = ("kid", "typ", "cty", "crit")
CLAIM = ("iss", "sub", "aud", "exp", "nbf", "iat", "jti", "role")


def only(sc, focus, more=False):
    """Of the optional members only `focus` may be present."""
    def f(ctx, kind, args):
        if kind == "present" and isinstance(args[1], str) and args[1] != focus and args[1] in HEADER + CLAIM:
            return False
        if focus == "crit":
            # the algorithm is fixed, and one critical name is enough
            if kind == "eq" and isinstance(args[0], Term) and args[0].op == "item" and args[0].args[1] == "alg":
                return args[1] == "HS256"
            if kind == "nelems":
                return more or 1
        return None
    sc.oracle(f)
