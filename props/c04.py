"""RFC 7518 table and the structural round trip."""
from psa import ext, jose as J, models as M
from psa.ctx import Scenario
from psa.values import *
from psa.values import T_BYTES, T_INT, T_STR


def expected_signature(which, params, msg):
    key = J.key_ident(which)
    if which == "oct":
        return Term("mac", (params[1], key, msg), T_BYTES)
    g = Term("sig", (key, params, msg), T_BYTES)
    if which == "RSA":
        return g
    size = (J.CURVE[which][1] + 7) // 8
    r, s = Term("sigr", (g,), T_INT), Term("sigs", (g,), T_INT)
    return Term("cat", (Term("tobytes", (r, size), T_BYTES), Term("tobytes", (s, size), T_BYTES)), T_BYTES)


def check(C):
    C.rule("algorithm-table", "the bytes signed, the key, the hash, the padding and the encoding of the signature are those "
                              "of RFC 7515 and RFC 7518 for the named algorithm")
    C.rule("round-trip", "what is signed verifies with the same key and with its public part, and yields the same content")
    for alg in J.ALGS:
        which = J.TABLE[alg][0] if J.TABLE[alg] else "oct"
        for api in ("jws", "jwt"):
            for public in ((False, True) if which not in ("oct",) else (False,)):
                for crit in (False, True):
                    one(C, alg, which, api, public, crit)
                one(C, alg, which, api, public, False, own=True)


# claims that are not truthy are claims all the same
def own_claims():
    return J.adict({"sub": J.sym("subject", T_STR), "x-flag": False, "x-level": 0, "x-empty": "", "x-list": AList([]), "x-text": J.sym("claim", T_STR)})


def one(C, alg, which, api, public, crit, own=False):
    sc = Scenario(f"{api} sign then verify with {alg}{' (public key)' if public else ''}{' and critical parameters' if crit else ''}"
                  f"{' and a key with members of its own' if own else ''}")
    sc.fact("truthy", J.CLAIMS, value=True)
    J.no_claims(sc)
    box = {}

    def entry(I):
        ids = lambda: {"kid": J.sym("own-kid", T_STR, nonempty=True), "use": "sig", "alg": alg, "key_ops": AList(["sign", "verify"])} if own else {}
        key = J.make_key(I, which, **ids())
        pub = J.make_key(I, which, False, **ids()) if public else key
        Mutable.cur_phase = 2
        box.clear()
        h = J.adict({"alg": alg, "typ": "JWT", **J.MORE, **J.novel(I), **({"crit": AList(J.CRIT)} if crit else {})})
        tok = J.encode(I, api, h, key, own_claims() if own else None)
        I.ctx.notes.append(tok)
        back = J.decode(I, api, tok, pub)
        return (tok, back)
    r = C.run(sc, entry)
    C.guard(r.paths or r.unknown, f"no partition for {alg}")
    for p in r.paths:
        C.oblige("round-trip")
        if p.kind == "raise":
            C.bad("round-trip", f"{api} {alg}: signing or verifying what was signed fails with {p.exc_name()}", p)
            continue
        C.I.ctx = p.ctx
        tok, back = p.value
        why = J.contents_rt(C.I, back, api, alg, crit, own_claims() if own else None)
        if why:
            C.bad("round-trip", f"{api} {alg}: {why}", p)
        C.oblige("algorithm-table")
        why = shape(C.I, tok, alg, which, api)
        if why:
            C.bad("algorithm-table", f"{api} {alg}: {why}", p)


def shape(I, tok, alg, which, api):
    t = tok
    if isinstance(t, Term) and t.op == "dec":
        t = t.args[0]
    if isinstance(t, Term) and t.op == "cat" and any(isinstance(x, str) for x in t.args) and I.ctx.tags(t) == T_STR:
        t = M.mk_cat(I, "bytes", [x.encode() if isinstance(x, str) else (x.args[0] if x.op == "dec" else x) for x in t.args])
    ps = list(M.parts(I, t))
    if api == "jwt" and I.ctx.tags(tok) != T_STR:
        return "the token is not text"
    # split at the dots
    segs, cur = [], []
    for x in ps:
        if isinstance(x, bytes):
            bits = x.split(b".")
            for i, b in enumerate(bits):
                if i:
                    segs.append(cur)
                    cur = []
                if b:
                    cur.append(b)
        else:
            cur.append(x)
    segs.append(cur)
    if len(segs) != 3:
        return f"the token has {len(segs)} segments"
    vals = [M.mk_cat(I, "bytes", s) for s in segs]
    msg = M.mk_cat(I, "bytes", [vals[0], b".", vals[1]])
    want_payload = J.PAYLOAD if api == "jws" else None
    if want_payload is not None and vals[1] is not Term("b64", ("url", False, want_payload), T_BYTES):
        return f"the payload segment is {show(vals[1])}"
    if alg == "none":
        return None if vals[2] in (b"",) else "the signature of an unsecured token is not empty"
    want = Term("b64", ("url", False, expected_signature(which, J.TABLE[alg][2], msg)), T_BYTES)
    if vals[2] is not want:
        return f"the signature segment is {show(vals[2])[:300]} instead of {show(want)[:300]}"
    return None
