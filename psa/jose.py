"""Abstract inputs of the JOSE part: keys, headers, tokens."""

from __future__ import annotations

import ast

from . import models as M
from . import ext
from .ctx import Scenario
from .values import *
from .values import T_ANY, T_BYTES, T_DICT, T_INT, T_JSON, T_OBJ, T_STR

CURVE = {"P-256": ("SECP256R1", 256), "P-384": ("SECP384R1", 384), "P-521": ("SECP521R1", 521)}
# RFC 7518, section 3.1
TABLE = {
    "none": None,
    "HS256": ("oct", "SHA256", ("HMAC", "SHA256")),
    "HS384": ("oct", "SHA384", ("HMAC", "SHA384")),
    "HS512": ("oct", "SHA512", ("HMAC", "SHA512")),
    "RS256": ("RSA", "SHA256", ("PKCS1v15", "SHA256")),
    "RS384": ("RSA", "SHA384", ("PKCS1v15", "SHA384")),
    "RS512": ("RSA", "SHA512", ("PKCS1v15", "SHA512")),
    "ES256": ("P-256", "SHA256", ("ECDSA", "SHA256")),
    "ES384": ("P-384", "SHA384", ("ECDSA", "SHA384")),
    "ES512": ("P-521", "SHA512", ("ECDSA", "SHA512")),
    "PS256": ("RSA", "SHA256", ("PSS", "SHA256", 32, "SHA256")),
    "PS384": ("RSA", "SHA384", ("PSS", "SHA384", 48, "SHA384")),
    "PS512": ("RSA", "SHA512", ("PSS", "SHA512", 64, "SHA512")),
}
ALGS = list(TABLE)
SIGNED = [a for a in ALGS if a != "none"]
KEYS = ["oct", "RSA", "P-256", "P-384", "P-521"]
HEADER_NAMES = ("alg", "jku", "jwk", "kid", "x5u", "x5c", "x5t", "x5t#S256", "typ", "cty", "crit", "b64", "exp")


def sym(name, ty=T_ANY, **meta):
    t = Term("sym", (name,), ty)
    t.meta.update(meta)
    return t


def number(name, bits, secret=False):
    t = Term("num", (name, secret), T_INT)
    t.meta.update(positive=True, bits=bits)
    if secret:
        t.meta["secret"] = True
    return t


def b64u(b):
    """The text of the unpadded base64url encoding of the bytes `b`."""
    t = Term("b64", ("url", False, b), T_BYTES)
    t.meta["ascii"] = True
    return Term("dec", (t, "utf-8"), T_STR) if False else text(t)


def text(b):
    t = Term("dec", (b,), T_STR)
    return t


def octets(n, size):
    return Term("tobytes", (n, size), T_BYTES)


SECRET = sym("secret", T_BYTES, nonempty=True, secret=True)


def rsa_numbers(tag=""):
    return {n: number(f"rsa{tag}.{n}", b, n not in ("n", "e")) for n, b in (
        ("n", 2048), ("e", 24), ("d", 2048), ("p", 1024), ("q", 1024), ("dp", 1024), ("dq", 1024), ("qi", 1024))}


def ec_numbers(crv, tag=""):
    bits = CURVE[crv][1]
    return {n: number(f"ec{tag}.{crv}.{n}", bits, n == "d") for n in ("x", "y", "d")}


def members(which, private=True, tag=""):
    """The JWK members of an abstract key."""
    if which == "oct":
        return {"kty": "oct", "k": b64u(SECRET if not tag else sym("secret" + tag, T_BYTES, nonempty=True, secret=True))}
    if which == "RSA":
        nums = rsa_numbers(tag)
        m = {"kty": "RSA"}
        for n, t in nums.items():
            if private or n in ("n", "e"):
                m[n] = b64u(octets(t, (t.meta["bits"] + 7) // 8))
        return m
    nums = ec_numbers(which, tag)
    size = (CURVE[which][1] + 7) // 8
    m = {"kty": "EC", "crv": which}
    for n, t in nums.items():
        if private or n != "d":
            m[n] = b64u(octets(t, size))
    return m


def key_ident(which, tag=""):
    if which == "oct":
        return SECRET if not tag else sym("secret" + tag, T_BYTES)
    if which == "RSA":
        n = rsa_numbers(tag)
        return Term("rsakey", (n["n"], n["e"]), T_OBJ)
    n = ec_numbers(which, tag)
    return Term("eckey", (CURVE[which][0], n["x"], n["y"]), T_OBJ)


def adict(d):
    out = ADict()
    for k, v in d.items():
        out.entries[ckey(k)] = Entry(k, v)
    return out


def cls(I, module, name):
    return I.import_module(module).attrs[name]


# the names of members of mappings that the code uses at the commit this was written for
NAMES = frozenset("""access_token alg aud auth_time authorization client_id client_secret code code_challenge code_challenge_method
    code_verifier crit crv cty essential exp grant_type iat iss jti key key_ops keys kid kty max_age nbf nonce openid redirect_uri
    refresh_token response_type scope scopes state sub token token_type_hint typ use value values Authorization Location
    d e k n p q dp dq qi x y jwk jku x5u x5c x5t x5t#S256 oth""".split())
_novel = {}


def novel(I):
    """Further members of an open mapping, named as the code names members: whatever the names the code
    looks for, an input that has them is among the inputs."""
    if id(I) not in _novel:
        names = set()
        for m, t in sorted(I.program.asts.items()):
            if ".jose" not in m:
                continue
            for n in ast.walk(t):
                c = None
                if isinstance(n, ast.Subscript):
                    c = n.slice
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("get", "pop", "setdefault") and n.args:
                    c = n.args[0]
                elif isinstance(n, ast.Compare) and isinstance(n.ops[0], (ast.In, ast.NotIn)):
                    c = n.left
                if isinstance(c, ast.Constant) and isinstance(c.value, str) and c.value.isidentifier() and c.value not in NAMES:
                    names.add(c.value)
        _novel[id(I)] = {n: sym(f"member {n}", T_STR) for n in sorted(names)[:6]}
    return _novel[id(I)]


def make_key(I, which, private=True, tag="", **extra):
    m = members(which, private, tag)
    m.update(novel(I))
    m.update(extra)
    return I.call(cls(I, "psion.jose.jwk", "JsonWebKey"), [adict(m)], {})


# ------------------------------------------------------------------ tokens
HDR = sym("header", T_DICT)
PAYLOAD = sym("payload", T_BYTES)
CLAIMS = sym("claims", T_DICT)


def src(t):
    s = Term("jsonobj", (t,), T_DICT)
    s.meta.setdefault("mk", lambda key, v=t: M.json_item(v, key))
    s.meta.setdefault("universe", ())
    return s


src(HDR).meta["universe"] = ()


def hitem(name):
    return Term("item", (HDR, name), T_JSON)


def citem(name):
    return Term("item", (CLAIMS, name), T_JSON)


def seg(json_value):
    """A segment of a token: base64url(UTF8(json))."""
    j = Term("json", (json_value, True), T_STR)
    j.meta.update(nonempty=True, raw=True)
    e = Term("enc", (j,), T_BYTES)
    b = Term("b64", ("url", False, e), T_BYTES)
    b.meta.update(ascii=True, nonempty=True)
    return b


SIG = sym("signature-segment", T_BYTES, nosep=(b".", "."))
H_SEG = seg(HDR)
P_SEG = Term("b64", ("url", False, PAYLOAD), T_BYTES)
P_SEG.meta["ascii"] = True
C_SEG = seg(CLAIMS)


def token(I, h, p, s):
    return M.mk_cat(I, "bytes", [h, b".", p, b".", s])


def message(I, h, p):
    return M.mk_cat(I, "bytes", [h, b".", p])


def verify_oracle(which, params, data_of, answer):
    """Answers the question "is this a valid signature of the message under the key with
    the parameters": `answer`; any other signature question stays open."""
    key = key_ident(which)

    def f(ctx, kind, args):
        if kind == "sigvalid":
            k, pr, _, data = args
            if k is key and pr.args[0] == params and data is data_of():
                return answer
        if kind == "eq" and params[0] == "HMAC":
            for a in args:
                if isinstance(a, Term) and a.op == "mac" and a.args[0] == params[1] and a.args[1] is key and a.args[2] is data_of():
                    return answer
        return None
    return f


REGISTERED = ("iss", "sub", "aud", "exp", "nbf", "iat", "jti")


def no_claims(sc, but=(), extra=()):
    for n in REGISTERED + ("nonce", "auth_time", "max_age", "azp") + tuple(extra):
        if n not in but:
            sc.fact("present", src(CLAIMS), n, value=False)
    return sc


src(CLAIMS).meta["universe"] = ()


def decode(I, api, tok, key, pin=None, validate=None, options=None):
    kw = {}
    if pin is not None:
        kw["algorithm"] = pin
    if validate is not None:
        kw["validate"] = validate
    if api == "jws":
        c = cls(I, "psion.jose.jws", "JsonWebSignature")
        return I.call(I.getattr(c, "deserialize"), [tok, key], kw)
    if options is not None:
        kw["options"] = options
    c = cls(I, "psion.jose.jwt", "JsonWebToken")
    return I.call(I.getattr(c, "decode"), [tok, key], kw)


def mapping_of(I, v):
    """The ADict behind a mapping value."""
    v = I.ctx.n(v)
    if isinstance(v, AObj):
        v = I.ctx.n(v.payload)
    return v


def same_mapping(I, v, base):
    """None if the mapping `v` has the members of the JSON object `base`, else a reason."""
    d = mapping_of(I, v)
    s = src(base)
    if isinstance(d, Term):
        return None if d is base else "is not the received object"
    if not isinstance(d, ADict):
        return "is not a mapping"
    has_src = s in d.sources
    for e in d.entries.values():
        if isinstance(e.key, str) and isinstance(e.val, Term):
            if e.val is not Term("item", (base, e.key), e.val.ty) and I.ctx.known_eq(e.val, Term("item", (base, e.key), T_JSON)) is not True:
                return f"member {e.key} has another value"
        elif isinstance(e.key, str):
            if I.ctx.known_eq(Term("item", (base, e.key), T_JSON), e.val) is not True and not (
                    isinstance(e.val, (AList, ADict)) or e.val is None):
                return f"member {e.key} has another value"
    if not has_src:
        # rebuilt member by member: every member known to be present must be there
        for f, v in I.ctx.facts.items():
            if f[0] == "present" and f[1] is s and v is True and isinstance(f[2], tuple) and f[2][0] == "c":
                t = Term("item", (base, f[2][2]), T_JSON)
                if f[2] not in d.entries and I.ctx.tags(t) != frozenset({"none"}):
                    return f"member {f[2][2]} is missing"
    return None


def contents(I, p, api):
    I.ctx = p.ctx
    v = p.value
    if not isinstance(v, AObj):
        return "does not return a token object"
    if api == "jws":
        if I.ctx.n(v.attrs.get("payload")) is not PAYLOAD:
            return f"the payload is {show(v.attrs.get('payload'))}"
    else:
        w = same_mapping(I, v.attrs.get("claims"), CLAIMS)
        if w:
            return "the claims: " + w
    w = same_mapping(I, v.attrs.get("header"), HDR)
    if w:
        return "the header: " + w
    return None


def encode(I, api, header, key, claims=None, payload=None):
    if api == "jws":
        o = I.call(cls(I, "psion.jose.jws", "JsonWebSignature"), [payload or PAYLOAD, header], {})
        return I.call(I.getattr(o, "serialize"), [key], {})
    o = I.call(cls(I, "psion.jose.jwt", "JsonWebToken"), [claims or CLAIMS, header], {})
    return I.call(I.getattr(o, "encode"), [key], {})


def same_members(I, a, b):
    val = lambda d: {e.key: tuple(x.items) if isinstance(x := I.ctx.n(e.val), AList) else x for e in d.entries.values()}
    return {k: (type(v), v) for k, v in val(a).items()} == {k: (type(v), v) for k, v in val(b).items()}


# further header members, also ones that are not truthy
CRIT = ("typ", "alg")
MORE = {"x-flag": False, "x-level": 0, "x-empty": "", "x-text": sym("header-member", T_STR)}


def contents_rt(I, v, api, alg, with_crit=False, claims=None):
    if not isinstance(v, AObj):
        return "does not return a token object"
    if api == "jws":
        if I.ctx.n(v.attrs.get("payload")) is not PAYLOAD:
            return f"the payload comes back as {show(v.attrs.get('payload'))}"
    elif claims is not None:
        d = mapping_of(I, v.attrs.get("claims"))
        if not isinstance(d, ADict) or d.sources or not same_members(I, d, claims):
            return f"the claims come back as {show(d)}"
    else:
        w = same_mapping(I, v.attrs.get("claims"), CLAIMS)
        if w:
            return "the claims: " + w
    h = mapping_of(I, v.attrs.get("header"))
    if not isinstance(h, ADict):
        return "the header does not come back"
    got = {e.key: I.ctx.n(e.val) for e in h.entries.values()}
    crit = got.pop("crit", None)
    if crit is not None and not (isinstance(crit, AList) and tuple(I.ctx.n(x) for x in crit.items) == CRIT):
        return f"the header comes back as {show(h)}"
    if (crit is not None) is not with_crit or got != {"alg": alg, "typ": "JWT", **MORE, **novel(I)}:
        return f"the header comes back as {show(h)}"
    return None
