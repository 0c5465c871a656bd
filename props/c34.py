"""JOSE operations depend on their arguments only and leave them alone."""
import random

from psa import ext, jose as J, oauth as O
from psa.ctx import Scenario
from psa.values import *
from psa.values import T_BYTES, T_DICT, T_INT, T_STR

CASES = {"HS256": "oct", "RS256": "RSA", "ES256": "P-256", "PS384": "RSA"}
SIG2 = J.sym("second-signature-segment", T_BYTES, nosep=(b".", "."))
PAYLOAD2 = J.sym("second-payload", T_BYTES)
P_SEG2 = Term("b64", ("url", False, PAYLOAD2), T_BYTES)
P_SEG2.meta["ascii"] = True
CLAIMS2 = J.sym("second-claims", T_DICT)
J.src(CLAIMS2).meta["universe"] = ()
C_SEG2 = J.seg(CLAIMS2)
ISS, EXP = J.sym("expected issuer", T_STR, nonempty=True), J.citem("exp")


class Bench:
    """Keys and inputs, the same for every operation."""

    def __init__(self, I, alg):
        self.I, self.alg, self.which = I, alg, CASES[alg]
        own = lambda d, label: self.mark(J.adict(d), label)
        self.given = own({**J.members(self.which), "kid": "k1", **J.novel(I)}, "the mapping a key was built from")
        self.key = self.new(self.given)
        # another key that has the same identifier
        self.twin = self.new(J.adict({**J.members(self.which, tag="2"), "kid": "k1"}))
        self.enc = self.new(J.adict({**J.members(self.which), "kid": "k1", "use": "enc"}))
        self.other = self.new(J.adict({**J.members(self.which, tag="3"), "kid": "k3"}))
        self.public = self.new(J.adict({**J.members(self.which, self.which == "oct"), "kid": "k1"}))
        self.ring = self.mark(AList([self.other, self.key]), "the list of keys")
        self.keys = I.call(J.cls(I, "psion.jose.jwk", "JsonWebKeySet"), [self.ring], {})
        self.jwks = own({"keys": self.mark(AList([own({**J.members(self.which, tag="5"), "kid": "k5"}, "the mapping of a key in a key set"),
                                                  own({**J.members(self.which, tag="6"), "kid": "k1"}, "the mapping of a key in a key set")]),
                                           "the list in the mapping of a key set")}, "the mapping of a key set")
        # of another family, and things built beforehand
        self.alg2 = "RS512" if self.which == "oct" else "HS512"
        self.key2 = self.new(J.adict({**J.members("RSA" if self.which == "oct" else "oct", tag="4"), "kid": "k1"}))
        new = lambda mod, name, *a: I.call(J.cls(I, "psion.jose." + mod, name), list(a), {})
        self.message = new("jws", "JsonWebSignature", J.PAYLOAD, J.adict({"alg": alg, "kid": "k1"}))
        self.ready = new("jwt", "JsonWebToken", J.adict({"sub": "before"}), J.adict({"alg": alg, "kid": "k1"}))
        self.header = own({"alg": alg, "kid": "k1", "typ": "JWT", **J.novel(I)}, "the header the caller gave")
        self.claims = own({"iss": ISS, "sub": "somebody", "flag": None, **J.novel(I)}, "the claims the caller gave")
        self.values = self.mark(AList([ISS, "x"]), "the values the caller expects")
        self.expect = self.mark(J.adict({"values": self.values}), "the expectation of the caller")
        self.options = own({"iss": self.expect}, "the expectations of the caller")
        lab = "the expectations of the caller"
        self.wrong = own({"iss": own({"essential": True, "value": "nobody"}, lab)}, lab)
        self.more = own({"sub": own({"essential": True}, lab), "missing": own({"essential": True, "value": "x"}, lab)}, lab)
        self.few = own({"sub": own({"essential": True, "value": "somebody"}, lab), "flag": own({"essential": False}, lab)}, lab)

    def mark(self, o, label):
        o.label = label
        return o

    def new(self, d):
        return self.I.call(J.cls(self.I, "psion.jose.jwk", "JsonWebKey"), [d], {})

    def token(self, api, payload=1, sig=J.SIG):
        p = {("jws", 1): J.P_SEG, ("jws", 2): P_SEG2, ("jwt", 1): J.C_SEG, ("jwt", 2): C_SEG2}[api, payload]
        return J.token(self.I, J.H_SEG, p, sig)

    def sign(self, api, key, payload=J.PAYLOAD, header=None):
        I = self.I
        h = self.header if header is None else header
        if api == "jws":
            o = I.call(J.cls(I, "psion.jose.jws", "JsonWebSignature"), [payload, h], {})
            return I.call(I.getattr(o, "serialize"), [key], {})
        o = I.call(J.cls(I, "psion.jose.jwt", "JsonWebToken"), [self.claims if payload is J.PAYLOAD else J.adict({"sub": "else"}), h], {})
        return I.call(I.getattr(o, "encode"), [key], {})

    def attr(self, o, name, *a):
        return self.I.call(self.I.getattr(o, name), list(a), {})


OPS = {}


def op(name, apis=("",)):
    def deco(f):
        for api in apis:
            OPS[f"{api} {name}".strip()] = (lambda b, api=api: f(b, api)) if api else f
        return f
    return deco


BOTH = ("jws", "jwt")
op("a valid token", BOTH)(lambda b, api: J.decode(b.I, api, b.token(api), b.key))
op("a valid token and the public key", BOTH)(lambda b, api: J.decode(b.I, api, b.token(api), b.public))
op("the token with another signature", BOTH)(lambda b, api: J.decode(b.I, api, b.token(api, sig=SIG2), b.key))
op("another payload with the same signature", BOTH)(lambda b, api: J.decode(b.I, api, b.token(api, 2), b.key))
op("the token and another key with the same identifier", BOTH)(lambda b, api: J.decode(b.I, api, b.token(api), b.twin))
op("the token and a key with another use", BOTH)(lambda b, api: J.decode(b.I, api, b.token(api), b.enc))
op("the token where another algorithm is required", BOTH)(
    lambda b, api: J.decode(b.I, api, b.token(api), b.key, "HS512" if b.alg != "HS512" else "HS256"))
op("the token with another signature, not validated", BOTH)(lambda b, api: J.decode(b.I, api, b.token(api, sig=SIG2), b.key, None, False))
op("the token with expectations", ("jwt",))(lambda b, api: J.decode(b.I, api, b.token(api), b.key, options=b.options))
op("the token with expectations that are not met", ("jwt",))(lambda b, api: J.decode(b.I, api, b.token(api), b.key, options=b.wrong))
op("sign", BOTH)(lambda b, api: b.sign(api, b.key))
op("sign something else", BOTH)(lambda b, api: b.sign(api, b.key, PAYLOAD2))
op("sign with another key that has the same identifier", BOTH)(lambda b, api: b.sign(api, b.twin))
op("sign with a key that must not sign", BOTH)(lambda b, api: b.sign(api, b.enc))
op("sign with the public key", BOTH)(lambda b, api: b.sign(api, b.public))
op("sign with another header", BOTH)(lambda b, api: b.sign(api, b.key, header=J.adict({"alg": b.alg, "kid": "k1", "x": "y"})))
op("sign with another algorithm", BOTH)(lambda b, api: b.sign(api, b.key2, header=J.adict({"alg": b.alg2, "kid": "k1"})))
op("serialize what was built before", ("jws",))(lambda b, api: b.attr(b.message, "serialize", b.key))
op("encode what was built before", ("jwt",))(lambda b, api: b.attr(b.ready, "encode", b.key))
op("serialize with another key that has the same identifier", ("jws",))(lambda b, api: b.attr(b.message, "serialize", b.twin))
op("a header that is not acceptable")(lambda b: b.sign("jws", b.key, header=J.adict({"alg": "XX", "kid": "k1"})))
op("claims")(lambda b: b.I.call(J.cls(b.I, "psion.jose.jwt", "JsonWebTokenClaims"), [b.claims], {"options": b.options}))
op("claims that are not acceptable")(lambda b: b.I.call(J.cls(b.I, "psion.jose.jwt", "JsonWebTokenClaims"), [b.claims], {"options": b.wrong}))
op("claims that lack something")(lambda b: b.I.call(J.cls(b.I, "psion.jose.jwt", "JsonWebTokenClaims"), [b.claims], {"options": b.more}))
op("claims with other expectations")(lambda b: b.I.call(J.cls(b.I, "psion.jose.jwt", "JsonWebTokenClaims"), [b.claims], {"options": b.few}))
op("claims without expectations")(lambda b: b.I.call(J.cls(b.I, "psion.jose.jwt", "JsonWebTokenClaims"), [b.claims], {}))
op("public dump")(lambda b: b.attr(b.key, "dump", True))
op("private dump")(lambda b: b.attr(b.key, "dump", False))
op("public export")(lambda b: b.attr(b.key, "export", True))
op("private export")(lambda b: b.attr(b.key, "export", False))
op("public dump of the other key")(lambda b: b.attr(b.twin, "dump", True))
op("look up")(lambda b: b.attr(b.keys, "get_key", "k1"))
op("look up the other")(lambda b: b.attr(b.keys, "get_key", "k3"))
op("look up nothing")(lambda b: b.attr(b.keys, "get_key", "k4"))
op("build a key set")(lambda b: b.attr(b.I.call(J.cls(b.I, "psion.jose.jwk", "JsonWebKeySet"), [b.ring], {}), "dump", False))
op("load a key set")(lambda b: b.attr(b.attr(b.keys, "load", b.jwks), "dump", False))
op("dump the key set")(lambda b: b.attr(b.keys, "dump", True))
op("private dump of the key set")(lambda b: b.attr(b.keys, "dump", False))
op("build a key")(lambda b: b.new(b.given))
op("build another key")(lambda b: b.new(J.adict({**J.members(b.which, tag="2"), "kid": "k1"})))
op("build no key")(lambda b: b.new(J.adict({**J.members(b.which), "kty": "XX"})))
op("build a key from too little")(lambda b: b.new(J.adict({"kty": J.members(b.which)["kty"], "kid": "k1"})))


# what the caller does with what it has; nothing of it changes a key
def spoil(name, f):
    OPS["then the caller changes " + name] = f


def change(b, d):
    d = J.mapping_of(b.I, d)
    for n in ("kty", "kid", "k", "n", "e", "d", "x", "y", "crv"):
        if isinstance(d, ADict) and ckey(n) in d.entries:
            d.entries[ckey(n)] = Entry(n, "changed by the caller")


spoil("a public dump", lambda b: change(b, b.attr(b.key, "dump", True)))
spoil("a private dump", lambda b: change(b, b.attr(b.key, "dump", False)))
spoil("the mapping a key was built from", lambda b: change(b, b.given))
# building from the changed mapping is another matter
NOT_AFTER = {"then the caller changes the mapping a key was built from": ("build a key",)}


def see(I, v):
    """What the caller sees of a result, as it is now."""
    v = I.ctx.n(v)
    if isinstance(v, AObj):
        n = v.cls.name
        if n in ("JsonWebKey", "JsonWebKeySet"):
            return n, copy(I, I.call(I.getattr(v, "dump"), [False], {}))
        if n == "JsonWebSignature":
            return n, copy(I, J.mapping_of(I, v.attrs.get("header"))), copy(I, v.attrs.get("payload"))
        if n == "JsonWebToken":
            return n, copy(I, J.mapping_of(I, v.attrs.get("header"))), copy(I, J.mapping_of(I, v.attrs.get("claims")))
        if v.payload is not None:
            return n, copy(I, v.payload)
    return copy(I, v)


def copy(I, v):
    v = I.ctx.n(v)
    if isinstance(v, ADict):
        d = ADict()
        d.entries = {k: Entry(e.key, copy(I, e.val)) for k, e in v.entries.items()}
        d.sources = list(v.sources)
        return d
    if isinstance(v, AList):
        return AList([copy(I, x) for x in v.items])
    return v


def perform(I, f, b):
    Mutable.cur_phase = 2
    try:
        return "gives", see(I, f(b))
    except PyExc as e:
        return "raises", e.obj.cls.name


def differ(I, x, y):
    """Compared at the end, when all that is known about the values is known."""
    P, Q = O.Picture(I), O.Picture(I)
    return x[0] != y[0] or (P.of(x[1]) != Q.of(y[1]) if x[0] == "gives" else x[1] != y[1])


def pair(alg, a, b, late=False):
    def entry(I):
        from props.c24 import cold
        Mutable.cur_phase = 1
        I.ctx.late = late
        alone = perform(I, OPS[b], Bench(I, alg))
        cold(I)
        I.ctx.late = False
        bench = Bench(I, alg)
        perform(I, OPS[a], bench)
        I.ctx.late = late
        after = perform(I, OPS[b], bench)
        return alone, differ(I, alone, after)
    return entry


def sequence(alg, order, late):
    """All operations one after the other, each compared with what it does alone."""
    def entry(I):
        from props.c24 import cold
        I.ctx.late = late
        alone = {}
        for n in order:
            if not n.startswith("then"):
                cold(I)
                alone[n] = perform(I, OPS[n], Bench(I, alg))
        cold(I)
        I.ctx.late = False
        bench = Bench(I, alg)
        if late:
            for n in order:
                perform(I, OPS[n], bench)
        I.ctx.late = late
        out = []
        for n in order:
            r = perform(I, OPS[n], bench)
            if n in alone:
                out.append((n, r))
        return [n for n, r in out if differ(I, r, alone[n])]
    return entry


def scenario(name, alg):
    sc = Scenario(name)
    which, _, params = J.TABLE[alg]
    h, c = J.src(J.HDR), J.src(J.CLAIMS)
    sc.fact("present", h, "alg", value=True)
    sc.eq(J.hitem("alg"), alg)
    sc.fact("present", h, "kid", value=True)
    sc.eq(J.hitem("kid"), "k1")
    for x in ("typ", "cty", "crit"):
        sc.fact("present", h, x, value=False)
    for t in (J.HDR, J.CLAIMS, CLAIMS2):
        sc.fact("truthy", t, value=True)
    J.no_claims(sc, but=("iss", "exp"))
    sc.fact("present", c, "iss", value=True)
    sc.typ(J.citem("iss"), "str"), sc.eq(J.citem("iss"), ISS)
    sc.eq(ISS, "nobody", False), sc.eq(ISS, "x", False)
    sc.fact("present", c, "exp", value=True)
    sc.typ(EXP, "int")
    sc.bound(ext.NOW, ext.LATER, {-1}), sc.bound(EXP, ext.NOW, {1}), sc.bound(EXP, ext.LATER, {-1})
    for n in J.REGISTERED + ("nonce", "auth_time", "max_age", "azp"):
        sc.fact("present", J.src(CLAIMS2), n, value=False)
    for x, y in ((J.SIG, SIG2), (J.PAYLOAD, PAYLOAD2), (J.CLAIMS, CLAIMS2), (J.P_SEG, P_SEG2), (J.C_SEG, C_SEG2),
                 (J.PAYLOAD, J.C_SEG.args[2]), (PAYLOAD2, C_SEG2.args[2])):
        sc.eq(x, y, False)
    key = J.key_ident(which)

    def right(sig, data):
        """Only the first signature, of the first payload, is valid."""
        d = set(data.args) if isinstance(data, Term) and data.op == "cat" else set()
        return J.SIG in terms(sig) and SIG2 not in terms(sig) and P_SEG2 not in d and C_SEG2 not in d

    def orc(ctx, kind, args):
        if kind == "sigvalid":
            k, pr, sig, data = args
            return k is key and pr.args[0] == params and right(sig, data)
        if kind == "eq":
            for i, a in enumerate(args):
                if isinstance(a, Term) and a.op == "mac":
                    return a.args[1] is key and a.args[0] == params[1] and right(args[1 - i], a.args[2])
        if kind == "raises:b64":
            return False
        return None
    sc.oracle(orc)
    return sc


def terms(t, out=None):
    out = set() if out is None else out
    if isinstance(t, Term):
        out.add(t)
        for a in t.args:
            terms(a, out)
    elif isinstance(t, tuple):
        for a in t:
            terms(a, out)
    return out


def check(C):
    C.rule("history", "every operation on keys, key sets, messages and tokens ends as it does in a process that did nothing before, "
                      "whatever operation was done before, on the same or other objects, with success or not, also if time passed")
    C.rule("inputs", "the mappings and lists the caller gives are not modified")
    kinds = {}
    plain = [n for n in OPS if not n.startswith("then the caller changes the mapping")]
    for alg in CASES:
        orders = [plain, plain[::-1]]
        rnd = random.Random(alg)
        for _ in range(6 if C.thorough else 1):
            orders.append(rnd.sample(plain, len(plain)))
        for i, order in enumerate(orders):
            for late in (False, True):
                sc = scenario(f"{alg}: all operations, order {i}{', time passes' if late else ''}", alg)
                r = C.run(sc, sequence(alg, order, late))
                C.guard(r.paths or r.unknown, f"no partition of {sc.name}")
                C.oblige("history", len(r.paths) * len(order))
                for p in r.paths:
                    inputs(C, p, "")
                    if p.kind != "return":
                        C.gap(f"{sc.name}: ends in {p.exc_name()}")
                        continue
                    for n in p.value:
                        C.bad("history", f"{n}: the outcome depends on what was done before", p)
        for a in OPS:
            for b in OPS:
                if b.startswith("then the caller") or b in NOT_AFTER.get(a, ()):
                    continue
                if not C.thorough and not (related(a, b) and alg in ("HS256", "RS256") or "the mapping" in a):
                    continue
                for late in (False, True) if b.startswith("jwt a valid") or b.startswith("jwt the token") else (False,):
                    sc = scenario(f"{alg}: {a}, then {b}{', later' if late else ''}", alg)
                    r = C.run(sc, pair(alg, a, b, late))
                    C.guard(r.paths or r.unknown, f"no partition of {sc.name}")
                    C.oblige("history", len(r.paths))
                    for p in r.paths:
                        inputs(C, p, a)
                        if p.kind != "return":
                            C.gap(f"{sc.name}: ends in {p.exc_name()}")
                            continue
                        alone, wrong = p.value
                        if not late:
                            kinds.setdefault((alg, b), set()).add(alone[0] == "gives")
                        if wrong:
                            C.bad("history", f"{b}: the outcome depends on what was done before ({a})", p)
    for (alg, b), k in kinds.items():
        # a valid token is accepted, an invalid one is not: otherwise the comparison would say nothing
        if b.endswith("a valid token"):
            C.guard(True in k, f"{alg}: {b} is never accepted")
        if b.endswith("another signature") or b.endswith("same identifier") and "token" in b:
            C.guard(False in k, f"{alg}: {b} is never refused")


def inputs(C, p, a):
    C.I.ctx = p.ctx
    if not a.startswith("then"):
        for o, what, where in p.ctx.mutations:
            if o.label and o.label.startswith("the "):
                C.bad("inputs", f"{o.label} is modified by the library", p)


def related(a, b):
    """Operations that a shortcut might confuse."""
    return a[:4] == b[:4] and a.startswith(("jws", "jwt")) and signs(a) == signs(b)


def signs(n):
    return any(w in n.split() for w in ("sign", "serialize", "encode"))
