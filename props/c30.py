"""Codes and generated secrets cannot be guessed."""
from psa import jose as J, oauth as O
from psa.ctx import Scenario
from psa.values import *

NEED = 128


KEEPS = ("cat", "enc", "dec", "b64", "hex", "str", "quote", "lower", "upper")


def per_char(I, t):
    """Most random bits that one character of a text or byte of a string can carry."""
    t = I.ctx.n(t)
    if not isinstance(t, Term):
        return None
    if t.op == "rand" and t.meta.get("bits") and isinstance(t.args[2], int) and t.args[2]:
        return t.meta["bits"] / t.args[2]
    if t.op == "dec" or t.op == "enc":
        return per_char(I, t.args[0])
    return {"b64": 6, "hex": 4, "hash": 8}.get(t.op)


def length(I, t, lo, hi):
    """Number of characters of a slice, if it is known or bounded."""
    lo = 0 if lo is None else lo
    if isinstance(lo, int) and isinstance(hi, int) and lo >= 0 and hi >= 0:
        return max(0, hi - lo)
    if isinstance(lo, int) and lo < 0 and hi is None:
        return -lo
    return None


def sources(I, v, out=None, unclear=None):
    """The random draws a value is made of: draw -> bits; other parts contribute nothing.

    `unclear`: operations that may lose some of these bits; then the sum is an upper bound only."""
    out = {} if out is None else out
    unclear = [] if unclear is None else unclear
    v = I.ctx.n(v)
    if isinstance(v, tuple):
        for a in v:
            sources(I, a, out, unclear)
    if not isinstance(v, Term):
        return out, unclear
    if v.op == "rand":
        b = v.meta.get("bits")
        if b is None:
            unclear.append(show(v)[:60])
        out[v.args[0]] = (10 ** 6 if b is None else b) if v.args[1] is True else 0
    elif v.op in ("sym", "param"):
        pass
    elif v.op == "hash":
        inner, u = sources(I, v.args[1])
        unclear += u
        cap = {"sha1": 160, "sha224": 224, "sha256": 256, "sha384": 384, "sha512": 512, "md5": 128}.get(str(v.args[0]).lower(), 0)
        if sum(inner.values()) <= cap:
            out.update(inner)
        else:
            out[v] = cap
    elif v.op == "slice" and per_char(I, v.args[0]) is not None and length(I, *v.args) is not None:
        inner, u = sources(I, v.args[0])
        unclear += u
        total, cap = sum(inner.values()), length(I, *v.args) * per_char(I, v.args[0])
        for x, b in inner.items():
            out[x] = b if total <= cap else b * cap / total
    elif v.op == "item" and isinstance(v.args[0], (str, bytes)) and isinstance(v.args[1], Term) and v.args[1].op == "rand":
        sources(I, v.args[1], out, unclear)
    else:
        if v.op not in KEEPS:
            unclear.append(show(v)[:60])
        for a in v.args:
            if isinstance(a, (Term, tuple)):
                sources(I, a, out, unclear)
    return out, unclear


def twice(oidc):
    def entry(I):
        p = O.provider(I, oidc)
        for u in (O.SESSION_USER, O.txt("other-session-user")):
            Mutable.cur_phase = 2
            r = O.request(I, "GET", {}, b"", O.URL, u)
            I.await_(I.call(I.getattr(p, "authorize"), [r], {}))
        return None
    return entry


def check(C):
    O.setup(C)
    C.rule("code", f"every authorization code is made of at least {NEED} bits drawn from a cryptographic generator for this request")
    C.rule("secret", "a generated shared secret consists of the requested number of bytes of a cryptographic generator")
    n = 0
    for oidc in (False, True):
        sc = O.authz("two authorization requests")
        r = C.run(sc, twice(oidc))
        C.guard(r.paths or r.unknown, "no partition of two requests")
        for p in r.paths:
            I = C.I
            I.ctx = p.ctx
            draws = []
            for e in O.calls(p, "save_authorization_code"):
                n += 1
                C.oblige("code")
                s, unclear = sources(I, e["args"][0])
                if sum(s.values()) < NEED:
                    C.bad("code", f"a code is made of {int(sum(s.values()))} random bits", p)
                elif unclear:
                    C.gap(f"the code is not understood: {unclear[0]}")
                    continue
                draws.append(set(s))
            if len(draws) == 2 and draws[0] & draws[1]:
                C.bad("code", "two requests share the random part of their codes", p)
    C.guard(n or C.gaps, "no code was issued")
    for size in (None, 32, 64):
        sc = Scenario(f"generate a secret of {size or 'the default'} size")

        def entry(I):
            k = I.call(I.getattr(J.cls(I, "psion.jose.jwk", "JsonWebKey"), "generate"), ["oct"] + ([size] if size else []), {})
            Mutable.cur_phase = 2
            return k
        r = C.run(sc, entry)
        for p in r.returns():
            C.oblige("secret")
            C.I.ctx = p.ctx
            got = found(C.I, p.value)
            if not got:
                C.bad("secret", "a generated secret contains nothing random", p)
            elif any(t.args[1] is not True for t in got):
                C.bad("secret", "a generated secret does not come from a cryptographic generator", p)
            elif max((t.meta.get("bits") or 10 ** 6) for t in got) < 8 * (size or 32):
                C.bad("secret", f"a secret of {size} bytes has {max(t.meta.get('bits') for t in got)} random bits", p)


def found(I, v, seen=None):
    seen = set() if seen is None else seen
    v = I.ctx.n(v)
    if isinstance(v, Term):
        if v in seen:
            return []
        seen.add(v)
        return [v] if v.op == "rand" else [x for a in v.args for x in found(I, a, seen)]
    if isinstance(v, tuple):
        return [x for a in v for x in found(I, a, seen)]
    if isinstance(v, NATIVE) or id(v) in seen:
        return []
    seen.add(id(v))
    if isinstance(v, (AList, ASet)):
        return [x for a in v.items for x in found(I, a, seen)]
    if isinstance(v, ADict):
        return [x for e in v.entries.values() for x in found(I, e.val, seen)]
    if isinstance(v, AObj):
        return found(I, v.payload, seen) + [x for a in v.attrs.values() for x in found(I, a, seen)]
    if isinstance(v, ExtObj):
        return [x for a in v.attrs.values() for x in found(I, a, seen)]
    return []
