"""Public representations carry no private material."""
import itertools

from psa import jose as J
from psa.ctx import Scenario
from psa.values import *
from psa.values import T_BYTES, T_STR

KINDS = ["RSA", "P-256", "P-384", "P-521"]
EXTRA = {"kid": J.sym("kid", T_STR, nonempty=True), "use": J.sym("use", T_STR, nonempty=True), "alg": J.sym("alg", T_STR, nonempty=True),
         "x5u": J.sym("x5u", T_STR), "custom": J.sym("custom", T_STR)}
PRIVATE = {"RSA": ("d", "p", "q", "dp", "dq", "qi"), "EC": ("d",)}


def secrets_in(I, v, seen=None):
    """The private numbers that occur anywhere in a value."""
    seen = set() if seen is None else seen
    v = I.ctx.n(v)
    if isinstance(v, Term):
        if v in seen:
            return []
        seen.add(v)
        if v.meta.get("secret") or (v.op == "pemnum" and v.args[1] in ("d", "p", "q", "dmp1", "dmq1", "iqmp")):
            return [v]
        # one-way images and signatures do not disclose the key
        if v.op in ("sig", "mac", "hash", "rsakey", "eckey"):
            return []
        return [s for a in v.args for s in secrets_in(I, a, seen)]
    if isinstance(v, tuple):
        return [s for a in v for s in secrets_in(I, a, seen)]
    if id(v) in seen or isinstance(v, NATIVE):
        return []
    seen.add(id(v))
    if isinstance(v, (AList, ASet)):
        return [s for a in v.items for s in secrets_in(I, a, seen)]
    if isinstance(v, ADict):
        return [s for e in v.entries.values() for a in (e.key, e.val) for s in secrets_in(I, a, seen)]
    if isinstance(v, AObj):
        return secrets_in(I, v.payload, seen) + [s for a in v.attrs.values() for s in secrets_in(I, a, seen)]
    if isinstance(v, ExtObj):
        return [s for a in v.attrs.values() for s in secrets_in(I, a, seen)]
    return []


def op(which, call, private=True, only=None, more=True, ring=1):
    def entry(I):
        m = J.members(which, private)
        if only:
            m = {k: v for k, v in m.items() if k in only}
        m.update(EXTRA if more else {})
        m.update(J.novel(I))
        key = I.call(J.cls(I, "psion.jose.jwk", "JsonWebKey"), [J.adict(m)], {})
        o = key
        name, args, kw = call
        if name.startswith("set."):
            ks = [J.make_key(I, "P-256" if (which == "RSA") is (i % 2 == 0) else "RSA", True, str(2 + i), kid=f"other{i or ''}") for i in range(ring)]
            o = I.call(J.cls(I, "psion.jose.jwk", "JsonWebKeySet"), [AList([key] + ks)], {})
        if name.startswith("alg."):
            o = I.getattr(key, "_algorithm")
        Mutable.cur_phase = 2
        return I.call(I.getattr(o, name.split(".")[-1]), list(args), dict(kw))
    return entry


# how else the loading of a key may be called
KWS = ({}, {"password": J.sym("password", T_BYTES, nonempty=True)}, {"kid": EXTRA["kid"], "use": "sig"},
       {"password": J.sym("password", T_BYTES, nonempty=True), "kid": EXTRA["kid"], "x-flag": False})
PUBLIC = [("dump", [], {}), ("dump", [True], {}), ("dump", [], {"public": True}), ("export", [True], {}),
          ("export", [], {"public": True}), ("set.dump", [], {}), ("set.dump", [True], {})]
PRIV = [("dump", [False], {}), ("export", [False], {}), ("export", [], {}), ("set.dump", [False], {})]


def text(call):
    return f"{call[0]}({', '.join([str(a) for a in call[1]] + [f'{k}={v}' for k, v in call[2].items()])})"


def check(C):
    C.rule("no-private", "no value reachable from the result of a public dump or export carries a private number of the key")
    C.rule("public-key-only", "a key that was loaded as public holds no private number and cannot give one out")
    for which in KINDS:
        shapes = [(None, True, 1), (None, False, 1), (None, True, 11)]
        if which == "RSA":
            shapes.append((("kty", "n", "e", "d"), True, 1))
        for only, more, ring in shapes:
            for call in PUBLIC:
                if (not more and call[0].startswith("set.")) or (ring > 1 and not call[0].startswith("set.")):
                    continue
                sc = Scenario(f"{which} {text(call)}" + (" minimal" if only else "") + ("" if more else " without further members")
                              + (f", {ring + 1} keys" if ring > 1 else ""))
                for i in range(ring):
                    sc.eq(EXTRA["kid"], f"other{i or ''}", False)
                r = C.run(sc, op(which, call, True, only, more, ring))
                C.guard(r.returns() or r.unknown, f"{which}: {text(call)} never returns")
                C.oblige("no-private", len(r.returns()))
                for p in r.returns():
                    C.I.ctx = p.ctx
                    leak = secrets_in(C.I, p.value)
                    if leak:
                        C.bad("no-private", f"{text(call)} of a private {'RSA' if which == 'RSA' else 'EC'} key discloses "
                                            f"{', '.join(sorted({show(t) for t in leak}))}", p)
        for call in PRIV:
            sc = Scenario(f"{which} public key {text(call)}")
            sc.eq(EXTRA["kid"], "other", False)
            r = C.run(sc, op(which, call, False))
            C.guard(r.paths or r.unknown, f"no partition of {sc.name}")
            C.oblige("public-key-only", len(r.paths))
            for p in r.returns():
                if call[0].startswith("set."):
                    continue
                C.bad("public-key-only", f"{text(call)} of a public key succeeds", p)
    # a private PEM loaded with public=True
    for alg, kinds in (("RSA", ("rsa",)), ("EC", ("ec",))):
        for form, kw in itertools.product(("path",) if not C.thorough else ("path", "bytes"), KWS):
            raw = J.sym(f"raw-{form}", frozenset({"str"}) if form == "path" else frozenset({"bytes"}), nonempty=True)

            def entry(I, alg=alg, raw=raw, kw=kw):
                Mutable.cur_phase = 2
                c = J.cls(I, "psion.jose.jwk", "JsonWebKey")
                return I.call(I.getattr(c, "parse"), [raw, alg, True], dict(kw))
            sc = Scenario(f"parse a private {alg} key as public from {form} {' '.join(kw)}")

            def orc(ctx, kind, args, want=kinds[0]):
                if kind == "contains" and args[1] in (b"PRIVATE", "PRIVATE"):
                    return True
                if kind == "pemkind":
                    return want
                return None
            sc.oracle(orc)
            r = C.run(sc, entry)
            C.guard(r.returns() or r.unknown, f"a private {alg} key cannot be loaded as public")
            C.oblige("public-key-only", len(r.returns()))
            for p in r.returns():
                C.I.ctx = p.ctx
                leak = secrets_in(C.I, p.value)
                if leak:
                    C.bad("public-key-only", f"parse(…, {alg!r}, public=True) of a private key keeps "
                                             f"{', '.join(sorted({show(t)[:40] for t in leak}))}", p)
