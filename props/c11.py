"""Key sets: unique identifiers, exact lookup."""
from psa import jose as J
from psa.ctx import Scenario
from psa.values import *
from psa.values import T_ANY, T_STR

KID = [J.sym(f"kid{i}", T_STR, nonempty=True) for i in range(3)]
Q = J.sym("wanted-kid", T_STR, nonempty=True)
WHICH = ["oct", "RSA", "P-256"]


def keyset(I, keys):
    return I.call(J.cls(I, "psion.jose.jwk", "JsonWebKeySet"), [AList(keys)], {})


# what keys may differ in, besides the identifier
DIFF = ({"use": "sig", "alg": "HS256"}, {"use": "enc", "key_ops": ("encrypt",)}, {"alg": "RS256", "x5t": "abc"})


def keys(I, n, kids, diff=False):
    return [J.make_key(I, WHICH[i % 3], True, str(i), **({"kid": kids[i]} if kids[i] is not None else {}), **(own(i) if diff else {}))
            for i in range(n)]


def own(i):
    return {k: AList(v) if isinstance(v, tuple) else v for k, v in DIFF[i % 3].items()}


def distinct(sc, terms):
    for i, a in enumerate(terms):
        for b in terms[:i]:
            sc.eq(a, b, False)
    return sc


def jwks(I, n, kids, diff=False):
    l = []
    for i in range(n):
        m = J.members(WHICH[i % 3], True, str(i))
        m.update(own(i) if diff else {})
        if kids[i] is not None:
            m["kid"] = kids[i]
        l.append(J.adict(m))
    return l


def check(C):
    C.rule("unique", "no key set is built with a member that is not a key, has no identifier or shares its identifier")
    C.rule("distinct", "keys with distinct identifiers form a key set that holds exactly those keys")
    C.rule("lookup", "looking up an identifier gives the key that has it, and nothing if no key has it")
    C.rule("serialize", "dumping and loading a key set keeps every key under its identifier")

    def never(what, sc, entry):
        r = C.run(sc, entry)
        C.guard(r.paths or r.unknown, f"no partition of {sc.name}")
        C.oblige("unique", len(r.paths))
        for p in r.returns():
            C.bad("unique", what, p)

    def built(make):
        def entry(I):
            v = make(I)
            Mutable.cur_phase = 2
            return I.call(J.cls(I, "psion.jose.jwk", "JsonWebKeySet"), [v], {})
        return entry

    def loaded(make):
        def entry(I):
            s = keyset(I, [J.make_key(I, "oct", kid="seed")])
            v = make(I)
            Mutable.cur_phase = 2
            return I.call(I.getattr(s, "load"), [v], {})
        return entry

    for nm, mk in (("nothing", lambda I: None), ("an empty list", lambda I: AList([])), ("a dict", lambda I: J.adict({"a": 1})),
                   ("a string", lambda I: "keys")):
        never(f"{nm} is accepted as the keys of a key set", Scenario(f"key set of {nm}"), built(mk))
    for n in (1, 2, 3):
        for pos in range(n):
            for nm, alien in (("a dict", lambda I: J.adict(J.members("oct") | {"kid": "x"})), ("nothing", lambda I: None)):
                def mk(I, n=n, pos=pos, alien=alien):
                    ks = keys(I, n, KID)
                    ks[pos] = alien(I)
                    return AList(ks)
                never(f"a key set accepts {nm} as a key", distinct(Scenario(f"key set of {n}, {nm} at {pos}"), KID), built(mk))

            def mk(I, n=n, pos=pos):
                return AList(keys(I, n, [None if i == pos else KID[i] for i in range(n)]))
            never("a key set accepts a key without identifier", distinct(Scenario(f"key set of {n}, no kid at {pos}"), KID), built(mk))

            def mkl(I, n=n, pos=pos):
                return J.adict({"keys": AList(jwks(I, n, [None if i == pos else KID[i] for i in range(n)]))})
            never("loading a key set accepts a key without identifier",
                  distinct(Scenario(f"load a key set of {n}, no kid at {pos}"), KID), loaded(mkl))
            def mku(I, n=n, pos=pos):
                l = jwks(I, n, KID)
                l[pos] = J.adict({"kty": "OKP", "crv": "Ed25519", "x": "AA", "kid": KID[pos]})
                return J.adict({"keys": AList(l)})
            never("loading a key set accepts a member that is no key",
                  distinct(Scenario(f"load a key set of {n}, unsupported key at {pos}"), KID), loaded(mku))
            for other in range(pos):
                def kids(n=n, pos=pos, other=other):
                    return [KID[other] if i == pos else KID[i] for i in range(n)]
                never("a key set accepts two keys with the same identifier",
                      distinct(Scenario(f"key set of {n}, {other} and {pos} share the kid"), KID),
                      built(lambda I, n=n, kids=kids: AList(keys(I, n, kids()))))
                never("loading a key set accepts two keys with the same identifier",
                      distinct(Scenario(f"load a key set of {n}, {other} and {pos} share the kid"), KID),
                      loaded(lambda I, n=n, kids=kids: J.adict({"keys": AList(jwks(I, n, kids()))})))
    for n, a, b in ((2, 0, 1), (3, 0, 2), (3, 1, 2), (12, 0, 11), (12, 10, 11), (12, 3, 4)):
        for diff in (True, False) if n == 12 else (True,):
            many = [f"id{i}" for i in range(n)]
            many[b] = many[a]
            how = f"{n} keys{' for different uses' if diff else ''}, {a} and {b} share the identifier"
            never("a key set accepts two keys with the same identifier", Scenario(f"key set of {how}"),
                  built(lambda I, n=n, many=many, diff=diff: AList(keys(I, n, many, diff))))
            never("loading a key set accepts two keys with the same identifier", Scenario(f"load a key set of {how}"),
                  loaded(lambda I, n=n, many=many, diff=diff: J.adict({"keys": AList(jwks(I, n, many, diff))})))
    for nm, mk in (("nothing", lambda I: None), ("an empty dict", lambda I: J.adict({})),
                   ("a dict without keys", lambda I: J.adict({"jwks": AList([])})),
                   ("a dict with another member", lambda I: J.adict({"keys": AList(jwks(I, 1, KID)), "other": 1})),
                   ("an empty list of keys", lambda I: J.adict({"keys": AList([])}))):
        never(f"loading a key set accepts {nm}", Scenario(f"load {nm}"), loaded(mk))

    def entry_of(source, n, op):
        def entry(I):
            if source == "built":
                ks = keys(I, n, KID)
                Mutable.cur_phase = 2
                s = keyset(I, ks)
            else:
                seed = keyset(I, [J.make_key(I, "oct", kid="seed")])
                if source == "loaded":
                    d = J.adict({"keys": AList(jwks(I, n, KID))})
                else:
                    d = I.call(I.getattr(keyset(I, keys(I, n, KID)), "dump"), [False], {})
                Mutable.cur_phase = 2
                s = I.call(I.getattr(seed, "load"), [d], {})
            if op == "dump":
                return I.call(I.getattr(s, "dump"), [False], {})
            return I.call(I.getattr(s, "get_key"), [op if op != "get" else Q], {})
        return entry

    def member(I, key, n):
        d = J.mapping_of(I, I.getattr(key, "data"))
        e = d.entries.get(ckey(n)) if isinstance(d, ADict) else None
        return I.ctx.n(e.val) if e else None

    for source in ("built", "loaded", "dumped and loaded"):
        for n in (1, 2, 3):
            for hit in list(range(n)) + [None]:
                sc = distinct(Scenario(f"{source} key set of {n}, look up {hit}"), KID)
                for i in range(3):
                    sc.eq(Q, KID[i], i == hit)
                r = C.run(sc, entry_of(source, n, "get"))
                C.guard(r.returns() or r.unknown, f"{sc.name}: never answers")
                rule = "lookup" if source != "dumped and loaded" else "serialize"
                C.oblige(rule, len(r.paths))
                for p in r.raises():
                    C.bad("distinct", f"a {source} key set with distinct identifiers raises {p.exc_name()}", p)
                for p in r.returns():
                    C.I.ctx = p.ctx
                    if hit is None:
                        if p.value is not None:
                            C.bad(rule, "looking up an unknown identifier gives a key", p)
                        continue
                    if not isinstance(p.value, AObj):
                        C.bad(rule, f"looking up an identifier of a {source} key set does not give its key", p)
                        continue
                    want = J.members(WHICH[hit], True, str(hit))
                    k = member(C.I, p.value, "kid")
                    if not (k is KID[hit] or C.I.ctx.known_eq(k, KID[hit]) is True) or member(C.I, p.value, "kty") != want["kty"]:
                        C.bad(rule, f"looking up an identifier of a {source} key set gives another key", p)
            for odd in (None, "", 0):
                sc = distinct(Scenario(f"{source} key set of {n}, look up {odd!r}"), KID)
                for k in KID:
                    sc.eq(k, odd, False)
                r = C.run(sc, entry_of(source, n, odd))
                C.guard(r.paths or r.unknown, f"no partition of {sc.name}")
                C.oblige("lookup", len(r.paths))
                for p in r.returns():
                    if p.value is not None:
                        C.bad("lookup", f"looking up {odd!r} gives a key", p)
            sc = distinct(Scenario(f"{source} key set of {n}, dump"), KID)
            r = C.run(sc, entry_of(source, n, "dump"))
            C.guard(r.returns() or r.unknown, f"{sc.name}: never returns")
            C.oblige("distinct", len(r.paths))
            for p in r.raises():
                C.bad("distinct", f"a {source} key set with distinct identifiers raises {p.exc_name()}", p)
            for p in r.returns():
                C.I.ctx = p.ctx
                d = J.mapping_of(C.I, p.value)
                e = d.entries.get(ckey("keys")) if isinstance(d, ADict) else None
                l = C.I.ctx.n(e.val) if e else None
                if not isinstance(l, AList) or len(d.entries) != 1:
                    C.bad("serialize", "the dump of a key set is not an object with the list of keys", p)
                    continue
                got = []
                for m in l.items:
                    m = J.mapping_of(C.I, m)
                    got.append((C.I.ctx.n(m.entries[ckey("kid")].val) if isinstance(m, ADict) and ckey("kid") in m.entries else None,
                                C.I.ctx.n(m.entries[ckey("kty")].val) if isinstance(m, ADict) and ckey("kty") in m.entries else None))
                want = [(KID[i], J.members(WHICH[i])["kty"]) for i in range(n)]
                if sorted(map(str, got)) != sorted(map(str, want)):
                    C.bad("serialize", f"the dump of a {source} key set does not hold its keys", p)
