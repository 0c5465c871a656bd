"""Key serialization keeps the key."""
import itertools

from psa import ext, jose as J, methods as MM
from psa.ctx import Scenario
from psa.values import *
from psa.values import T_BYTES, T_STR

EXTRA = {"kid": J.sym("kid", T_STR, nonempty=True), "use": "sig", "alg": J.sym("alg", T_STR, nonempty=True),
         "x5t": J.sym("x5t", T_STR, nonempty=True), "x-flag": False, "x-level": 0, "x-empty": "", "x-text": J.sym("x-text", T_STR)}
TEXT = J.sym("secret-text", T_STR, nonempty=True)
RAW = J.sym("secret-bytes", T_BYTES, nonempty=True)
WANT_PEM = {"n": "n", "e": "e", "d": "d", "p": "p", "q": "q", "dp": "dmp1", "dq": "dmq1", "qi": "iqmp"}


def JWK(I):
    return J.cls(I, "psion.jose.jwk", "JsonWebKey")


def number_of(t):
    """(number, width) of a base64url unsigned integer, or None."""
    if isinstance(t, Term) and t.op == "dec":
        t = t.args[0]
    if not (isinstance(t, Term) and t.op == "b64" and t.args[0] == "url" and t.args[1] is False):
        return None
    t = t.args[2]
    if not (isinstance(t, Term) and t.op == "tobytes" and len(t.args) == 2):
        return None
    return t.args[0], t.args[1]


def is_text(I, v):
    return isinstance(v, str) or isinstance(v, Term) and I.ctx.tags(v) == T_STR


def compare(I, d, which, private, tag="", extra=()):
    """A reason why the JWK `d` is not the given key, or None."""
    d = J.mapping_of(I, d)
    if not isinstance(d, ADict):
        return "the dump is not a mapping"
    got = {e.key: I.ctx.n(e.val) for e in d.entries.values() if e.guard is None or True}
    want = J.members(which, private, tag)
    for n in extra:
        if n not in got:
            return f"{n} is lost"
        if got[n] is not EXTRA[n] and got[n] != EXTRA[n] and I.ctx.known_eq(got[n], EXTRA[n]) is not True:
            return f"{n} is changed"
    for n, w in want.items():
        if n not in got:
            return f"{n} is lost"
        g = got[n]
        if isinstance(w, str):
            if g != w:
                return f"{n} becomes {show(g)[:40]}"
            continue
        if not is_text(I, g):
            return f"{n} is not text"
        if which == "oct":
            if g is not w:
                return "k is another secret"
            continue
        nw, ng = number_of(w), number_of(g)
        if ng is None:
            return f"{n} is not the base64url form of a number: {show(g)[:60]}"
        if ng[0] is not nw[0]:
            return f"{n} is another number"
        if which in J.CURVE and ng[1] != nw[1]:
            return f"{n} is not padded to the size of the curve"
    more = set(got) - set(want) - set(extra)
    if more:
        return f"it has the additional members {sorted(map(str, more))}"
    return None


def call(I, o, name, *a, **k):
    return I.call(I.getattr(o, name), list(a), k)


def check(C):
    C.rule("dump", "a JWK that is loaded and dumped has the same numbers, at full width, and the same other members")
    C.rule("export", "a key that is exported and parsed again is the same key")
    C.rule("generate", "a generated key is dumped with the numbers that were generated")
    C.rule("raw", "a shared secret that is given as such is taken as such, whatever the file system says about it as a path")
    missing = lambda ctx, kind, args: "missing" if kind == "file" else None

    def go(rule, sc, entry, judge):
        sc.oracle(missing)
        r = C.run(sc, entry)
        C.guard(r.returns() or r.unknown, f"{sc.name}: never returns")
        C.oblige(rule, len(r.paths))
        for p in r.raises():
            C.bad(rule, f"{sc.name}: raises {p.exc_name()}", p)
        for p in r.returns():
            C.I.ctx = p.ctx
            w = judge(p.value)
            if w:
                C.bad(rule, f"{sc.name}: {w}", p)

    for which in J.KEYS:
        kty = J.members(which)["kty"]
        for private in (True, False) if which != "oct" else (True,):
            for extra in ((), tuple(EXTRA)):
                ex = {n: EXTRA[n] for n in extra}
                for pub in (False, True) if private and which != "oct" else ((not private),):
                    def entry(I, which=which, private=private, ex=ex, pub=pub, times=1):
                        k = J.make_key(I, which, private, **ex)
                        Mutable.cur_phase = 2
                        return call(I, k, "dump", pub)
                    nm = f"{which} {'private' if private else 'public'} key, dump({'public' if pub else 'private'})"
                    go("dump", Scenario(nm), entry, lambda d, which=which, private=private, pub=pub, extra=extra:
                       compare(C.I, d, which, private and not pub, extra=extra))

                    def entry(I, which=which, private=private, ex=ex, pub=pub):
                        k = J.make_key(I, which, private, **ex)
                        Mutable.cur_phase = 2
                        d = call(I, k, "dump", pub)
                        return call(I, I.call(JWK(I), [d], {}), "dump", pub)
                    go("dump", Scenario(nm + ", loaded and dumped again"), entry,
                       lambda d, which=which, private=private, pub=pub, extra=extra:
                       compare(C.I, d, which, private and not pub, extra=extra))
            for pub in (False, True) if private and which != "oct" else ((not private),):
                def entry(I, which=which, private=private, pub=pub, kty=kty):
                    k = J.make_key(I, which, private)
                    Mutable.cur_phase = 2
                    pem = call(I, k, "export", pub)
                    k2 = call(I, JWK(I), "parse", pem, kty, pub, **EXTRA)
                    return call(I, k2, "dump", pub)
                nm = f"{which} {'private' if private else 'public'} key, export({'public' if pub else 'private'}) and parse"
                go("export", Scenario(nm), entry, lambda d, which=which, private=private, pub=pub:
                   compare(C.I, d, which, private and not pub, extra=tuple(EXTRA)))
    # RSA keys whose CRT members are missing
    crt = ("p", "q", "dp", "dq", "qi")
    some = [c for i in range(5) for c in itertools.combinations(crt, i)]
    for have in [("n", "e", "d") + c for c in some]:
        def entry(I, have=have):
            m = {k: v for k, v in J.members("RSA").items() if k in have + ("kty",)}
            k = I.call(JWK(I), [J.adict(m)], {})
            Mutable.cur_phase = 2
            return call(I, k, "dump", False)

        def judge(d, have=have):
            g = {e.key: C.I.ctx.n(e.val) for e in J.mapping_of(C.I, d).entries.values()}
            w = J.members("RSA")
            for n in w:
                if n not in g:
                    return f"{n} is missing"
                if n != "kty" and number_of(g[n]) is None:
                    return f"{n} is not the base64url form of a number: {show(g[n])[:60]}"
                if n in have and not (n in "pq" and ("p" not in have or "q" not in have)) \
                        and number_of(g[n])[0] is not number_of(w[n])[0]:
                    return f"{n} is another number"
            src = {n: number_of(g[n])[0] for n in ("p", "q", "dp", "dq", "qi") if number_of(g[n])}
            for n, (op, args) in {"dp": ("rsa_crt_dmp1", "p"), "dq": ("rsa_crt_dmq1", "q"), "qi": ("rsa_crt_iqmp", "pq")}.items():
                t = src.get(n)
                if n in have:
                    continue
                f = find(t, op)
                # qi = q^-1 mod p
                if not isinstance(t, Term) or f is None or not mentions(f, src.get(args[0])) or n == "qi" and f.args != (src.get("p"), src.get("q")):
                    return f"{n} is not recovered from the other members: {show(t)[:60]}"
        go("dump", Scenario(f"RSA private key with only {' '.join(have)}, dump(private)"), entry, judge)
    # generation
    for alg, opts in (("RSA", (None, 2048)), ("EC", tuple(J.CURVE)), ("oct", (None, 64))):
        for o in opts:
            for extra in ((), tuple(EXTRA)):
                def entry(I, alg=alg, o=o, extra=extra):
                    Mutable.cur_phase = 2
                    k = call(I, JWK(I), "generate", *([alg] if o is None else [alg, o]), **{n: EXTRA[n] for n in extra})
                    return call(I, k, "dump", False)

                def judge(d, alg=alg, extra=extra, o=o):
                    g = {e.key: C.I.ctx.n(e.val) for e in J.mapping_of(C.I, d).entries.values()}
                    for n in extra:
                        if n not in g or g[n] is not EXTRA[n] and g[n] != EXTRA[n]:
                            return f"{n} is lost"
                    names = {"RSA": WANT_PEM, "EC": {"x": "x", "y": "y", "d": "d"}, "oct": {}}[alg]
                    seen = set()
                    for n, w in names.items():
                        if n == "e" and g.get(n) == "AQAB":
                            continue
                        t = number_of(g.get(n))
                        if t is None:
                            return f"{n} is not a number"
                        if not (isinstance(t[0], Term) and t[0].op == "num" and str(t[0].args[0]).split("#")[0] in ("rsa" + w, "ec" + w)):
                            return f"{n} is not the generated number: {show(t[0])[:50]}"
                        if alg == "EC" and t[1] != (J.CURVE[o][1] + 7) // 8:
                            return f"{n} is not padded to the size of the curve"
                go("generate", Scenario(f"generate {alg} {o}"), entry, judge)
    # raw secrets
    for v, nm in ((TEXT, "text"), (RAW, "bytes")):
        for state in ("missing", "directory", "toolong", "nul", "notdir"):
            for fmt in ("pem", "der"):
                def entry(I, v=v, fmt=fmt):
                    Mutable.cur_phase = 2
                    k = call(I, JWK(I), "parse", v, "oct", False, format=fmt)
                    return call(I, k, "dump", False)
                sc = Scenario(f"parse a secret given as {nm} ({fmt}), as a path: {state}")

                def orc(ctx, kind, args, state=state):
                    if kind == "file":
                        return state
                    if kind == "contains" or kind.startswith("raises:b64"):
                        return False
                    return None
                sc.oracle(orc)

                def judge(d, v=v, fmt=fmt):
                    g = {e.key: C.I.ctx.n(e.val) for e in J.mapping_of(C.I, d).entries.values()}
                    t = g.get("k")
                    if t is not secret_of(C.I, v, fmt):
                        return f"the secret is {show(t)[:50]}"
                go("raw", sc, entry, judge)

        for fmt in ("pem", "der"):
            def entry(I, v=v, fmt=fmt):
                Mutable.cur_phase = 2
                k = call(I, JWK(I), "parse", v, "oct", False, format=fmt)
                return call(I, k, "dump", False)
            sc = Scenario(f"parse a secret ({fmt}) from the file named by {nm}")

            def orc(ctx, kind, args):
                if kind == "file":
                    return "file"
                if kind == "contains" or kind.startswith("raises:b64"):
                    return False
                return None
            sc.oracle(orc)

            def judge(d, fmt=fmt):
                g = {e.key: C.I.ctx.n(e.val) for e in J.mapping_of(C.I, d).entries.values()}
                k = g.get("k")
                raw = find(k, "filecontent")
                if raw is None or k is not secret_of(C.I, raw, fmt):
                    return f"the secret is {show(g.get('k'))[:50]}"
            go("raw", sc, entry, judge)


def secret_of(I, raw, fmt):
    """The member k of the secret given by the octets `raw`: as they are, or in base64."""
    if I.ctx.tags(raw) == T_STR:
        raw = MM.encode(I, raw)
    if fmt == "pem":
        raw = ext.b64_decode(I, raw, "std")
    return J.b64u(raw)


def find(t, op):
    if isinstance(t, Term):
        if t.op == op:
            return t
        return next((f for a in t.args if (f := find(a, op)) is not None), None)


def mentions(t, x):
    if t is x:
        return True
    return isinstance(t, Term) and any(mentions(a, x) for a in t.args)
