"""Authorization headers are read exactly and never make the reader fail."""
from psa import oauth as O
from psa.ctx import Scenario
from psa.values import *
from psa.values import T_STR

ID, SECRET, TOKEN = O.BASIC_ID, O.BASIC_SECRET, O.word("bearer-token")
HEADERS = ("authorization", "Authorization")
FN = {"basic": "get_basic_authorization", "bearer": "get_bearer_authorization"}


def call(fn, headers):
    def entry(I):
        h = O.J.adict(headers(I))
        Mutable.cur_phase = 2
        return I.call(I.import_module("psion.webtools").attrs[FN[fn]], [h], {})
    return entry


def basic(I, scheme, cid=None, secret=None):
    t = O.basic(I, cid if cid is not None else ID, secret if secret is not None else SECRET)
    ps = O.M.parts(I, t)
    return O.M.mk_cat(I, "str", [scheme + ps[0][len("Basic"):]] + list(ps[1:]))


def nothing(I, v):
    v = I.ctx.n(v)
    return v is None or isinstance(v, tuple) and all(I.ctx.n(x) is None for x in v)


def check(C):
    O.setup(C)
    C.rule("total", "no header value makes the reader raise; the result is the credentials or nothing")
    C.rule("exact", "well-formed credentials are read exactly, also a secret with colons; the scheme's case does not matter")
    C.rule("nothing", "no credentials are read from a missing header, another scheme or a malformed value")
    web = C.I.import_module("psion.webtools").attrs
    for fn, name in FN.items():
        if name not in web:
            C.gap(f"{name} does not exist")
            continue

        def run(rule, what, headers, judge, facts=None):
            sc = Scenario(f"{fn}: {what}")
            if facts:
                facts(sc)
            r = C.run(sc, call(fn, headers))
            C.guard(r.paths or r.unknown, f"no partition of {sc.name}")
            C.oblige(rule, len(r.paths))
            C.oblige("total", len(r.paths))
            for p in r.paths:
                C.I.ctx = p.ctx
                if p.kind == "raise":
                    C.bad("total", f"{fn}: {what} raises {p.exc_name()}", p)
                else:
                    why = judge(C.I, C.I.ctx.n(p.value))
                    if why:
                        C.bad(rule, f"{fn}: {what}: {why}", p)

        def kind(I, v):
            if fn == "bearer":
                return None if v is None or isinstance(v, str) or isinstance(v, Term) and I.ctx.tags(v) == T_STR else \
                    f"the result is {show(v)[:40]}"
            if not (isinstance(v, tuple) and len(v) == 2):
                return f"the result is {show(v)[:40]}"
            xs = [I.ctx.n(x) for x in v]
            if all(x is None for x in xs):
                return None
            if all(isinstance(x, str) or isinstance(x, Term) and I.ctx.tags(x) == T_STR for x in xs):
                return None
            return f"the result is {show(v)[:60]}"

        none = lambda I, v: None if nothing(I, v) and (fn == "bearer" or isinstance(v, tuple)) else f"credentials are read: {show(v)[:60]}"
        for h in HEADERS:
            run("total", f"any value of {h}", lambda I: {h: O.AUTH}, kind)
            run("nothing", f"an empty {h}", lambda I: {h: ""}, none)
            run("nothing", f"{h} with a scheme only", lambda I: {h: "Basic" if fn == "basic" else "Bearer"}, none)
            run("nothing", f"{h} with a scheme and blanks", lambda I: {h: "Basic  " if fn == "basic" else "Bearer  "}, none)
            other = "Bearer " if fn == "basic" else "Basic "
            run("nothing", f"{h} with another scheme", lambda I: {h: O.M.mk_cat(I, "str", [other, TOKEN])}, none)
            run("nothing", f"{h} with a longer scheme", lambda I: {h: O.M.mk_cat(I, "str", [("Basically " if fn == "basic" else "Bearers "), TOKEN])}, none)
            schemes = ("Basic", "basic", "BASIC") if fn == "basic" else ("Bearer", "bearer", "BEARER")
            for s in schemes:
                if fn == "basic":
                    def pair(I, v):
                        ok = isinstance(v, tuple) and len(v) == 2 and O.same(I, v[0], ID) and O.same(I, v[1], SECRET)
                        return None if ok else f"the credentials are read as {show(v)[:80]}"
                    run("exact", f"{h}: {s} with credentials", lambda I: {h: basic(I, s)}, pair)
                    c2 = O.txt("secret-with-colons")
                    run("exact", f"{h}: {s} with colons in the secret", lambda I: {h: basic(I, s)}, pair,
                        lambda sc: sc.fact("contains", SECRET, ":", value=True))
                else:
                    def tok(I, v):
                        return None if O.same(I, v, TOKEN) else f"the token is read as {show(v)[:60]}"
                    run("exact", f"{h}: {s} with a token", lambda I: {h: O.M.mk_cat(I, "str", [s + " ", TOKEN])}, tok)
        run("nothing", "no header", lambda I: {}, none)
        run("nothing", "another header", lambda I: {"x-authorization": O.AUTH}, none)
        if fn == "basic":
            NO = O.word("no-colon")
            NO.meta["nosep"] = (":", b":", " ", b" ")

            def nocolon(I):
                b = Term("b64", ("std", True, Term("enc", (NO,), O.T_BYTES)), O.T_BYTES)
                b.meta.update(ascii=True, nonempty=True)
                t = Term("dec", (b,), T_STR)
                t.meta.update(ascii=True, nonempty=True, nosep=(" ", b" "))
                return {"authorization": O.M.mk_cat(I, "str", ["Basic ", t])}
            run("nothing", "credentials without a colon", nocolon, none)
