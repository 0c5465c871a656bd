"""An authorization code is spent by the first attempt to exchange it."""
from psa import oauth as O
from psa.values import *
from props.c15 import GRANTING, negative

P = lambda n: O.param("body", n)
FAULTS = ("get_authorization_code", "find_user", "create_access_token", "create_refresh_token", "get_userinfo", "get_key_info")


def deleted(C, p):
    return [e for e in O.calls(p, "delete_authorization_code") if not e.get("failed") and O.same(C.I, e["args"][0], P("code"))]


def twice(sc, oidc):
    def entry(I):
        p = O.provider(I, oidc)
        out = []
        for _ in range(2):
            Mutable.cur_phase = 2
            r = O.request(I, "POST", sc.auth.headers(I), O.BODY, O.URL)
            out.append(I.await_(I.call(I.getattr(p, "token"), [r], {})))
            I.ctx.event("answered")
        return tuple(out)
    return entry


def check(C):
    O.setup(C)
    C.rule("spent", "every partition in which an authenticated client presents a code deletes that code before it ends, "
                    "whether it ends in a response or in an exception")
    C.rule("fault", "the same if any call of the application's storage fails or is cancelled")
    C.rule("replay", "a second exchange of the same code creates no token")

    def judge(rule, what, sc, oidc):
        r = C.run(sc, O.call_token(sc, oidc))
        C.oblige(rule, len(r.paths))
        for p in r.paths:
            C.I.ctx = p.ctx
            if not deleted(C, p):
                end = "an exception" if p.kind == "raise" else "a response"
                C.bad(rule, f"the code is still valid after {what} (ends in {end})", p)
        return r

    n = 0
    for oidc in (False, True):
        for how in O.AUTHS:
            sc = O.token(f"{how}: valid exchange", "authorization_code", how)
            n += len(judge("spent", "a valid exchange", sc, oidc).paths)
            for m in FAULTS:
                for exc in O.FAULTS:
                    for k in (1, 2) if m == "get_authorization_code" else (1,):
                        w = O.Auth(how).world(fault=(m, exc, k))
                        sc = O.token(f"{how}: {m} fails ({exc}, call {k})", "authorization_code", how, w)
                        judge("fault", f"{m.replace('_', ' ')} failed with {exc}", sc, oidc)
            sc = O.token(f"{how}: replay", "authorization_code", how)
            r = C.run(sc, twice(sc, oidc))
            C.oblige("replay", len(r.paths))
            for p in r.paths:
                C.I.ctx = p.ctx
                k = [i for i, e in enumerate(p.events) if e["kind"] == "answered"]
                if k and any(e["kind"] == "adapter" and e["name"] in GRANTING for e in p.events[k[0]:]):
                    C.bad("replay", "the second exchange of a code creates a token", p)
        for what, sc, a in negative():
            if what != "no code" and what != "an unknown code":
                judge("spent", f"an attempt with {what}", sc, oidc)
    C.guard(n or C.gaps, "no exchange was analysed")
