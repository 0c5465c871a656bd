"""Every redirection back to the client carries the state of the request, once."""
from psa import oauth as O
from psa.values import *


def check(C):
    O.setup(C)
    C.rule("state", "a redirection to the client carries the state parameter of the request exactly once and unchanged")
    C.rule("no-state", "a redirection to the client carries no state if the request has none")
    n = 0
    for where in ("query", "body"):
        for miss in (None,) + tuple(x for x in O.AUTHZ if x not in ("client_id", "redirect_uri", "state")):
            for st in (True, False):
                for ep, user in (("authorize", O.SESSION_USER), ("authorize", None), ("consent", None)):
                    for oidc in (False, True) if ep == "authorize" and user is not None else (False,):
                        have = [x for x in O.AUTHZ if x != miss and (st or x != "state")]
                        sc = O.authz(f"{ep} {where}: {'without ' + miss if miss else 'complete'}, "
                                     f"{'with' if st else 'without'} state, user {'there' if user is not None else 'missing'}"
                                     f"{', OpenID Connect' if oidc else ''}",
                                     O.World(exists={"client": True}, client={"uris": O.URI[:1], "response_types": ["code", O.OTHER_TYPE]}),
                                     good=False, have=have, where=where, also=("nonce",) if oidc else ())
                        sc.eq(O.OTHER_TYPE, "code", False)
                        sc.eq(O.param(where, "redirect_uri"), O.URI[0])
                        O.few_words(sc, O.param(where, "scope"), 1)
                        r = C.run(sc, O.endpoint(ep, oidc, method="GET" if where == "query" else "POST", user=user))
                        C.oblige("state" if st else "no-state", len(r.paths))
                        for p in r.returns():
                            n += judge(C, ep, p, O.param(where, "state") if st else None)
    # many scopes: allowed, one of them not offered, one of them not allowed
    many = O.MANY_SCOPES
    for where in ("query", "body"):
        for ep, user in (("authorize", O.SESSION_USER), ("authorize", None), ("consent", None)):
            for st in (True, False):
                for what, ask in (("all allowed", many), ("one not offered", many + ["odd"]), ("one not allowed", many + ["secret"])):
                    sc = O.authz(f"{ep} {where}: {len(ask)} scopes, {what}, {'with' if st else 'without'} state, user "
                                 f"{'there' if user is not None else 'missing'}",
                                 O.World(allowed=lambda s: s != "secret"), have=[x for x in O.AUTHZ if st or x != "state"], where=where)
                    O.pin(sc, O.param(where, "scope"), " ".join(ask))
                    r = C.run(sc, O.endpoint(ep, method="GET" if where == "query" else "POST", user=user, scopes=many + ["secret"]))
                    C.oblige("state" if st else "no-state", len(r.paths))
                    k = 0
                    for p in r.returns():
                        k += judge(C, ep, p, O.param(where, "state") if st else None)
                    C.guard(k or ep == "consent" or r.unknown, f"{sc.name}: no redirection to the client")
                    n += k
    C.guard(n or C.gaps, "no redirection to the client was found")


def judge(C, ep, p, state):
    I = C.I
    I.ctx = p.ctx
    R = O.Resp(I, p.value)
    if not R.ok or R.location() is None:
        return 0
    L = O.Location(I, R.location())
    b = O.base_uri(I, L)
    if b is None or not O.same(I, b, O.URI[0]):
        return 0
    kind = "the error response" if L.get("error") else "the response"
    got = L.get("state")
    if state is None:
        if got:
            C.bad("no-state", f"{ep}: {kind} carries a state ({show(got[0])[:40]}) that the request does not have", p)
    elif not got:
        err = L.get("error")
        C.bad("state", f"{ep}: {kind}{' ' + show(err[0])[:40] if err else ''} to the client lacks the state", p)
    elif len(got) > 1 or not O.same(I, got[0], state):
        C.bad("state", f"{ep}: {kind} to the client carries another state: {show(got[0])[:60]}", p)
    return 1
