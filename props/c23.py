"""A code is issued only for a signed-in user, after it was saved with everything it is bound to."""
from psa import oauth as O
from psa.values import *
from props.c19 import W


def check(C):
    O.setup(C)
    C.rule("saved", "every code that is sent to a client was saved exactly once before, with the same code, the client of the "
                    "request, the signed-in user and the redirect URI, challenge, challenge method, scopes and nonce of the request")
    C.rule("user", "no code is saved or sent if no user is signed in; the client gets access_denied")
    C.rule("failure", "if the code cannot be saved no code is sent")
    for oidc in (False, True):
        for where in ("query", "body"):
            Q = lambda n: O.param(where, n)
            m = "GET" if where == "query" else "POST"
            for method in ("S256", "plain"):
                for nonce in (False, True):
                    for nw in (1, 2):
                        sc = O.authz(f"{where}: valid request, {method}, {nw} scopes{', nonce' if nonce else ''}"
                                     f"{', OpenID Connect' if oidc else ''}", where=where, also=("nonce",) if nonce else ())
                        sc.eqs = [e for e in sc.eqs if e[0] is not Q("code_challenge_method")]
                        sc.eq(Q("code_challenge_method"), method)
                        O.few_words_first(sc, Q("scope"), nw)
                        if nw == 2:
                            sc.eq(W(where, 1), "openid")
                        r = C.run(sc, O.endpoint("authorize", oidc, method=m, user=O.SESSION_USER))
                        C.oblige("saved", len(r.paths))
                        n = 0
                        for p in r.paths:
                            C.I.ctx = p.ctx
                            n += issued(C, p, where, method, nw, oidc and nonce)
                        C.guard(n or r.unknown, f"no partition of {sc.name} issues a code")
            sc = O.authz(f"{where}: nobody signed in", where=where)
            r = C.run(sc, O.endpoint("authorize", oidc, method=m, user=None))
            C.oblige("user", len(r.paths))
            for p in r.paths:
                C.I.ctx = p.ctx
                if O.calls(p, "save_authorization_code"):
                    C.bad("user", "a code is saved although no user is signed in", p)
                R = O.Resp(C.I, p.value) if p.kind == "return" else None
                if R is not None and R.ok and R.location() is not None:
                    L = O.Location(C.I, R.location())
                    if L.get("code"):
                        C.bad("user", "a code is sent although no user is signed in", p)
                    elif L.get("error") != ["access_denied"]:
                        C.bad("user", f"the client is told {show(L.get('error'))[:40]} although no user is signed in", p)
            for exc, times in [(exc, ()) for exc in O.FAULTS] + [(exc, (1,)) for exc in O.FAULTS]:
                sc = O.authz(f"{where}: the code cannot be saved ({exc}{' the first time' if times else ''})",
                             O.World(fault=("save_authorization_code", exc) + times), where=where)
                r = C.run(sc, O.endpoint("authorize", oidc, method=m, user=O.SESSION_USER))
                C.oblige("failure", len(r.paths))
                C.guard(r.unknown or any(O.calls(p, "save_authorization_code") for p in r.paths), f"{sc.name}: never saved")
                for p in r.returns():
                    C.I.ctx = p.ctx
                    R = O.Resp(C.I, p.value)
                    sent = O.Location(C.I, R.location()).get("code") if R.ok and R.location() is not None else ()
                    done = [e["args"][0] for e in O.calls(p, "save_authorization_code") if not e.get("failed")]
                    if any(not any(O.same(C.I, x, y) for y in done) for x in sent):
                        C.bad("failure", "a code is sent that was not saved", p)


def issued(C, p, where, method, nw, nonce):
    I = C.I
    R = O.Resp(I, p.value) if p.kind == "return" else None
    if R is None or not R.ok or R.location() is None:
        C.bad("saved", "a valid request is not redirected", p)
        return 0
    L = O.Location(I, R.location())
    codes = L.get("code")
    saves = O.calls(p, "save_authorization_code")
    if not codes or L.get("error"):
        C.bad("saved", f"a valid request is answered without a code ({[show(x)[:30] for x in L.get('error')]})", p)
        return 0
    if len(codes) != 1 or len(saves) != 1:
        C.bad("saved", f"{len(codes)} codes are sent and {len(saves)} are saved", p)
        return 0
    code, data, client, user = saves[0]["args"]
    if not O.same(I, code, codes[0]):
        C.bad("saved", "the code that is sent is not the one that was saved", p)
    if not O.is_obj(I, client, "Client", O.param(where, "client_id")):
        C.bad("saved", f"the code is saved for another client: {show(client)[:50]}", p)
    if not O.is_obj(I, user, "User", O.SESSION_USER):
        C.bad("saved", f"the code is saved for another user: {show(user)[:50]}", p)
    d = O.M.thaw(I, data)
    if not isinstance(d, ADict):
        C.bad("saved", f"the data saved with the code is no mapping: {show(data)[:50]}", p)
        return 0
    got = {e.key: I.ctx.n(e.val) for e in d.entries.values()}
    for k in ("redirect_uri", "code_challenge", "code_challenge_method") + (("nonce",) if nonce else ()):
        if not O.same(I, got.get(k), O.param(where, k)):
            C.bad("saved", f"the code is saved with another {k}: {show(got.get(k))[:50]}", p)
    xs = O.listed(I, got.get("scopes"))
    if xs is None or not O.same_set(I, xs, [W(where, i) for i in range(nw)]):
        C.bad("saved", f"the code is saved with other scopes: {show(got.get('scopes'))[:60]}", p)
    return 1
