"""No token is issued for scopes beyond those offered, allowed, granted and requested."""
from psa import oauth as O
from psa.values import *
from psa.values import T_STR


def W(where, i):
    return Term("word", (O.param(where, "scope"), i), T_STR)


def inside(C, p, got, rule, what, requested=None, ident=None, among=None, offered=True):
    """`got`: the scopes of a code or token."""
    I = C.I
    xs = O.listed(I, got)
    if xs is None:
        C.gap(f"{what}: the scopes are not understood: {show(got)[:60]}")
        return None
    prov = ["openid"] + O.SCOPE
    for x in xs:
        if offered and not any(O.same(I, x, y) for y in prov):
            C.bad(rule, f"{what} has a scope that the provider does not offer", p)
        if ident is not None and not allowed(I, ident, x):
            C.bad(rule, f"{what} has a scope that the client is not allowed", p)
        if requested is not None and not any(O.same(I, x, y) for y in requested):
            C.bad(rule, f"{what} has a scope that was not requested", p)
        if among is not None and not any(O.same(I, x, y) for y in among):
            C.bad(rule, f"{what} has a scope beyond the ones that were granted", p)
    return xs


def allowed(I, ident, x):
    """Did the application say, for this client, that the scope is allowed?"""
    for (k, *a), v in list(I.ctx.facts.items()):
        if k == "allowed" and v is True and len(a) == 2:
            i, s = (O.ckey_value(y) for y in a)
            if O.same(I, i, ident) and O.same(I, s, x):
                return True
    return False


def stated(C, p, R, granted, default, what):
    """The scope member of a token response agrees with what was granted."""
    I = C.I
    m = R.members()
    if m is None:
        C.gap(f"{what}: the response is not understood")
        return
    if "scope" in m:
        ws = O.split_words(I, m["scope"])
        if ws is None:
            C.gap(f"{what}: the scope member is not understood: {show(m['scope'])[:60]}")
        elif not O.same_set(I, ws, granted):
            C.bad("stated", f"{what}: the response states other scopes than were granted", p)
    elif granted and (default is None or not O.same_set(I, granted, default)):
        C.bad("stated", f"{what}: the response does not state the scopes although they differ from the requested ones", p)


def check(C):
    O.setup(C)
    C.rule("code", "the scopes saved with a code are offered by the provider, allowed for the client and requested")
    C.rule("client", "a client-credentials token has only scopes that are allowed for the client and, if scopes were requested, "
                     "offered and requested")
    C.rule("refresh", "a refreshed token has only scopes of the refresh token that are allowed, offered and requested")
    C.rule("stated", "the scope of a token response is what was granted; it is left out only if that is what was asked for")
    many(C)
    for nw in (1, 2) if not C.thorough else (1, 2, 3):
        for oidc in (False, True):
            authz(C, nw, oidc)
            for how in ("basic", "post"):
                client(C, nw, oidc, how)
            for how in O.AUTHS if C.thorough else ("basic",):
                refresh(C, nw, oidc, how)
    for how in ("basic", "post"):
        client(C, 0, False, how)
    for how in O.AUTHS:
        refresh(C, 0, False, how)
        exchange(C, how)


def many(C):
    """Long lists of scopes, of which one may be the wrong one, wherever it stands."""
    ss = O.MANY_SCOPES
    offered = ss + ["secret", "ungranted"]
    asks = [("all right", ss, True)]
    for what, odd in (("one not offered", "odd"), ("one not allowed", "secret")):
        asks += [(f"{what} (number {xs.index(odd) + 1})", xs, False) for xs in O.amid(odd, ss)]
        asks.append((f"{what} (alone)", [odd], False))
    may = lambda s: s != "secret"

    def run(rule, what, sc, entry, made, where, ask, right):
        O.pin(sc, O.param(where, "scope"), " ".join(ask))
        sc.world.allowed = may
        r = C.run(sc, entry)
        C.oblige(rule, len(r.paths))
        n = 0
        for p in r.paths:
            C.I.ctx = p.ctx
            for xs in made(p):
                n += 1
                if not right:
                    C.bad(rule, f"{what} is issued although the scopes requested are not all right", p)
                elif xs is None:
                    C.gap(f"{what}: the scopes are not understood")
                elif not O.same_set(C.I, xs, ask):
                    C.bad(rule, f"{what} for many scopes has other scopes than were requested", p)
                elif rule != "code" and p.kind == "return":
                    R = O.Resp(C.I, p.value)
                    if R.ok and R.status == 200:
                        stated(C, p, R, xs, ask, what)
        if right and r.paths and not n and not r.unknown:
            C.bad(rule, f"{what} is not issued for {len(ask)} scopes that are all right", r.paths[0])

    def saved(p):
        for e in O.calls(p, "save_authorization_code"):
            d = O.M.thaw(C.I, e["args"][1])
            v = d.entries.get(ckey("scopes")) if isinstance(d, ADict) else None
            yield O.listed(C.I, v.val) if v is not None else []

    def created(p):
        for e in O.calls(p, "create_access_token", "create_refresh_token"):
            yield O.listed(C.I, e["args"][2])

    for name, ask, right in asks:
        for where in ("query", "body"):
            sc = O.authz(f"authorize {where}, {len(ask)} scopes, {name}", where=where)
            run("code", "a code", sc, O.endpoint("authorize", method="GET" if where == "query" else "POST", user=O.SESSION_USER,
                                                 scopes=offered), saved, where, ask, right)
        for how in ("basic", "post"):
            sc = O.token(f"client_credentials {how}, {len(ask)} scopes, {name}", "client_credentials", how, also=("scope",))
            run("client", "a client-credentials token", sc, O.call_token(sc, scopes=offered), created, "body", ask, right)
        for more in ([], ["and-one"]):
            sc = O.token(f"refresh_token, {len(ask)} scopes of {len(ask) + len(more)}, {name}", "refresh_token", "basic",
                         O.Auth("basic").world(refresh={"scopes": ask + more}), also=("scope",))
            run("refresh", "a refreshed token", sc, O.call_token(sc, scopes=offered), created, "body", ask, right)
    for ask in O.amid("ungranted", ss):
        sc = O.token(f"refresh_token, {len(ask)} scopes, one not granted (number {ask.index('ungranted') + 1})", "refresh_token",
                     "basic", O.Auth("basic").world(refresh={"scopes": ss}), also=("scope",))
        run("refresh", "a refreshed token", sc, O.call_token(sc, scopes=offered), created, "body", ask, False)
    # an application that answers with what the client may request at all
    for ask, only in (([O.SCOPE[0]], [O.SCOPE[1]]), (O.SCOPE, [O.SCOPE[0], "openid"]), ([O.SCOPE[0]], ["openid", O.SCOPE[1]])):
        for where in ("query", "body"):
            sc = O.authz(f"authorize {where}: requested {[show(x) for x in ask]}, the client may request {[show(x) for x in only]}",
                         O.World(allowed_only=only), where=where)
            sc.eqs = [e for e in sc.eqs if not (isinstance(e[0], Term) and e[0].op == "word")]
            O.few_words_first(sc, O.param(where, "scope"), len(ask))
            for i, x in enumerate(ask):
                sc.eq(W(where, i), x)
                sc.eq(x, "openid", False)
            sc.eq(O.SCOPE[0], O.SCOPE[1], False)
            r = C.run(sc, O.endpoint("authorize", method="GET" if where == "query" else "POST", user=O.SESSION_USER))
            C.oblige("code", len(r.paths))
            for p in r.paths:
                if O.calls(p, "save_authorization_code"):
                    C.I.ctx = p.ctx
                    C.bad("code", "a code is issued for a scope that the client is not allowed", p)


def authz(C, nw, oidc):
    for where in ("query", "body"):
        sc = O.authz(f"authorize {where}, {nw} scopes", where=where)
        sc.world.allowed = None
        sc.eqs = [e for e in sc.eqs if not (isinstance(e[0], Term) and e[0].op == "word")]
        sc.oracles = [o for o in sc.oracles]
        O.few_words_first(sc, O.param(where, "scope"), nw)
        r = C.run(sc, O.endpoint("authorize", oidc, method="GET" if where == "query" else "POST", user=O.SESSION_USER))
        C.oblige("code", len(r.paths))
        n = 0
        for p in r.paths:
            C.I.ctx = p.ctx
            for e in O.calls(p, "save_authorization_code"):
                n += 1
                d = O.M.thaw(C.I, e["args"][1])
                v = d.entries.get(ckey("scopes")) if isinstance(d, ADict) else None
                if v is None:
                    C.bad("code", "a code is saved without scopes", p)
                    continue
                ident = O.param(where, "client_id")
                words = [W(where, i) for i in range(nw)]
                xs = inside(C, p, v.val, "code", "a code", words, ident)
                if xs is not None and not all(any(O.same(C.I, x, y) for y in xs) for x in words):
                    C.bad("code", "a code lacks a scope that was requested", p)
        C.guard(n or r.unknown, f"no partition of {sc.name} issues a code")


def client(C, nw, oidc, how):
    sc = O.token(f"client_credentials {how}, {nw} scopes", "client_credentials", how, also=("scope",) if nw else (), good=False)
    O.few_words_first(sc, O.param("body", "scope"), nw)
    r = C.run(sc, O.call_token(sc, oidc))
    C.oblige("client", len(r.paths))
    n = 0
    words = [W("body", i) for i in range(nw)] if nw else None
    for p in r.paths:
        C.I.ctx = p.ctx
        for e in O.calls(p, "create_access_token"):
            n += 1
            if nw:
                xs = inside(C, p, e["args"][2], "client", "a client-credentials token", words, sc.auth.cid)
            else:
                xs = inside(C, p, e["args"][2], "client", "a client-credentials token", None, None, sc.world.default_scopes, False)
            R = O.Resp(C.I, p.value) if p.kind == "return" else None
            if R is not None and R.ok and R.status == 200 and xs is not None:
                stated(C, p, R, xs, words, "client credentials")
    C.guard(n or r.unknown, f"no partition of {sc.name} issues a token")


def refresh(C, nw, oidc, how):
    sc = O.token(f"refresh_token {how}, {nw} scopes", "refresh_token", how, also=("scope",) if nw else (), good=False)
    a = sc.auth
    sc.eq(O.REFRESH_CLIENT, a.cid), sc.bound(O.REFRESH_EXP, O.NOW, {1})
    sc.world.exists.update(refresh=True, user=True)
    O.few_words_first(sc, O.param("body", "scope"), nw)
    r = C.run(sc, O.call_token(sc, oidc))
    C.oblige("refresh", len(r.paths))
    n = 0
    words = [W("body", i) for i in range(nw)] if nw else None
    for p in r.paths:
        C.I.ctx = p.ctx
        for e in O.calls(p, "create_access_token", "create_refresh_token"):
            n += 1
            what = "a refreshed " + e["name"].split("_", 1)[1].replace("_", " ")
            xs = inside(C, p, e["args"][2], "refresh", what, words, a.cid, O.REFRESH_SCOPE, bool(nw))
            R = O.Resp(C.I, p.value) if p.kind == "return" else None
            if R is not None and R.ok and R.status == 200 and xs is not None and e["name"] == "create_access_token":
                stated(C, p, R, xs, words or O.REFRESH_SCOPE, "refresh")
    C.guard(n or r.unknown, f"no partition of {sc.name} issues a token")


def exchange(C, how):
    for had in (O.CODE_SCOPE[:1], O.CODE_SCOPE, O.MANY_SCOPES):
        w = O.Auth(how).world(code={"scopes": had})
        sc = O.token(f"code exchange {how}, {len(had)} scopes", "authorization_code", how, w)
        r = C.run(sc, O.call_token(sc))
        C.oblige("stated", len(r.paths))
        for p in r.returns():
            C.I.ctx = p.ctx
            R = O.Resp(C.I, p.value)
            for e in O.calls(p, "create_access_token"):
                xs = inside(C, p, e["args"][2], "stated", "an exchanged token", None, None, had, False)
                if R.ok and R.status == 200 and xs is not None:
                    stated(C, p, R, xs, had, "code exchange")
