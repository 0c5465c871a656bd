"""ID tokens say what was granted, to whom, and are signed with the provider's key."""
from psa import jose as J, oauth as O
from psa.values import *
from psa.values import T_BYTES
from props.c04 import shape

KEYS = [("RSA", "RS256"), ("RSA", "RS384"), ("RSA", "RS512"), ("RSA", "PS256"), ("RSA", "PS384"), ("RSA", "PS512"),
        ("P-256", "ES256"), ("P-384", "ES384"), ("P-521", "ES512"), ("oct", "HS256"), ("oct", "HS384"), ("oct", "HS512")]


def segment(I, x):
    """The JSON value of a segment of a token."""
    if isinstance(x, Term) and x.op == "dec":
        x = x.args[0]
    if isinstance(x, Term) and x.op == "b64" and x.args[0] == "url":
        x = x.args[2]
        if isinstance(x, Term) and x.op == "enc":
            x = x.args[0]
        if isinstance(x, Term) and x.op == "json":
            d = O.M.thaw(I, x.args[0])
            if isinstance(d, ADict):
                return {e.key: I.ctx.n(e.val) for e in d.entries.values()}
        if isinstance(x, bytes):
            import json
            try:
                return json.loads(x)
            except ValueError:
                return None
    return None


def half_hash(I, v, alg):
    """Is `v` the left half of the hash of the access token?"""
    v = I.ctx.n(v)
    if isinstance(v, Term) and v.op == "dec":
        v = v.args[0]
    if not (isinstance(v, Term) and v.op == "b64" and v.args[0] == "url" and v.args[1] is False):
        return False
    s = v.args[2]
    n = int(alg[2:]) // 16
    if not (isinstance(s, Term) and s.op == "slice" and s.args[1] in (0, None) and s.args[2] == n):
        return False
    h = s.args[0]
    return (isinstance(h, Term) and h.op == "hash" and str(h.args[0]).lower() == "sha" + alg[2:]
            and h.args[1] is Term("enc", (O.ACCESS,), T_BYTES))


def check(C):
    O.setup(C)
    C.rule("issued", "a code exchange answers with an ID token if and only if the scope openid was granted and OpenID Connect is "
                     "installed; no other grant does")
    C.rule("claims", "the ID token names the issuer, the client, the time of issue and expiry, the nonce of the authorization "
                     "request, the hash of the access token and the subject")
    C.rule("signed", "the ID token is signed with the application's key and algorithm and says so in its header")
    keys = KEYS if C.thorough else KEYS
    for kind, alg in keys:
        for how in O.AUTHS if alg == "RS256" else ("basic",):
            for scopes in (["openid"], [O.CODE_SCOPE[0], "openid"], ["openid", O.CODE_SCOPE[0]],
                           *([[O.CODE_SCOPE[0], "openid", O.CODE_SCOPE[1]]] + O.amid("openid", O.MANY_SCOPES) if alg == "RS256" else ())):
                for nonce in (None, O.txt("the-nonce")):
                    w = O.Auth(how).world(key=(kind, alg), code={"scopes": scopes, "nonce": nonce})
                    sc = O.token(f"{how}: {alg}, scopes {[show(s) for s in scopes] if len(scopes) < 9 else str(len(scopes)) + ' with openid the ' + str(scopes.index('openid') + 1) + '.'}, {'nonce' if nonce is not None else 'no nonce'}",
                                 "authorization_code", how, w)
                    r = C.run(sc, O.call_token(sc, True))
                    C.oblige("issued", len(r.paths))
                    n = 0
                    for p in r.paths:
                        C.I.ctx = p.ctx
                        R = O.Resp(C.I, p.value) if p.kind == "return" else None
                        if R is None or not R.ok or R.status != 200:
                            C.bad("issued", f"a valid exchange with openid is refused ({alg})", p)
                            continue
                        m = R.members()
                        if m is None:
                            C.gap(f"{sc.name}: the response is not understood")
                            continue
                        if m.get("id_token") is None:
                            C.bad("issued", "no ID token although openid was granted", p)
                            continue
                        n += 1
                        contents(C, p, m["id_token"], sc, kind, alg, nonce)
                    C.guard(n or r.unknown, f"no ID token for {sc.name}")
    for t in (0, 1, 59, 3600, 86400, 2 ** 31, 10 ** 12):
        w = O.Auth("basic").world(code={"scopes": ["openid"], "nonce": None}, id_lifespan=t)
        sc = O.token(f"an ID token that lives {t} seconds", "authorization_code", "basic", w)
        r = C.run(sc, O.call_token(sc, True))
        C.oblige("claims", len(r.paths))
        for p in r.returns():
            C.I.ctx = p.ctx
            R = O.Resp(C.I, p.value)
            m = R.members() if R.ok and R.status == 200 else None
            if m and m.get("id_token") is not None:
                contents(C, p, m["id_token"], sc, *w.key, None)
    # not granted, or not installed
    odd = O.word("scope-containing-openid")
    for scopes, oidc in (([O.CODE_SCOPE[0]], True), (O.CODE_SCOPE, True), (["openidx"], True), (["my-openid", "openid2"], True),
                         (["openid"], False), ([], True), (["OpenID"], True), (O.MANY_SCOPES, True),
                         (["openid"] + O.MANY_SCOPES, False)):
        w = O.Auth("basic").world(code={"scopes": scopes})
        sc = O.token(f"scopes {[show(s) for s in scopes]}, {'with' if oidc else 'without'} OpenID Connect", "authorization_code", "basic", w)
        for s in scopes:
            if isinstance(s, Term):
                sc.eq(s, "openid", False)
        none(C, sc, oidc, "although openid was not granted" if oidc else "although OpenID Connect is not installed")
    for g in ("refresh_token", "client_credentials"):
        w = O.Auth("basic").world(refresh={"scopes": ["openid"]})
        sc = O.token(f"{g} with openid", g, "basic", w, also=("scope",), good=False)
        sc.eq(O.REFRESH_CLIENT, sc.auth.cid), sc.bound(O.REFRESH_EXP, O.NOW, {1})
        w.exists.update(refresh=True, user=True)
        w.allowed = lambda s: True
        O.few_words(sc, O.param("body", "scope"), 1)
        sc.eq(Term("word", (O.param("body", "scope"), 0), O.T_STR), "openid")
        none(C, sc, True, f"with the grant {g}")


def none(C, sc, oidc, what):
    r = C.run(sc, O.call_token(sc, oidc))
    C.oblige("issued", len(r.paths))
    n = 0
    for p in r.paths:
        C.I.ctx = p.ctx
        R = O.Resp(C.I, p.value) if p.kind == "return" else None
        if R is None or not R.ok or R.status != 200:
            continue
        n += 1
        if R.members() is not None and "id_token" in R.members():
            C.bad("issued", f"an ID token is issued {what}", p)
    C.guard(n or r.unknown, f"no success of {sc.name}")


def contents(C, p, t, sc, kind, alg, nonce):
    I = C.I
    C.oblige("claims"), C.oblige("signed")
    ps = O.M.parts(I, t)
    if len(ps) != 5 or ps[1] != "." or ps[3] != ".":
        C.gap(f"the ID token is not understood: {show(t)[:80]}")
        return
    h, c = segment(I, ps[0]), segment(I, ps[2])
    if h is None or c is None:
        C.gap(f"the ID token is not understood: {show(t)[:80]}")
        return
    want = {"iss": O.ISSUER, "aud": sc.auth.cid, "iat": O.NOW, "sub": O.SUB}
    if nonce is not None:
        want["nonce"] = nonce
    elif c.get("nonce") is not None:
        C.bad("claims", "the ID token has a nonce although the request had none", p)
    for k, v in want.items():
        got = c.get(k)
        if k == "aud" and isinstance(got, AList) and len(got.items) == 1:
            got = I.ctx.n(got.items[0])
        if k not in c:
            C.bad("claims", f"the ID token lacks the claim {k}", p)
        elif k == "iat":
            d = I.ctx.lin_of(got)
            if d is None or I.ctx.lin_sub(d, I.ctx.lin_of(O.NOW)) != ((), 0):
                C.bad("claims", f"the claim iat is not the time of issue: {show(got)[:60]}", p)
        elif not O.same(I, got, v):
            C.bad("claims", f"the claim {k} of the ID token is {show(got)[:60]}", p)
    e = I.ctx.lin_of(c.get("exp")) if "exp" in c else None
    if e is None or I.ctx.lin_sub(I.ctx.lin_sub(e, I.ctx.lin_of(O.NOW)), I.ctx.lin_of(sc.world.id_lifespan)) != ((), 0):
        C.bad("claims", f"the ID token does not expire at the configured time: {show(c.get('exp'))[:60]}", p)
    if not half_hash(I, c.get("at_hash"), alg):
        C.bad("claims", f"the claim at_hash is not the half hash of the access token ({alg})", p)
    if h.get("alg") != alg:
        C.bad("signed", f"the header of the ID token names {show(h.get('alg'))[:30]} instead of {alg}", p)
    if not O.same(I, h.get("kid"), "key-1"):
        C.bad("signed", "the header of the ID token names another key", p)
    why = shape(I, t, alg, kind, "jwt")
    if why:
        C.bad("signed", f"{alg}: {why[:120]}", p)
