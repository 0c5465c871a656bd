"""An authorization code is only exchanged by the client, with the URI and the verifier it was issued for."""
from psa import oauth as O
from psa.values import *
from psa.values import T_INT, T_STR

P = lambda n: O.param("body", n)


def negative(scopes=O.CODE_SCOPE):
    """(what is wrong, scenario): token requests that must not be granted."""
    for how in O.AUTHS:
        def new(what, have=None, wrong=(), **kw):
            a = O.Auth(how)
            kw["code"] = {"scopes": scopes}
            sc = O.token(f"{how}: {what}{'' if scopes else ', no scopes'}", "authorization_code", how, a.world(**kw), have=have, good=False)
            w = sc.world
            sc.eq(O.URI[0], O.URI[1], False)
            facts = {
                "uri": lambda: (sc.eq(P("redirect_uri"), O.URI[0]), sc.eq(O.CODE_URI, O.URI[0])),
                "client": lambda: sc.eq(O.CODE_CLIENT, a.cid),
                "method": lambda: sc.eq(O.METHOD, "S256"),
                "expiry": lambda: sc.bound(O.CODE_EXP, O.NOW, {1}),
                "pkce": lambda: O.pkce(sc, True),
                "code": lambda: w.exists.setdefault("code", True),
                "user": lambda: w.exists.setdefault("user", True),
            }
            for k, f in facts.items():
                if k not in wrong:
                    f()
            return what, sc, a
        x = new("another client's code", wrong=("client",))
        x[1].eq(O.CODE_CLIENT, x[2].cid, False)
        yield x
        x = new("the other registered redirect_uri", wrong=("uri",))
        x[1].eq(O.CODE_URI, O.URI[0]), x[1].eq(P("redirect_uri"), O.URI[1])
        yield x
        x = new("an unregistered redirect_uri", wrong=("uri",))
        x[1].eq(O.CODE_URI, O.URI[0]), x[1].eq(P("redirect_uri"), O.URI[0], False), x[1].eq(P("redirect_uri"), O.URI[1], False)
        yield x
        x = new("a redirect_uri that is not registered any more", wrong=("uri",))
        x[1].eq(O.CODE_URI, P("redirect_uri")), x[1].eq(P("redirect_uri"), O.URI[0], False)
        x[1].eq(P("redirect_uri"), O.URI[1], False)
        yield x
        for k in ("code", "redirect_uri", "code_verifier"):
            yield new(f"no {k}", have=[n for n in O.TOKEN_OF["authorization_code"] if n != k],
                      wrong=("uri",) if k == "redirect_uri" else ("pkce",) if k == "code_verifier" else ())
        yield new("an unknown code", exists={"code": False})
        yield new("a code of an unknown user", exists={"user": False})
        for ord_, s in (("past", {-1}), ("now", {0})):
            x = new(f"an expired code ({ord_})", wrong=("expiry",))
            x[1].bound(O.CODE_EXP, O.NOW, s)
            yield x
        # PKCE: by S256 the hash decides, by plain the text decides
        for plain in (True, False):
            x = new(f"S256, another verifier ({'equal' if plain else 'unequal'} to the challenge)", wrong=("pkce",))
            O.pkce(x[1], False, plain)
            yield x
        for s in (True, False):
            x = new(f"plain, another verifier (its hash {'is' if s else 'is not'} the challenge)", wrong=("pkce", "method"))
            x[1].eq(O.METHOD, "plain")
            O.pkce(x[1], s, False)
            yield x
        for plain in (True, False):
            x = new(f"no known method ({'equal' if plain else 'hashed'} verifier)", wrong=("pkce", "method"))
            x[1].typ(O.METHOD, "str")
            x[1].eq(O.METHOD, "plain", False), x[1].eq(O.METHOD, "S256", False)
            O.pkce(x[1], not plain, plain)
            yield x
            x = new(f"no method ({'equal' if plain else 'hashed'} verifier)", wrong=("pkce", "method"))
            x[1].typ(O.METHOD, "none")
            O.pkce(x[1], not plain, plain)
            yield x
        x = new("S256, a verifier that is not ASCII", wrong=("pkce",))
        x[1].fact("ascii", P("code_verifier"), value=False)
        x[1].oracle(lambda ctx, kind, args: False if kind == "eq" and any(t is O.CHALLENGE for t in args) else None)
        yield x


GRANTING = ("create_access_token", "create_refresh_token")


def check(C):
    O.setup(C)
    C.rule("exchange", "no partition in which the code, its client, its redirect URI, its expiration, its user or the code "
                       "verifier is wrong creates a token or answers with success")
    C.rule("tokens", "a valid exchange creates the tokens for the authenticated client, the user and the scopes of the code")
    C.rule("challenge", "no code is issued without a code challenge of acceptable length and a known method")
    for what, sc, a in [*negative(), *negative([])]:
        for oidc in (False, True):
            r = C.run(sc, O.call_token(sc, oidc))
            C.guard(r.paths or r.unknown, f"no partition of {sc.name}")
            C.oblige("exchange", len(r.paths))
            for p in r.paths:
                C.I.ctx = p.ctx
                if O.calls(p, *GRANTING):
                    C.bad("exchange", f"a token is created for {what}", p)
                elif p.kind == "return":
                    R = O.Resp(C.I, p.value)
                    if R.ok and R.status == 200:
                        C.bad("exchange", f"the answer to {what} is a success", p)
    for how in O.AUTHS:
        for method, scopes in (("S256", O.CODE_SCOPE), ("plain", O.CODE_SCOPE), ("S256", []), ("S256", O.CODE_SCOPE[:1]),
                               ("S256", O.MANY_SCOPES)):
            for oidc in (False, True):
                w = O.Auth(how).world(code={"scopes": scopes})
                sc = O.token(f"{how}: valid exchange, {len(scopes)} scopes, {method}", "authorization_code", how, w)
                if method == "plain":
                    sc = O.token(f"{how}: valid exchange, plain", "authorization_code", how, w, good=False)
                    sc.eq(O.URI[0], O.URI[1], False), sc.eq(P("redirect_uri"), O.URI[0]), sc.eq(O.CODE_URI, O.URI[0])
                    sc.eq(O.CODE_CLIENT, sc.auth.cid), sc.eq(O.METHOD, "plain"), sc.bound(O.CODE_EXP, O.NOW, {1})
                    sc.world.exists.update(code=True, user=True)
                    O.pkce(sc, False, True)
                r = C.run(sc, O.call_token(sc, oidc))
                C.oblige("tokens", len(r.paths))
                ok = 0
                for p in r.paths:
                    C.I.ctx = p.ctx
                    ok += valid(C, sc, p)
                C.guard(ok or r.unknown, f"no partition of {sc.name} succeeds")
    challenges(C)


def valid(C, sc, p):
    I = C.I
    R = O.Resp(I, p.value) if p.kind == "return" else None
    if R is None or not R.ok or R.status != 200:
        if p.kind == "return" or not I.ctx.wild:
            C.bad("tokens", f"a valid exchange with the method {sc.name.split()[-1]} is refused", p)
        return 0
    got = O.calls(p, *GRANTING)
    for e in got:
        cl, us, scopes = e["args"]
        what = e["name"].replace("create_", "").replace("_", " ")
        if not O.is_obj(I, cl, "Client", sc.auth.cid):
            C.bad("tokens", f"the {what} is created for another client: {show(cl)[:60]}", p)
        if not O.is_obj(I, us, "User", O.CODE_USER):
            C.bad("tokens", f"the {what} is created for another user: {show(us)[:60]}", p)
        if O.listed(I, scopes) is None or not O.same_set(I, O.listed(I, scopes), sc.world.code["scopes"]):
            C.bad("tokens", f"the {what} is created for other scopes: {show(scopes)[:60]}", p)
    if not O.calls(p, "create_access_token"):
        C.bad("tokens", "a successful exchange creates no access token", p)
    return 1


def challenges(C):
    for where in ("query", "body"):
        Q = lambda n: O.param(where, n)
        for what in ("no code_challenge", "short code_challenge", "long code_challenge", "no code_challenge_method",
                     "unknown code_challenge_method"):
            for oidc in (False, True):
                miss = what.split()[1] if what.startswith("no ") else None
                have = [n for n in O.AUTHZ if n != miss]
                sc = O.authz(f"{where}: {what}", good=False, have=have, where=where)
                sc.eq(Q("redirect_uri"), O.URI[0]), sc.eq(Q("response_type"), "code")
                O.few_words(sc, Q("scope"), 1)
                sc.world.allowed = lambda s: True
                sc.world.exists["client"] = True
                ln = Term("len", (Q("code_challenge"),), T_INT)
                if what == "short code_challenge":
                    sc.bound(ln, 43, {-1})
                elif what == "long code_challenge":
                    sc.bound(ln, 128, {1})
                elif miss != "code_challenge":
                    sc.bound(ln, 43, {0, 1}), sc.bound(ln, 128, {0, -1})
                if what == "unknown code_challenge_method":
                    sc.eq(Q("code_challenge_method"), "S256", False), sc.eq(Q("code_challenge_method"), "plain", False)
                r = C.run(sc, O.endpoint("authorize", oidc, method="GET" if where == "query" else "POST", user=O.SESSION_USER))
                C.oblige("challenge", len(r.paths))
                C.guard(r.paths or r.unknown, f"no partition of {sc.name}")
                for p in r.paths:
                    C.I.ctx = p.ctx
                    if O.calls(p, "save_authorization_code"):
                        C.bad("challenge", f"a code is issued with {what}", p)
