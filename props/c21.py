"""Every request to an endpoint is answered; none makes it raise."""
from psa import jose as J, oauth as O
from psa.values import *
from psa.values import T_STR

HEADERS = ("Content-Type", "content-type", "Content-Length", "Content-Encoding", "Accept", "Accept-Charset", "Cookie", "Host", "DPoP",
           "Origin", "X-Forwarded-Proto", "X-Forwarded-For")


def undecodable(sc):
    """The body may be no UTF-8."""
    sc.facts.pop(("utf8", ckey(O.BODY)), None)
    return sc


def check(C):
    O.setup(C)
    C.rule("total", "every partition of every endpoint ends in a response (the consent query: in the data to show or a response), "
                    "for all parameters present, absent, repeated in query and body, all headers and all bodies")
    done = {}

    def judge(ep, sc, entry, **kw):
        r = C.run(sc, entry, **kw)
        C.guard(r.paths or r.unknown, f"no partition of {sc.name}")
        C.oblige("total", len(r.paths))
        for p in r.paths:
            C.I.ctx = p.ctx
            if p.kind == "raise":
                C.bad("total", f"{ep} raises {p.exc_name()}" + (f" at {p.origin[-1].split(' in ')[-1]}" if p.origin else ""), p)
                continue
            R = O.Resp(C.I, p.value)
            v = C.I.ctx.n(p.value)
            if not R.ok and not (ep == "consent" and isinstance(v, ADict)):
                C.bad("total", f"{ep}: {R.why}", p)
            else:
                done[ep] = done.get(ep, 0) + 1

    AZ = O.AUTHZ + ("nonce",)
    for where in ("query", "body"):
        opn = "open_" + where
        m = "GET" if where == "query" else "POST"
        for ep in ("authorize", "consent"):
            for oidc in (False, True) if ep == "authorize" else (False,):
                for user in (O.SESSION_USER, None) if ep == "authorize" else (None,):
                    # any subset of parameters, one scope
                    sc = O.scenario(f"{ep} {where}: any parameters", **{opn: AZ})
                    sc.world.client["uris"] = O.URI[:1]
                    O.few_words(sc, O.param(where, "scope"), 1)
                    O.no_question_mark(sc)
                    if not C.thorough:
                        sc.eq(O.param(where, "redirect_uri"), O.URI[0])
                        sc.eq(O.param(where, "response_type"), "code")
                        sc.world.allowed = lambda s: True
                    judge(ep, sc, O.endpoint(ep, oidc, method=m, user=user))
                # all parameters, any values, several scopes
                for nw in (0, 1, 2):
                    sc = O.scenario(f"{ep} {where}: all parameters, {nw} scopes", **{where: AZ})
                    O.few_words(sc, O.param(where, "scope"), nw)
                    sc.world.client["response_types"] = ["code", O.OTHER_TYPE]
                    judge(ep, sc, O.endpoint(ep, oidc, method=m, user=O.SESSION_USER))
    for ep in ("authorize", "consent", "token", "revoke"):
        sc = O.scenario(f"{ep}: no parameters at all")
        for body in (None, b"", O.BODY):
            judge(ep, undecodable(sc), O.endpoint(ep, True, body=body, user=O.SESSION_USER))
        # the same parameter in the query and in the body
        names = ("client_id", "redirect_uri", "scope") if ep in ("authorize", "consent") else ("client_id", "grant_type", "token")
        sc = O.scenario(f"{ep}: parameters in both places", open_query=names, open_body=names)
        for w in ("query", "body"):
            O.few_words(sc, O.param(w, "scope"), 1)
        judge(ep, sc, O.endpoint(ep, True, method="POST", user=O.SESSION_USER))

        # any headers besides
        for h in HEADERS:
            sc = O.scenario(f"{ep}: any {h} header", body=names[:2])
            O.few_words(sc, O.param("body", "scope"), 1)
            judge(ep, sc, O.endpoint(ep, True, method="POST", user=O.SESSION_USER, headers={h: J.sym("header " + h, T_STR)}))

    TP = O.TOKEN_PARAMS
    for oidc in (False, True):
        for ep in ("token", "revoke"):
            sc = undecodable(O.scenario(f"{ep}: any parameters", open_body=TP))
            sc.world.allowed = None if C.thorough else (lambda s: True)
            O.few_words(sc, O.param("body", "scope"), 1)
            judge(ep, sc, O.endpoint(ep, oidc))
            # any header
            for h in ("authorization", "Authorization", "AUTHORIZATION"):
                sc = O.scenario(f"{ep}: any {h} header", body=("grant_type", "token"))
                judge(ep, sc, O.endpoint(ep, oidc, headers={h: O.AUTH}))
            sc = O.scenario(f"{ep}: any parameters in the query", open_query=TP, open_body=("client_id", "client_secret"))
            sc.world.allowed = lambda s: True
            O.few_words(sc, O.param("query", "scope"), 1)
            judge(ep, sc, O.endpoint(ep, oidc))
        for g in O.GRANTS:
            for how in O.AUTHS:
                for nw in (0, 2):
                    if g == "authorization_code" and nw:
                        continue
                    sc = O.token(f"token {g} {how}: any values, {nw} scopes", g, how, also=("scope",) if nw else (), good=False)
                    sc.world.client["uris"] = O.URI[:1]
                    O.few_words(sc, O.param("body", "scope"), nw)
                    judge("token", sc, O.call_token(sc, oidc))
    # the hook that issues ID tokens, with every algorithm of the signing key
    for kind, alg in (("RSA", "RS256"), ("RSA", "PS512"), ("P-256", "ES256"), ("P-521", "ES512"), ("oct", "HS384")):
        w = O.Auth("basic").world(key=(kind, alg), code={"scopes": ["openid"]})
        sc = O.token(f"token with an ID token signed by {alg}", "authorization_code", "basic", w)
        judge("token", sc, O.call_token(sc, True))
    for ep in ("authorize", "consent", "token", "revoke"):
        C.guard(done.get(ep) or C.gaps, f"no response of {ep}")
