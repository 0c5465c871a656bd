"""Secrets do not leave through responses."""
from psa import jose as J, oauth as O
from psa.values import *
from props.c09 import secrets_in
from props.c15 import negative as wrong_codes
from props.c17 import bad_credentials, targets
from props.c20 import negative as wrong_refresh

B = lambda n: O.param("body", n)
SECRETS = {O.SECRET: "the secret of the client", O.BASIC_SECRET: "the secret sent by the client",
           B("client_secret"): "the secret sent by the client", B("code_verifier"): "the code verifier",
           O.CHALLENGE: "the code challenge of the code", B("refresh_token"): "the refresh token that was sent",
           B("code"): "the authorization code that was sent", J.SECRET: "the key of the provider"}
TOKENS = {O.ACCESS: "an access token", O.REFRESH: "a refresh token"}


def check(C):
    O.setup(C)
    C.rule("secrets", "no client secret, verifier, presented code or refresh token and no private key occurs in a response, "
                      "other than behind a one-way function")
    C.rule("tokens", "tokens occur in the body of a success of the token endpoint only")
    n = [0]

    def run(ep, sc, entry):
        r = C.run(sc, entry)
        C.oblige("secrets", len(r.paths))
        for p in r.returns():
            C.I.ctx = p.ctx
            R = O.Resp(C.I, p.value)
            if not R.ok:
                continue
            n[0] += 1
            out = [R.body] + [x for kv in R.headers.values() for x in kv]
            for t in O.mentions(C.I, out, set(SECRETS)):
                C.bad("secrets", f"a response of the {ep} endpoint discloses {SECRETS[t]}", p)
            if secrets_in(C.I, tuple(out)):
                C.bad("secrets", f"a response of the {ep} endpoint discloses a private key", p)
            C.oblige("tokens")
            hdr = O.mentions(C.I, [x for kv in R.headers.values() for x in kv], set(TOKENS))
            got = hdr if ep == "token" and R.status == 200 else hdr | O.mentions(C.I, [R.body], set(TOKENS))
            for t in got:
                C.bad("tokens", f"{TOKENS[t]} leaves the {ep} endpoint other than in the body of a success", p)

    for oidc in (False, True):
        for how in O.AUTHS:
            for g in O.GRANTS:
                for also in ((), ("scope",)):
                    sc = O.token(f"{how}: {g} {also}", g, how, also=also)
                    run("token", sc, O.call_token(sc, oidc))
            for what, sc, a in wrong_refresh(how):
                run("token", sc, O.call_token(sc, oidc))
            for kind, alg in (("RSA", "RS256"), ("P-256", "ES256"), ("oct", "HS256")):
                w = O.Auth(how).world(code={"scopes": ["openid"]}, key=(kind, alg))
                sc = O.token(f"{how}: with openid, {alg}", "authorization_code", how, w)
                run("token", sc, O.call_token(sc, oidc))
                for m in ("create_refresh_token", "get_userinfo"):
                    w = O.Auth(how).world(code={"scopes": ["openid"]}, key=(kind, alg), fault=(m, "RuntimeError"))
                    sc = O.token(f"{how}: {m} fails", "authorization_code", how, w)
                    run("token", sc, O.call_token(sc, oidc))
            for have in ((), ("token",), ("token", "token_type_hint")):
                sc = O.revoke(f"{how}: {have}", how, have=have)
                run("revocation", sc, O.call_revoke(sc, oidc))
        for what, sc, a in wrong_codes():
            run("token", sc, O.call_token(sc, oidc))
    for what, how, client, exists, facts in bad_credentials():
        for place, sc, call in targets(how, lambda: O.Auth(how).world(client=client, exists={"client": exists}), False, what):
            facts(sc)
            run("revocation" if "revocation" in place else "token", sc, call(sc))
    for where in ("query", "body"):
        m = "GET" if where == "query" else "POST"
        for miss in (None,) + O.AUTHZ:
            sc = O.authz(f"authorize {where}: without {miss}", good=False, have=[x for x in O.AUTHZ if x != miss], where=where)
            O.few_words(sc, O.param(where, "scope"), 1)
            O.no_question_mark(sc)
            sc.world.exists["client"] = True
            run("authorization", sc, O.endpoint("authorize", True, method=m, user=O.SESSION_USER))
    C.guard(n[0] or C.gaps, "no response was analysed")
