"""Answers of the token and revocation endpoints have the form clients and caches rely on."""
import json

from psa import oauth as O
from psa.values import *
from props.c15 import negative as wrong_codes
from props.c20 import negative as wrong_refresh
from props.c17 import bad_credentials, targets

ERRORS = {"invalid_request", "invalid_client", "invalid_grant", "unauthorized_client", "unsupported_grant_type",
          "unsupported_token_type", "invalid_scope", "server_error", "temporarily_unavailable"}
TOKENS = ("access_token", "refresh_token", "id_token")
KNOWN = {"access_token", "token_type", "expires_in", "refresh_token", "scope", "id_token"}
LIFESPANS = (0, 1, 59, 3600, 86400, 2 ** 31, 10 ** 12)


def is_json(b):
    try:
        json.loads(b)
        return True
    except ValueError:
        return False


def text(v):
    return v.lower().replace(" ", "").split(",") if isinstance(v, str) else None


def check(C):
    O.setup(C)
    C.rule("cache", "every answer of the token endpoint forbids caching")
    C.rule("json", "every answer is a JSON object of media type application/json")
    C.rule("success", "a success has status 200 and carries the tokens that were created, the token type Bearer and the "
                      "configured lifetime")
    C.rule("error", "an error has a registered error code and status 400 or 401 and carries no token")
    C.rule("challenge", "a failed HTTP Basic authentication is answered with a WWW-Authenticate header")
    C.rule("revocation", "a revocation is answered 200, 401 if the client is not authenticated, else 400")
    seen = set()

    def run(ep, sc, entry, basic_failed=False):
        r = C.run(sc, entry)
        C.guard(r.paths or r.unknown, f"no partition of {sc.name}")
        for p in r.returns():
            C.I.ctx = p.ctx
            judge(C, ep, p, sc, seen, basic_failed)

    for oidc in (False, True):
        for how in O.AUTHS:
            for g in O.GRANTS:
                for also in ((), ("scope",)):
                    if g == "authorization_code" and also:
                        continue
                    sc = O.token(f"{how}: {g} {also}", g, how, also=also)
                    run("token", sc, O.call_token(sc, oidc))
            for what, sc, a in wrong_refresh(how):
                run("token", sc, O.call_token(sc, oidc))
        for what, sc, a in wrong_codes():
            run("token", sc, O.call_token(sc, oidc))
    sc = O.scenario("token: any parameters", open_body=O.TOKEN_PARAMS)
    sc.world.allowed = lambda s: True
    O.few_words(sc, O.param("body", "scope"), 1)
    run("token", sc, O.endpoint("token", False))
    for how in O.AUTHS:
        for g in O.GRANTS:
            for t in LIFESPANS:
                sc = O.token(f"{how}: {g}, tokens that live {t} seconds", g, how, O.Auth(how).world(lifespan=t))
                run("token", sc, O.call_token(sc))
    sc = O.scenario("token: no parameters")
    run("token", sc, O.endpoint("token", False))
    for what, how, client, exists, facts in bad_credentials():
        world = lambda: O.Auth(how).world(client=client, exists={"client": exists})
        for place, sc, call in targets(how, world, False, what):
            facts(sc)
            run("revoke" if "revocation" in place else "token", sc, call(sc), how == "basic")
    for how in O.AUTHS + ("nothing",):
        for have in ((), ("token",), ("token", "token_type_hint"), ("token_type_hint",)):
            sc = O.revoke(f"revocation {how}: {have}", how, have=have)
            run("revoke", sc, O.call_revoke(sc))
    C.guard({"token 200", "token error", "revoke 200", "revoke 401", "revoke 400"} <= seen or C.gaps, f"not all answers were "
            f"met: {sorted(seen)}")


def judge(C, ep, p, sc, seen, basic_failed):
    I = C.I
    R = O.Resp(I, p.value)
    if not R.ok:
        return
    if ep == "token":
        C.oblige("cache")
        cc, pr = R.header("cache-control"), R.header("pragma")
        if isinstance(cc, Term) or isinstance(pr, Term):
            C.gap("the cache headers are not understood")
        elif "no-store" not in (text(cc) or ()) or "no-cache" not in (text(pr) or ()):
            C.bad("cache", f"an answer of the token endpoint with status {show(R.status)} may be cached", p)
    C.oblige("json")
    ct = R.header("content-type")
    if isinstance(ct, str) and ct.split(";")[0].strip().lower() != "application/json" or ct is None:
        C.bad("json", f"{ep}: the media type of an answer is {show(ct)}", p)
    m = R.members()
    body = R.json()
    if m is None and isinstance(body, Term):
        C.gap(f"{ep}: the body is not understood: {show(body)[:60]}")
        return
    if isinstance(R.body, (bytes, str)) and not is_json(R.body):
        C.bad("json", f"{ep}: the body of an answer is not JSON: {show(R.body)[:40]}", p)
    created = O.calls(p, "create_access_token")
    if ep == "token" and R.status == 200:
        C.oblige("success")
        seen.add("token 200")
        if m is None or not created:
            C.bad("success", "the token endpoint answers 200 without a token", p)
            return
        if not O.same(I, m.get("access_token"), O.ACCESS):
            C.bad("success", f"the access token of the response is not the one created: {show(m.get('access_token'))[:50]}", p)
        if O.calls(p, "create_refresh_token") and not O.same(I, m.get("refresh_token"), O.REFRESH):
            C.bad("success", f"the refresh token of the response is not the one created: {show(m.get('refresh_token'))[:50]}", p)
        if not isinstance(m.get("token_type"), str) or m["token_type"].lower() != "bearer":
            C.bad("success", f"the token type is {show(m.get('token_type'))[:40]}", p)
        if not O.same(I, m.get("expires_in"), sc.world.lifespan):
            C.bad("success", f"expires_in is not the configured lifetime: {show(m.get('expires_in'))[:50]}", p)
        odd = [k for k in m if not isinstance(k, str) or k not in KNOWN]
        if odd or "error" in m:
            C.bad("success", f"a success carries other members: {[show(k)[:30] for k in odd]}", p)
        nul = [k for k in m if m[k] is None]
        if nul:
            C.bad("success", f"a success carries empty members: {nul}", p)
        return
    if ep == "revoke" and R.status == 200:
        seen.add("revoke 200")
        C.oblige("revocation")
        if m is not None and "error" in m:
            C.bad("revocation", "a failed revocation is answered with status 200", p)
        return
    C.oblige("error")
    seen.add("token error" if ep == "token" else f"revoke {R.status}")
    err = (m or {}).get("error")
    if not isinstance(err, str) or err not in ERRORS:
        if isinstance(err, Term) and p.ctx.wild:
            C.gap("the error code is not understood")
        else:
            C.bad("error", f"{ep}: an answer with status {show(R.status)} has the error code {show(err)[:40]}", p)
        return
    if ep == "token":
        if R.status not in (400, 401):
            C.bad("error", f"the token endpoint answers {err} with status {show(R.status)}", p)
    else:
        C.oblige("revocation")
        if R.status != (401 if err == "invalid_client" else 400):
            C.bad("revocation", f"the revocation endpoint answers {err} with status {show(R.status)}", p)
    if any(k in m for k in TOKENS):
        C.bad("error", f"{ep}: the error {err} carries a token", p)
    nul = [k for k in m if m[k] is None]
    if nul:
        C.bad("error", f"{ep}: an error carries empty members: {nul}", p)
    if basic_failed and err == "invalid_client":
        C.oblige("challenge")
        w = R.header("www-authenticate")
        if w is None or isinstance(w, str) and not w.lower().startswith("basic"):
            C.bad("challenge", f"{ep}: failed Basic authentication is answered without a challenge", p)
