"""A client uses only the grant and response types it is registered for."""
from psa import oauth as O
from psa.values import *
from props.c17 import EFFECTS

OTHER = O.txt("client.other-type")
P = lambda n: O.param("body", n)


def few(have):
    return have if len(have) < 9 else f"{len(have)} types, {[i for i, x in enumerate(have) if x not in O.MANY_TYPES]} of them known"


def registered(g, may):
    """Registrations for a grant, with or without the refresh grant, among others."""
    also = ["refresh_token"] if may and g != "refresh_token" else []
    yield [g] + also
    yield from O.amid(g, O.MANY_TYPES + also)
    if also:
        yield [*also, *O.MANY_TYPES, g]


def check(C):
    O.setup(C)
    C.rule("grant", "no partition in which the grant type is missing, unknown to the provider or not registered for the client "
                    "creates or deletes anything or answers with success")
    C.rule("response-type", "no code is issued if the response type is unknown or not registered for the client")
    C.rule("refresh", "a refresh token is issued with a code or refresh exchange if and only if the client is registered for "
                      "the refresh grant, and never with client credentials")

    def refused(rule, what, sc, entry, error=None):
        r = C.run(sc, entry)
        C.guard(r.paths or r.unknown, f"no partition of {sc.name}")
        C.oblige(rule, len(r.paths))
        for p in r.paths:
            C.I.ctx = p.ctx
            eff = O.calls(p, *EFFECTS)
            if eff:
                C.bad(rule, f"{eff[0]['name']} is called for {what}", p)
            elif p.kind == "return":
                R = O.Resp(C.I, p.value)
                if R.ok and R.status == 200:
                    C.bad(rule, f"{what} is answered with success", p)
                elif R.ok and error and R.members() is not None and R.members().get("error") != error:
                    C.bad(rule, f"{what} is answered with {show(R.members().get('error'))[:40]} instead of {error}", p)

    for oidc in (False, True):
        for how in O.AUTHS:
            for g in O.GRANTS:
                if how == "none" and g == "client_credentials":
                    continue
                others = [x for x in O.GRANTS if x != g]
                for have in ([], others, others[:1], others[1:], [OTHER], others + [OTHER]):
                    w = O.Auth(how).world(client={"grant_types": have})
                    sc = O.token(f"{how}: {g}, client registered for {have}", g, how, w)
                    sc.eq(OTHER, g, False)
                    refused("grant", f"the grant {g} of a client not registered for it", sc, O.call_token(sc, oidc),
                            "unauthorized_client")
                sc = O.token(f"{how}: {g}, provider with {others}", g, how)
                refused("grant", f"the grant {g} that the provider does not offer", sc, O.call_token(sc, oidc, grants=others),
                        "unsupported_grant_type")
                sc = O.token(f"{how}: without grant_type", g, how, have=[n for n in O.TOKEN_OF[g] if n != "grant_type"])
                refused("grant", "no grant type", sc, O.call_token(sc, oidc), "invalid_request")
            sc = O.token(f"{how}: unknown grant_type", "authorization_code", how, also=("refresh_token",))
            sc.eqs = [e for e in sc.eqs if e[0] is not P("grant_type")]
            for g in O.GRANTS:
                sc.eq(P("grant_type"), g, False)
            refused("grant", "an unknown grant type", sc, O.call_token(sc, oidc), "unsupported_grant_type")

        for where in ("query", "body"):
            for what, types, eq in (("not registered for the client", [], True), ("unknown", ["code"], False),
                                    ("unknown but registered for the client", ["code", O.param(where, "response_type")], False),
                                    ("not registered for the client", ["token"], True),
                                    ("not registered for the client", [OTHER], True)):
                sc = O.authz(f"{where}: response_type {what} ({types})", O.World(client={"response_types": types}), where=where)
                sc.eq(OTHER, "code", False)
                if not eq:
                    sc.eqs = [e for e in sc.eqs if e[0] is not O.param(where, "response_type")]
                    sc.eq(O.param(where, "response_type"), "code", False)
                refused("response-type", f"a response type {what}", sc, O.endpoint(
                    "authorize", oidc, method="GET" if where == "query" else "POST", user=O.SESSION_USER))
            sc = O.authz(f"{where}: provider without the code grant", where=where)
            refused("response-type", "a response type the provider does not offer", sc, O.endpoint(
                "authorize", False, method="GET" if where == "query" else "POST", user=O.SESSION_USER,
                grants=("refresh_token", "client_credentials")))

        for how in O.AUTHS:
            for g, may in [(g, may) for g in O.GRANTS for may in (True, False)]:
                if g == "client_credentials" and how == "none" or g == "refresh_token" and not may:
                    continue
                for have in registered(g, may):
                    w = O.Auth(how).world(client={"grant_types": have})
                    sc = O.token(f"{how}: {g}, client registered for {few(have)}", g, how, w)
                    r = C.run(sc, O.call_token(sc, oidc))
                    C.oblige("refresh", len(r.paths))
                    n = 0
                    for p in r.paths:
                        C.I.ctx = p.ctx
                        R = O.Resp(C.I, p.value) if p.kind == "return" else None
                        if R is None or not R.ok or R.status != 200:
                            continue
                        n += 1
                        made = O.calls(p, "create_refresh_token")
                        m = R.members()
                        if m is None:
                            C.gap(f"{sc.name}: the response is not understood")
                            continue
                        want = may and g != "client_credentials"
                        if not want and (made or "refresh_token" in m):
                            C.bad("refresh", f"a refresh token is issued with {g}" + ("" if g == "client_credentials" else
                                  " to a client that may not refresh"), p)
                        if want and (len(made) != 1 or "refresh_token" not in m or not O.same(C.I, m["refresh_token"], O.REFRESH)):
                            C.bad("refresh", f"no refresh token is issued with {g} to a client that may refresh", p)
                    if r.paths and not n and not r.unknown:
                        C.bad("refresh", f"the grant {g} is refused to a client that is registered for it", r.paths[0])
        for where in ("query", "body"):
            for types in O.amid("code"):
                sc = O.authz(f"{where}: client registered for {few(types)}", O.World(client={"response_types": types}), where=where)
                r = C.run(sc, O.endpoint("authorize", oidc, method="GET" if where == "query" else "POST", user=O.SESSION_USER))
                C.oblige("response-type", len(r.paths))
                if r.paths and not r.unknown and not any(O.calls(p, "save_authorization_code") for p in r.paths):
                    C.bad("response-type", "the response type code is refused to a client that is registered for it", r.paths[0])
