"""Tokens are issued and revoked only for clients that authenticated as registered."""
from psa import jose as J, oauth as O
from psa.values import *

EFFECTS = ("create_access_token", "create_refresh_token", "revoke_token", "delete_authorization_code",
           "save_authorization_code")
P = lambda n: O.param("body", n)
WRITTEN = {"basic": "client_secret_basic", "post": "client_secret_post", "none": "none"}


def targets(how, world, auth_ok, name):
    """The same credentials at every place that asks for them."""
    for g in O.GRANTS:
        sc = O.token(f"token {g}, {how}: {name}", g, how, world(), auth_ok=auth_ok)
        yield f"token request ({g})", sc, O.call_token
    sc = O.revoke(f"revocation, {how}: {name}", how, world(), auth_ok=auth_ok)
    yield "revocation request", sc, O.call_revoke


def bad_credentials():
    """(what, how, client, exists, facts): requests that do not prove the identity of a client."""
    for how in ("basic", "post", "none"):
        yield f"an unknown client ({how})", how, {}, False, lambda sc: None
    for how in ("basic", "post"):
        def wrong(sc):
            sc.eq(sc.auth.secret, O.SECRET, False)
        yield f"a wrong secret ({how})", how, {}, True, wrong
        yield f"a secret for a client that has none ({how})", how, {"secret": None}, True, lambda sc: None
    for how in ("basic", "post", "none"):
        for other in ("client_secret_basic", "client_secret_post", "none", "private_key_jwt"):
            if other != WRITTEN[how]:
                yield (f"the method {WRITTEN[how]} of a client registered for {other}", how, {"auth_method": other}, True,
                       lambda sc: sc.auth.right(sc))
    yield "no secret for a client that has one (none)", "none", {"secret": O.SECRET}, True, lambda sc: None
    yield ("no secret for a client that has one, registered for client_secret_post", "none",
           {"secret": O.SECRET, "auth_method": "client_secret_post"}, True, lambda sc: None)


def check(C):
    O.setup(C)
    C.rule("authenticate", "no partition in which the request does not prove the identity of a registered client by the method "
                           "the client is registered for creates, revokes or deletes anything; it answers invalid_client")
    C.rule("method", "a grant that excludes an authentication method is not available with it")
    C.rule("identity", "what is created or revoked is bound to the client whose credentials were verified, also if the "
                       "request carries two sets of credentials")
    C.rule("good", "a client that authenticates as registered is not refused as invalid")

    def refused(rule, what, place, sc, entry):
        r = C.run(sc, entry)
        C.guard(r.paths or r.unknown, f"no partition of {sc.name}")
        C.oblige(rule, len(r.paths))
        for p in r.paths:
            C.I.ctx = p.ctx
            eff = O.calls(p, *EFFECTS)
            if eff:
                C.bad(rule, f"{place} with {what}: {eff[0]['name']} is called", p)
            elif p.kind == "return":
                R = O.Resp(C.I, p.value)
                if not R.ok or R.status == 200:
                    C.bad(rule, f"{place} with {what} is answered with success", p)
                elif (R.members() or {}).get("error", "invalid_client") != "invalid_client":
                    C.bad(rule, f"{place} with {what} is answered with {show(R.members()['error'])[:40]}", p)

    for oidc in (False, True) if C.thorough else (False,):
        for what, how, client, exists, facts in bad_credentials():
            world = lambda: O.Auth(how).world(client=client, exists={"client": exists})
            for place, sc, call in targets(how, world, False, what):
                facts(sc)
                refused("authenticate", what, place, sc, call(sc, oidc))
        for place, sc, call in targets("nothing", lambda: O.Auth("nothing").world(), False, "no credentials"):
            refused("authenticate", "no credentials", place, sc, call(sc, oidc))
        # a body with a secret only, without a client_id
        for place, sc, call in targets("nothing", lambda: O.Auth("nothing").world(), False, "a secret without client_id"):
            s = O.psrc("body")
            sc.oracles.insert(0, lambda ctx, kind, args: True if kind == "present" and args[0] is s
                              and args[1] == "client_secret" else None)
            refused("authenticate", "a secret but no client_id", place, sc, call(sc, oidc))
        sc = O.token("client_credentials by none", "client_credentials", "none")
        refused("method", "the method none", "token request (client_credentials)", sc, O.call_token(sc, oidc))

        for how in O.AUTHS:
            for place, sc, call in targets(how, lambda: O.Auth(how).world(), True, "good"):
                if how == "none" and "client_credentials" in place:
                    continue
                r = C.run(sc, call(sc, oidc))
                C.oblige("good", len(r.paths))
                for p in r.paths:
                    C.I.ctx = p.ctx
                    R = O.Resp(C.I, p.value) if p.kind == "return" else None
                    if R is None or not R.ok:
                        continue
                    if (R.members() or {}).get("error") == "invalid_client":
                        C.bad("good", f"{place}: a client that authenticates by {WRITTEN[how]} is refused", p)
                    for e in O.calls(p, "create_access_token", "create_refresh_token", "revoke_token"):
                        if not O.is_obj(C.I, e["args"][0], "Client", sc.auth.cid):
                            C.bad("identity", f"{place}: {e['name']} for {show(e['args'][0])[:50]} instead of the "
                                              f"authenticated client", p)
                C.guard(r.unknown or any(O.calls(p, *EFFECTS) for p in r.paths), f"{sc.name} has no effect")
        both(C, oidc)


def both(C, oidc):
    """Basic credentials of one client, body parameters of another."""
    secret = lambda I, ident: J.sym(f"secret-of-{show(ident)}", O.T_STR, nonempty=True)
    for mb in ("client_secret_basic", "client_secret_post", "none"):
        for mp in ("client_secret_basic", "client_secret_post", "none"):
            def method(I, ident, mb=mb, mp=mp):
                return mb if O.same(I, ident, O.BASIC_ID) else mp
            for extra in (("client_id", "client_secret"), ("client_id",)):
                for g in O.GRANTS + ("revoke",):
                    a = O.Auth("basic")
                    nosec = len(extra) == 1
                    w = a.world(client={"auth_method": method,
                                        "secret": lambda I, ident: None if nosec and not O.same(I, ident, O.BASIC_ID)
                                        else secret(I, ident)}, exists={"client": True})
                    name = f"basic client registered for {mb}, client in the body for {mp}, {'+'.join(extra)}"
                    if g == "revoke":
                        sc = O.revoke("revocation: " + name, "basic", w, have=("token",) + extra, auth_ok=False)
                        entry = O.call_revoke(sc, oidc)
                    else:
                        sc = O.token(f"{g}: " + name, g, "basic", w, also=extra, auth_ok=False)
                        entry = O.call_token(sc, oidc)
                    sc.eq(O.BASIC_ID, P("client_id"), False)
                    sc.eqs = [e for e in sc.eqs if O.CODE_CLIENT not in e[:2] and O.REFRESH_CLIENT not in e[:2]]
                    r = C.run(sc, entry)
                    C.oblige("identity", len(r.paths))
                    for p in r.paths:
                        C.I.ctx = p.ctx
                        for e in O.calls(p, "create_access_token", "create_refresh_token", "revoke_token"):
                            cl = C.I.ctx.n(e["args"][0])
                            ident = cl.attrs.get("ident") if isinstance(cl, AObj) else None
                            ok = False
                            if ident is not None and O.same(C.I, ident, O.BASIC_ID):
                                ok = mb == "client_secret_basic" and O.same(C.I, O.BASIC_SECRET, secret(C.I, O.BASIC_ID))
                            elif ident is not None and O.same(C.I, ident, P("client_id")):
                                ok = (mp == "none" and nosec) or (mp == "client_secret_post" and not nosec and O.same(
                                    C.I, P("client_secret"), secret(C.I, P("client_id"))))
                            if not ok:
                                C.bad("identity", f"{g}: {e['name']} for a client whose credentials were not verified", p)
