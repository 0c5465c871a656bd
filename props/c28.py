"""The application's storage is called as documented, and every call is awaited."""
from psa import oauth as O
from psa.values import *
from psa.values import T_STR
from props.c15 import negative as wrong_codes
from props.c17 import bad_credentials, targets
from props.c20 import negative as wrong_refresh

KINDS = {
    "find_user": ("str",), "find_client": ("str",),
    "save_authorization_code": ("str", "dict", "Client", "User"),
    "get_authorization_code": ("str",), "delete_authorization_code": ("str",),
    "create_access_token": ("Client", "User|Client", "scopes"),
    "get_userinfo": ("User", "scopes"), "get_key_info": (),
    "create_refresh_token": ("Client", "User", "scopes"),
    "get_refresh_token": ("str",), "revoke_token": ("Client", "str", "str?"),
}


def fits(I, v, kind):
    v = I.ctx.n(v)
    if kind.endswith("?"):
        return v is None or fits(I, v, kind[:-1])
    if kind == "str":
        if isinstance(v, AObj) and v.payload is not None:
            v = I.ctx.n(v.payload)
        return isinstance(v, str) or isinstance(v, Term) and I.ctx.tags(v) == T_STR
    if kind == "dict":
        return isinstance(v, Term) and v.op == "dict" or isinstance(v, ADict)
    if kind == "scopes":
        if isinstance(v, Term) and v.op == "list":
            return all(fits(I, x, "str") for x in v.args)
        if isinstance(v, AList):
            return all(fits(I, x, "str") for x in v.items)
        return isinstance(v, Term) and I.ctx.tags(v) == frozenset({"list"})
    return isinstance(v, AObj) and v.cls.name in kind.split("|")


def check(C):
    O.setup(C)
    C.rule("arguments", "every call of the storage gets arguments of the documented kinds")
    C.rule("awaited", "every asynchronous call that is made is awaited before the response is given")
    seen = {}

    def run(ep, sc, entry):
        r = C.run(sc, entry)
        for p in r.paths:
            C.I.ctx = p.ctx
            for e in p.events:
                if e["kind"] == "allowed":
                    C.oblige("arguments")
                    if e["scopes"] is not None and not fits(C.I, e["scopes"], "scopes"):
                        C.bad("arguments", f"get_allowed_scopes gets {show(e['scopes'])[:50]}, not a list of names", p)
                if e["kind"] != "adapter":
                    continue
                C.oblige("arguments")
                seen[e["name"]] = seen.get(e["name"], 0) + 1
                want = KINDS[e["name"]]
                if len(e["args"]) != len(want):
                    C.bad("arguments", f"{e['name']} gets {len(e['args'])} arguments", p)
                    continue
                for i, (v, k) in enumerate(zip(e["args"], want)):
                    if not fits(C.I, v, k):
                        C.bad("arguments", f"{e['name']}: argument {i + 1} is {show(v)[:50]}, not {k}", p)
            C.oblige("awaited")
            if p.kind == "return":
                for c, where in p.ctx.coros:
                    if not c.awaited:
                        C.bad("awaited", f"{ep}: the coroutine of {where[-1].split(' in ')[-1] if where else '?'} is never awaited", p)

    for oidc in (False, True):
        for where in ("query", "body"):
            m = "GET" if where == "query" else "POST"
            for user in (O.SESSION_USER, None):
                for ep in ("authorize", "consent"):
                    sc = O.authz(f"{ep} {where}: valid", where=where, also=("nonce",))
                    run(ep, sc, O.endpoint(ep, oidc, method=m, user=user))
                    sc = O.authz(f"{ep} {where}: any values", where=where, good=False)
                    O.few_words(sc, O.param(where, "scope"), 1)
                    run(ep, sc, O.endpoint(ep, oidc, method=m, user=user))
        for how in O.AUTHS:
            for g in O.GRANTS:
                for also in ((), ("scope",)):
                    sc = O.token(f"{how}: {g} {also}", g, how, also=also)
                    run("token", sc, O.call_token(sc, oidc))
            for what, sc, a in wrong_refresh(how):
                run("token", sc, O.call_token(sc, oidc))
            w = O.Auth(how).world(code={"scopes": ["openid"]})
            sc = O.token(f"{how}: with openid", "authorization_code", how, w)
            run("token", sc, O.call_token(sc, oidc))
            for have in (("token",), ("token", "token_type_hint")):
                sc = O.revoke(f"{how}: {have}", how, have=have)
                run("revoke", sc, O.call_revoke(sc, oidc))
        for what, sc, a in wrong_codes():
            run("token", sc, O.call_token(sc, oidc))
    for what, how, client, exists, facts in bad_credentials():
        for place, sc, call in targets(how, lambda: O.Auth(how).world(client=client, exists={"client": exists}), False, what):
            facts(sc)
            run(place, sc, call(sc))
    for n in KINDS:
        C.guard(seen.get(n) or C.gaps, f"{n} is never called")
