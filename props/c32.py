"""A revocation revokes exactly the token the authenticated client names."""
from psa import oauth as O
from psa.values import *

B = lambda n: O.param("body", n)


def check(C):
    O.setup(C)
    C.rule("revoke", "a valid revocation is passed on exactly once, with the authenticated client, the token and the type hint "
                     "of the request, and answered with 200")
    C.rule("hint", "a type hint that is not supported is answered with unsupported_token_type and revokes nothing")
    C.rule("nothing", "without a token in the body nothing is revoked")
    for oidc in (False, True):
        for how in O.AUTHS:
            for hint in (None, "access_token", "refresh_token"):
                sc = O.revoke(f"{how}: hint {hint}", how, have=("token",) + (("token_type_hint",) if hint else ()))
                if hint:
                    sc.eq(B("token_type_hint"), hint)
                r = C.run(sc, O.call_revoke(sc, oidc))
                C.oblige("revoke", len(r.paths))
                C.guard(r.paths or r.unknown, f"no partition of {sc.name}")
                for p in r.paths:
                    I = C.I
                    I.ctx = p.ctx
                    got = O.calls(p, "revoke_token")
                    R = O.Resp(I, p.value) if p.kind == "return" else None
                    if R is None or not R.ok or R.status != 200:
                        C.bad("revoke", f"a valid revocation (hint {hint}) is not answered with 200", p)
                    if len(got) != 1:
                        C.bad("revoke", f"a valid revocation (hint {hint}) is passed on {len(got)} times", p)
                        continue
                    cl, tok, h = got[0]["args"]
                    if not O.is_obj(I, cl, "Client", sc.auth.cid):
                        C.bad("revoke", f"a token is revoked for another client: {show(cl)[:50]}", p)
                    if not O.same(I, tok, B("token")):
                        C.bad("revoke", f"another token is revoked: {show(tok)[:50]}", p)
                    if not (h is None if hint is None else O.same(I, h, hint)):
                        C.bad("revoke", f"the hint {hint} is passed on as {show(h)[:40]}", p)
            sc = O.revoke(f"{how}: unknown hint", how)
            sc.eq(B("token_type_hint"), "access_token", False), sc.eq(B("token_type_hint"), "refresh_token", False)
            r = C.run(sc, O.call_revoke(sc, oidc))
            C.oblige("hint", len(r.paths))
            for p in r.paths:
                C.I.ctx = p.ctx
                if O.calls(p, "revoke_token"):
                    C.bad("hint", "a token is revoked although the type hint is not supported", p)
                R = O.Resp(C.I, p.value) if p.kind == "return" else None
                if R is not None and R.ok and (R.status == 200 or (R.members() or {}).get("error") != "unsupported_token_type"):
                    C.bad("hint", "a type hint that is not supported is not answered with unsupported_token_type", p)
            for name, have, q in (("no token", (), ()), ("a hint only", ("token_type_hint",), ()), ("a token in the query", (), ("token",))):
                a = O.Auth(how)
                sc = O.scenario(f"{how}: {name}", a.world(), body=have + a.params, query=q)
                a.right(sc)
                sc.auth = a
                r = C.run(sc, O.call_revoke(sc, oidc))
                C.oblige("nothing", len(r.paths))
                for p in r.paths:
                    C.I.ctx = p.ctx
                    if O.calls(p, "revoke_token"):
                        C.bad("nothing", f"something is revoked with {name}", p)
