"""A refresh token works only for its client and user and until it expires."""
from psa import oauth as O
from psa.values import *
from props.c15 import GRANTING

P = lambda n: O.param("body", n)


def negative(how, scopes=O.REFRESH_SCOPE):
    def new(what, wrong=(), have=None, also=(), **kw):
        a = O.Auth(how)
        kw["refresh"] = {"scopes": scopes}
        sc = O.token(f"{how}: {what}{'' if scopes else ', no scopes'}", "refresh_token", how, a.world(**kw), have=have, also=also, good=False)
        facts = {
            "client": lambda: sc.eq(O.REFRESH_CLIENT, a.cid),
            "expiry": lambda: sc.bound(O.REFRESH_EXP, O.NOW, {1}),
            "refresh": lambda: sc.world.exists.setdefault("refresh", True),
            "user": lambda: sc.world.exists.setdefault("user", True),
        }
        for k, f in facts.items():
            if k not in wrong:
                f()
        sc.world.allowed = lambda s: True
        return what, sc, a
    for also in ((), ("scope",)):
        t = " with scope" if also else ""

        def words(x):
            if also:
                O.few_words_first(x[1], P("scope"), 1)
                x[1].eq(Term("word", (P("scope"), 0), O.T_STR), O.SCOPE[0])
                x[1].eq(O.REFRESH_SCOPE[0], O.SCOPE[0])
            return x
        x = new("another client's refresh token" + t, ("client",), also=also)
        x[1].eq(O.REFRESH_CLIENT, x[2].cid, False)
        yield words(x)
        for w, s in (("past", {-1}), ("now", {0})):
            x = new(f"an expired refresh token ({w})" + t, ("expiry",), also=also)
            x[1].bound(O.REFRESH_EXP, O.NOW, s)
            yield words(x)
        yield words(new("an unknown refresh token" + t, also=also, exists={"refresh": False}))
        yield words(new("a refresh token of an unknown user" + t, also=also, exists={"user": False}))
        yield words(new("no refresh token" + t, have=("grant_type",), also=also))


def check(C):
    O.setup(C)
    C.rule("refuse", "no partition in which the refresh token is missing, unknown, expired, of another client or of an unknown "
                     "user creates a token or answers with success")
    C.rule("tokens", "a valid refresh creates the tokens for the authenticated client and the user of the refresh token and "
                     "answers with them")
    for oidc in (False, True):
        for how in O.AUTHS:
            for what, sc, a in [*negative(how), *negative(how, [])]:
                r = C.run(sc, O.call_token(sc, oidc))
                C.guard(r.paths or r.unknown, f"no partition of {sc.name}")
                C.oblige("refuse", len(r.paths))
                for p in r.paths:
                    C.I.ctx = p.ctx
                    if O.calls(p, *GRANTING):
                        C.bad("refuse", f"a token is created for {what}", p)
                    elif p.kind == "return":
                        R = O.Resp(C.I, p.value)
                        if R.ok and R.status == 200:
                            C.bad("refuse", f"the answer to {what} is a success", p)
            for also, scopes in (((), O.REFRESH_SCOPE), (("scope",), O.REFRESH_SCOPE), ((), []), ((), O.REFRESH_SCOPE[:1])):
                sc = O.token(f"{how}: valid refresh {also}, {len(scopes)} scopes", "refresh_token", how,
                             O.Auth(how).world(refresh={"scopes": scopes}), also=also)
                r = C.run(sc, O.call_token(sc, oidc))
                C.oblige("tokens", len(r.paths))
                n = 0
                for p in r.paths:
                    C.I.ctx = p.ctx
                    R = O.Resp(C.I, p.value) if p.kind == "return" else None
                    if R is None or not R.ok or R.status != 200:
                        C.bad("tokens", "a valid refresh is refused", p)
                        continue
                    n += 1
                    for e in O.calls(p, *GRANTING):
                        if not O.is_obj(C.I, e["args"][0], "Client", sc.auth.cid):
                            C.bad("tokens", f"{e['name']} for another client", p)
                        if not O.is_obj(C.I, e["args"][1], "User", O.REFRESH_USER):
                            C.bad("tokens", f"{e['name']} for another user", p)
                    m = R.members()
                    if m is not None and not (O.same(C.I, m.get("access_token"), O.ACCESS)
                                              and O.same(C.I, m.get("refresh_token"), O.REFRESH)):
                        C.bad("tokens", "the response to a valid refresh does not carry the tokens that were created", p)
                C.guard(n or r.unknown, f"no partition of {sc.name} succeeds")
