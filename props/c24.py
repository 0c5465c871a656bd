"""Requests do not influence each other."""
from psa import oauth as O
from psa.values import *

CLIENT = ("client_id", "client_secret")


HEADERS = {"basic": (O.BASIC_ID, O.BASIC_SECRET), "basic2": (O.BASIC2_ID, O.BASIC2_SECRET)}


class Req:
    """One kind of request; its parameters are in the query or in one of two bodies (`where`)."""

    def __init__(self, name, ep, where, have, facts, user=None, how=None):
        self.name, self.ep, self.where, self.have = name, ep, where, tuple(have)
        self.facts, self.user, self.how = facts, user, how
        self.cid = HEADERS[how][0] if how in HEADERS else O.param(where, "client_id")
        self.secret = HEADERS[how][1] if how in HEADERS else O.param(where, "client_secret") if how else None

    def handle(self, I, p):
        h = {"Authorization": O.basic(I, *HEADERS[self.how])} if self.how in HEADERS else {}
        if self.where == "query":
            r = O.request(I, "GET" if self.ep in ("authorize", "consent") else "POST", h, b"", O.URL, self.user)
        else:
            r = O.request(I, "POST", h, O.BODY if self.where == "body" else O.BODY2, O.URL_PLAIN, self.user)
        f = I.getattr(I.getattr(p, "authorize"), "get_consent_data") if self.ep == "consent" else I.getattr(p, self.ep)
        return I.await_(I.call(f, [r], {}))


def authorizations(where):
    """Authorization requests and consent queries."""
    P = lambda n: O.param(where, n)
    k = 1 if where == "body" else 0

    def az(sc, good=True):
        sc.eq(P("redirect_uri"), O.URI[k])
        sc.eq(P("response_type"), "code")
        sc.eq(P("code_challenge_method"), "plain" if k else "S256")
        ln = Term("len", (P("code_challenge"),), O.T_INT)
        if good:
            sc.bound(ln, 43, {0, 1}), sc.bound(ln, 128, {0, -1})
        else:
            sc.bound(ln, 43, {-1})
        sc.eq(Term("word", (P("scope"), 0), O.T_STR), O.SCOPE[k])
    U = O.SESSION_USER if k else O.txt("other-session-user")
    yield Req("an authorization request", "authorize", where, O.AUTHZ, az, U)
    yield Req("an authorization request without state", "authorize", where, [n for n in O.AUTHZ if n != "state"], az, U)
    yield Req("an authorization request with a bad challenge", "authorize", where, O.AUTHZ, lambda sc: az(sc, False), U)
    yield Req("an authorization request of nobody", "authorize", where, O.AUTHZ, az, None)
    yield Req("an authorization request of nobody without state", "authorize", where, [n for n in O.AUTHZ if n != "state"], az, None)
    yield Req("an authorization request with a bad challenge without state", "authorize", where, [n for n in O.AUTHZ if n != "state"],
              lambda sc: az(sc, False), U)
    yield Req("a consent query", "consent", where, O.AUTHZ, az, None)


def token_requests(where, how):
    """Token requests with each grant and revocation requests."""
    P = lambda n: O.param(where, n)
    k = 1 if where == "body" else 0
    more = CLIENT if how == "post" else ()

    def tok(g, scope=False):
        def f(sc):
            sc.eq(P("grant_type"), g)
            if g == "authorization_code":
                sc.eq(P("redirect_uri"), O.CODE_URI)
            if scope:
                sc.eq(Term("word", (P("scope"), 0), O.T_STR), O.SCOPE[k])
        return f
    for g in O.GRANTS:
        yield Req(f"a token request ({g}, {how})", "token", where, O.TOKEN_OF[g] + more, tok(g), None, how)
        if g != "authorization_code":
            yield Req(f"a token request ({g} with scope, {how})", "token", where, O.TOKEN_OF[g] + more + ("scope",), tok(g, True),
                      None, how)
    yield Req(f"a revocation request ({how})", "revoke", where, ("token",) + more, lambda sc: None, None, how)
    if how != "basic2":
        yield Req(f"a revocation request without token ({how})", "revoke", where, more, lambda sc: None, None, how)
        yield Req(f"a token request without refresh token ({how})", "token", where, ("grant_type",) + more, tok("refresh_token"), None, how)


def firsts():
    """The requests that may influence another one."""
    yield from authorizations("query")
    yield from token_requests("body2", "basic")
    g = "refresh_token"

    def wrong(sc):
        sc.eq(O.param("body2", "grant_type"), g), sc.eq(O.BASIC_SECRET, O.SECRET, False)
    yield Req("a token request with a wrong secret", "token", "body2", O.TOKEN_OF[g], wrong, None, "basic")


def seconds():
    """The requests that may be influenced."""
    yield from authorizations("body")
    yield from token_requests("body", "post")
    g = "refresh_token"
    yield Req("a token request without client", "token", "body", O.TOKEN_OF[g], lambda sc: sc.eq(O.param("body", "grant_type"), g))
    yield from token_requests("body", "basic2")


WHERE = ("query", "body", "body2")
IDS = (O.BASIC_ID, O.BASIC2_ID) + tuple(O.param(w, "client_id") for w in WHERE)


def world(sc, *reqs):
    w = sc.world
    w.allowed = lambda s: True
    w.exists.update(client=True, code=True, refresh=True, user=True)

    def method(I, ident):
        return "client_secret_basic" if any(O.same(I, ident, x) for x in (O.BASIC_ID, O.BASIC2_ID)) else "client_secret_post"
    w.client["auth_method"] = method
    # every client and code has values of its own
    own = lambda what: (lambda I, ident: O.J.sym(f"{what} of {show(ident)}", O.T_STR, nonempty=True))
    w.code["user_id"] = own("user")
    w.code["challenge"] = own("challenge")
    w.code["method"] = "S256"
    w.code["nonce"] = own("nonce")
    w.code["scopes"] = lambda I, ident: ["openid", O.word(f"scope of {show(ident)}")]
    w.userinfo = lambda I, args: {"sub": O.J.sym(f"sub of {show(args[0].attrs['ident'])}", O.T_STR, nonempty=True)}
    w.refresh["user_id"] = own("user")
    w.default_scopes = lambda I, ident: [O.word(f"default scope of {show(ident)}")]
    owner = {O.param(r.where, n): r.cid for r in reqs for n in ("code", "refresh_token")}
    w.code["client_id"] = w.refresh["client_id"] = lambda I, ident: owner[ident]
    for i, x in enumerate(IDS):
        for y in IDS[i + 1:]:
            sc.eq(x, y, False)
    for n in ("state", "code", "refresh_token"):
        sc.eq(O.param("query", n), O.param("body", n), False), sc.eq(O.param("body2", n), O.param("body", n), False)
    for r in reqs:
        if r.secret is not None and not r.name.endswith("wrong secret"):
            sc.eq(r.secret, O.SECRET)
    sc.eq(O.URI[0], O.URI[1], False)
    sc.eq(O.SCOPE[0], O.SCOPE[1], False), sc.eq(O.SCOPE[0], "openid", False), sc.eq(O.SCOPE[1], "openid", False)
    sc.bound(O.CODE_EXP, O.NOW, {1}), sc.bound(O.REFRESH_EXP, O.NOW, {1})
    sc.eq(O.CODE_URI, O.URI[1])
    for i in range(2):
        sc.eq(O.REFRESH_SCOPE[i], O.SCOPE[i])
    for wh in WHERE:
        O.few_words(sc, O.param(wh, "scope"), 1)
        v = O.param(wh, "code_verifier")
        sc.oracle(lambda ctx, kind, args, v=v: True if kind == "eq" and any(O.is_s256(None, a, v) for a in args) else None)
        sc.fact("ascii", v, value=True)
    O.no_question_mark(sc)


def scenario(a, b, name):
    have = {a.where: a.have, b.where: b.have}
    sc = O.scenario(name, query=have.get("query", ()), body=have.get("body", ()), body2=have.get("body2", ()))
    world(sc, a, b)
    for r in {a, b}:
        r.facts(sc)
    return sc


OLD = {n: O.txt(n + " before") for n in ("client-secret", "registered-uri", "user")}
OLD_SCOPE = O.word("scope before")
LATE, SOON = O.J.sym("an expiration that is past", O.T_INT), O.J.sym("an expiration in between", O.T_INT)


def changes(b):
    """(what, kind, name, the value that serves the request, the other value): changes of the storage."""
    yield "the client is there", "exists", "client", True, False
    if b.ep in ("token", "revoke"):
        yield "the secret of the client", "client", "secret", O.SECRET, OLD["client-secret"]
        m = ["client_secret_post", "client_secret_basic"]
        if b.how in HEADERS:
            m.reverse()
        yield "the authentication method of the client", "client", "auth_method", m[0], m[1]
    if b.ep == "token":
        yield "the grant types of the client", "client", "grant_types", list(O.GRANTS), ["something_else"]
    if b.ep in ("authorize", "consent") or "code" in b.have:
        yield "the redirect URIs of the client", "client", "uris", O.URI, [OLD["registered-uri"]]
    if b.ep in ("authorize", "consent"):
        yield "the response types of the client", "client", "response_types", ["code"], ["something_else"]
    if "scope" in b.have:
        yield "the scopes the client may use", "allowed", None, (lambda s: True), (lambda s: False)
    for kind, n in (("code", "code"), ("refresh", "refresh_token")):
        if b.ep == "token" and n in b.have:
            yield f"the {n} is there", "exists", kind, True, False
            yield "the user is there", "exists", "user", True, False
            yield f"the expiration of the {n}", kind, "expiration", getattr(O.World(), kind)["expiration"], O.ext.dt("naive", LATE)
            yield f"the {n} expires", kind, "expiration", O.ext.dt("naive", SOON), O.ext.dt("naive", SOON)
            yield f"the user of the {n}", kind, "user_id", O.txt("user now"), OLD["user"]
            yield f"the scopes of the {n}", kind, "scopes", ["openid"] + O.REFRESH_SCOPE, ["openid", OLD_SCOPE]
    yield "nothing", "exists", "nothing", True, True


def set_now(w, kind, name, v):
    if kind == "allowed":
        w.allowed = v
    elif kind == "exists":
        w.exists[name] = v
    else:
        getattr(w, kind)[name] = v


def set_before(w, kind, name, v):
    w.before["allowed" if kind == "allowed" else (kind, name)] = v


def repeated():
    """The same request twice; in between the storage of the application changed, as did the signing key."""
    for b in seconds():
        for what, kind, name, good, bad in changes(b):
            for now, before, how in ((good, bad, "now serves it"), (bad, good, "served it before")) if good is not bad else (
                    (good, good, "the same"),):
                sc = scenario(b, b, f"{b.name} twice, {what}: {how}")
                w = sc.world
                w.userinfo = lambda I, args: {"sub": O.txt(f"sub in storage {O.state(I).get('epoch', 1)}")}
                w.default_scopes = lambda I, ident: [O.word(f"default scope in storage {O.state(I).get('epoch', 1)}")]
                w.code["scopes"] = ["openid"]
                set_now(w, kind, name, now), set_before(w, kind, name, before)
                sc.eq(OLD["client-secret"], O.SECRET, False), sc.eq(OLD["registered-uri"], O.URI[1], False)
                sc.eq(OLD_SCOPE, O.SCOPE[1], False), sc.eq(OLD_SCOPE, O.SCOPE[0], False), sc.bound(LATE, O.NOW, {-1})
                sc.bound(O.NOW, O.ext.LATER, {-1}), sc.bound(SOON, O.NOW, {1}), sc.bound(SOON, O.ext.LATER, {-1})
                for x in (O.CODE_EXP, O.REFRESH_EXP):
                    sc.bound(x, O.ext.LATER, {1})
                yield b, sc, what, how


def reset(I):
    st = O.state(I)
    st["deleted"], st["n"] = set(), {}


def watch(I, fn, fresh=True):
    """Runs a request; gives what it did: the result and the calls of the application."""
    if fresh:
        reset(I)
    k = len(I.ctx.events)
    Mutable.cur_phase = 2
    try:
        v = ("returns", fn())
    except PyExc as e:
        v = ("raises", e.obj.cls.name)
    return v, [e for e in I.ctx.events[k:] if e["kind"] == "adapter" and not e.get("inner")]


def picture(I, seen):
    """Comparable; taken at the end, when all that is known about the values is known."""
    (kind, v), events = seen
    P = O.Picture(I)
    return (P.response(v) if kind == "returns" else v), tuple((e["name"], P.of(tuple(e["args"]))) for e in events)


def cold(I):
    """What follows happens in a process that has handled no request."""
    Mutable.cur_phase = 1
    I.ctx.rollback()


def sequential(a, b, oidc, changed=False):
    def entry(I):
        one = O.provider(I, oidc)
        I.ctx.late = changed
        alone = watch(I, lambda: b.handle(I, one))
        cold(I)
        two = O.provider(I, oidc)
        if changed:
            O.state(I)["epoch"], I.ctx.late = 0, False
        watch(I, lambda: a.handle(I, two))
        if changed:
            O.state(I)["epoch"], I.ctx.late = 1, True
        after = watch(I, lambda: b.handle(I, two))
        return picture(I, alone), picture(I, after)
    return entry


def interleaved(a, b, oidc, at):
    def entry(I):
        one = O.provider(I, oidc)
        alone = watch(I, lambda: b.handle(I, one))
        cold(I)
        two = O.provider(I, oidc)

        def between():
            st = O.state(I)
            keep = (st["deleted"], dict(st["n"]))
            k = len(I.ctx.events)
            st["deleted"], st["n"] = set(), {}
            try:
                a.handle(I, two)
            except PyExc:
                pass
            for e in I.ctx.events[k:]:
                e["inner"] = True
            st["deleted"], st["n"] = keep
        reset(I)
        st = O.state(I)
        st["between"] = {"count": 0, "at": at, "run": between}
        after = watch(I, lambda: b.handle(I, two), False)
        I.ctx.event("ran", yes=st["between"] is None)
        st["between"] = None
        return picture(I, alone), picture(I, after)
    return entry


def owned(p):
    return sorted({o.label for o, what, where in p.ctx.mutations if o.label})


def check(C):
    O.setup(C)
    C.rule("history", "a request is handled exactly as it is by a provider that has handled no request before, also if the "
                      "storage of the application changed in between")
    C.rule("schedule", "a request is handled exactly as it is alone if another request is handled while it waits for the application")
    C.rule("owned", "lists that belong to the application are not modified")
    C.rule("providers", "a hook added to one provider does not run in another")

    def judge(rule, a, b, sc, entry, how):
        r = C.run(sc, entry)
        C.oblige(rule, len(r.paths))
        ran = 0
        for p in r.paths:
            C.I.ctx = p.ctx
            ran += any(e["kind"] == "ran" and e["yes"] for e in p.events)
            for l in owned(p):
                C.bad("owned", f"{l} is modified by the library", p)
            if p.kind != "return":
                C.gap(f"{sc.name}: ends in {p.exc_name()}")
                continue
            alone, after = p.value
            if alone != after:
                what = "the answer" if alone[0] != after[0] else "what is done"
                C.bad(rule, f"{what} to {b.name} depends on {a.name} {how}", p)
        return ran, len(r.paths)

    for b, sc, what, how in repeated():
        for oidc in (False, True):
            if oidc and "code" not in b.have:
                continue
            judge("history", b, b, sc, sequential(b, b, oidc, True),
                  "before it, though the storage changed in between" + (f": {what}, {how}" if what != "nothing" else ""))
    # an interleaving is an await of the application: at most this many happen
    for oidc in (False, True):
        for a in firsts():
            if oidc and a.ep not in ("token", "authorize"):
                continue
            for b in seconds():
                if b.how == "basic2" and a.how != "basic" and not C.thorough:
                    continue
                name = f"{a.name}, then {b.name}{' (OpenID Connect)' if oidc else ''}"
                judge("history", a, b, scenario(a, b, name), sequential(a, b, oidc), "before it")
                if not C.thorough and (oidc and b.ep != "token" or b.how == "basic2" and a.ep != b.ep):
                    continue
                for at in range(1, 12):
                    ran, n = judge("schedule", a, b, scenario(a, b, f"{a.name}, during {b.name} (call {at})"),
                                   interleaved(a, b, oidc, at), "while it waits")
                    if not ran:
                        break
    hooks(C)


def hooks(C):
    for order in (False, True):
        sc = O.token("two providers, one with the hook", "authorization_code", "basic",
                     O.Auth("basic").world(code={"scopes": ["openid"]}))

        def entry(I):
            first = O.provider(I, order)
            second = O.provider(I, not order)
            plain = second if order else first
            Mutable.cur_phase = 2
            r = O.request(I, "POST", sc.auth.headers(I), O.BODY, O.URL)
            return I.await_(I.call(I.getattr(plain, "token"), [r], {}))
        r = C.run(sc, entry)
        C.oblige("providers", len(r.paths))
        n = 0
        for p in r.returns():
            C.I.ctx = p.ctx
            R = O.Resp(C.I, p.value)
            if R.ok and R.status == 200 and R.members() is not None:
                n += 1
                if "id_token" in R.members():
                    C.bad("providers", "a hook added to one provider runs in another", p)
        C.guard(n or r.unknown, "no response of the second provider")
