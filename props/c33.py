"""The web framework bridge passes requests and responses on unchanged."""
from psa import jose as J, oauth as O
from psa.values import *


def web(I, method, headers, user, body=O.BODY, url=O.URL):
    u = O.obj(I, "User", user) if user is not None else None
    return I.call(I.modules["psaworld"].attrs["WebRequest"], [method, url, J.adict({k.lower(): v for k, v in headers.items()}), body, u], {})


# headers that a request may carry besides
MORE = {n: O.txt("header " + n) for n in (
    "Host", "User-Agent", "Accept", "Cookie", "Origin", "Referer", "Content-Type", "Content-Length", "Forwarded", "X-Forwarded-For",
    "X-Forwarded-Host", "X-Forwarded-Proto", "X-Forwarded-Uri", "X-Original-URL", "X-HTTP-Method", "X-HTTP-Method-Override",
    "X-Method-Override", "X-User", "X-Request-ID")}


# what the application's own code may ask of a request
FIELDS = ("method", "url", "body", "user", "path", "query", "fragment", "data", "headers")
LONG = O.txt("a long header")


def same_field(I, q, d, name):
    try:
        want = I.getattr(d, name)
    except PyExc:
        return True
    try:
        got = I.getattr(q, name)
    except PyExc:
        return False
    P = O.Picture(I)
    if name == "headers":
        a, b = (J.mapping_of(I, x) for x in (want, got))
        if not isinstance(a, ADict) or not isinstance(b, ADict):
            return P.of(want) == P.of(got)
        a, b = ({(e.key.lower() if isinstance(e.key, str) else e.key): P.of(e.val) for e in d.entries.values()} for d in (a, b))
        return a == b
    return P.of(want) == P.of(got)


def cases():
    for ep in ("authorize", "token", "revoke"):
        for m in ("GET", "POST"):
            # a query and a body at once, whatever the method
            sc = O.scenario(f"{ep} {m}: any query and body", open_query=("client_id", "state"), open_body=("client_id", "grant_type"))
            yield ep, sc, m, {}, None
    for where in ("query", "body"):
        m = "GET" if where == "query" else "POST"
        for user in (O.SESSION_USER, None):
            yield "authorize", O.authz(f"authorize {where}, user {'there' if user is not None else 'missing'}", where=where), m, {}, user
            sc = O.authz(f"authorize {where}: any values", where=where, good=False)
            O.few_words(sc, O.param(where, "scope"), 1)
            yield "authorize", sc, m, {}, user
    for how in O.AUTHS:
        for g in O.GRANTS:
            if how == "none" and g == "client_credentials":
                continue
            for name in ("Authorization", "authorization", "AUTHORIZATION") if how == "basic" else ("Authorization",):
                sc = O.token(f"token {how} {g}, header {name}", g, how)
                yield "token", sc, "POST", {"auth": name}, None
        sc = O.revoke(f"revoke {how}", how)
        yield "revoke", sc, "POST", {"auth": "authorization"}, None


def check(C):
    O.setup(C)
    C.rule("request", "a request taken over from the framework is handled as the same request with the same method, URL, headers "
                      "(whatever the case of their names), body and user")
    C.rule("response", "the framework's response has the status, headers and body of the library's")
    n = 0
    for ep, sc, method, hd, user in cases():
        for oidc, more in ((False, {}), (True, {}), (False, MORE), (False, {"X-Request-ID": LONG})):
            def entry(I):
                h = dict(more)
                if hd and hasattr(sc, "auth"):
                    h.update({hd["auth"]: v for v in sc.auth.headers(I).values()})
                one = O.provider(I, oidc)
                Mutable.cur_phase = 2
                from props.c24 import picture, watch
                direct = O.request(I, method, dict(h), O.BODY, O.URL, user)
                a = watch(I, lambda: I.await_(I.call(I.getattr(one, ep), [direct], {})))
                Mutable.cur_phase = 1
                two = O.provider(I, oidc)
                box, taken = [], []

                def bridged():
                    q = I.await_(I.call(I.getattr(two, "create_request"), [web(I, method, h, user)], {}))
                    taken.append(q)
                    r = I.await_(I.call(I.getattr(two, ep), [q], {}))
                    box.append((r, I.await_(I.call(I.getattr(two, "create_response"), [r], {}))))
                    return r
                b = watch(I, bridged)
                for q in taken:
                    for n in FIELDS:
                        if not same_field(I, q, direct, n):
                            I.ctx.event("field", name=n)
                return picture(I, a), picture(I, b), box
            r = C.run(sc, entry)
            C.oblige("request", len(r.paths))
            C.guard(r.paths or r.unknown, f"no partition of {sc.name}")
            for p in r.paths:
                C.I.ctx = p.ctx
                if p.kind != "return":
                    C.gap(f"{sc.name}: ends in {p.exc_name()}")
                    continue
                a, b, box = p.value
                for e in p.events:
                    if e["kind"] == "field":
                        C.bad("request", f"the {e['name']} of the request is not taken over", p)
                if a != b:
                    C.bad("request", f"{ep}: the request taken over from the framework is handled differently", p)
                for x, y in box:
                    n += 1
                    C.oblige("response")
                    why = differs(C.I, x, y)
                    if why:
                        C.bad("response", f"{ep}: {why}", p)
    C.guard(n or C.gaps, "no response was passed on")


def differs(I, x, y):
    R = O.Resp(I, x)
    y = I.ctx.n(y)
    if not R.ok:
        return None
    if not (isinstance(y, ExtObj) and y.kind == "response"):
        return f"the framework gets {show(y)[:50]}"
    v = y.attrs["vals"]
    P = O.Picture(I)
    if P.of(v.get("content")) != P.of(R.body):
        return f"the body is passed on as {show(v.get('content'))[:50]}"
    if not O.same(I, v.get("status_code", 200), R.status):
        return f"the status is passed on as {show(v.get('status_code'))[:30]}"
    h = J.mapping_of(I, v.get("headers"))
    got = {(e.key.lower() if isinstance(e.key, str) else e.key): P.of(e.val) for e in h.entries.values()} if isinstance(h, ADict) else {}
    want = {k: P.of(e[1]) for k, e in R.headers.items()}
    if v.get("media_type") is not None:
        got.setdefault("content-type", P.of(v["media_type"]))
    if got != want:
        return f"the headers are passed on as {sorted(map(str, got))} instead of {sorted(map(str, want))}"
    return None
