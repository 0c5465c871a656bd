"""The authorization endpoint redirects only to registered URIs or to the error page."""
from psa import jose as J, oauth as O
from psa.values import *
from psa.values import T_INT, T_STR

SINKS = ("authorize", "consent")


def entries(oidc=False):
    for ep in SINKS:
        for user in (O.SESSION_USER, None) if ep == "authorize" else (None,):
            yield ep, user


def requests(C, where):
    """Input classes: complete requests and requests with one parameter missing, right and wrong."""
    for miss in (None,) + O.AUTHZ:
        have = [n for n in O.AUTHZ if n != miss]
        yield f"{where}: without {miss}" if miss else f"{where}: complete", dict(have=have, where=where)


def check(C):
    O.setup(C)
    C.rule("redirect", "the target of every redirection is the configured error page, or equals a redirect URI that the "
                       "client named by the request has registered")
    C.rule("reachable", "a valid request is redirected to the registered URI")
    P = lambda w, n: O.param(w, n)
    long_lists(C)
    both_places(C)
    for ep, user in entries():
        for where in ("query", "body"):
            for name, kw in requests(C, where):
                for uri in ("registered", "unregistered", "open"):
                    for cl in (True, False):
                        for oidc in (False, True) if name.endswith("complete") else (False,):
                            w = O.World(exists={"client": cl}, client={"response_types": ["code", O.OTHER_TYPE]})
                            sc = O.authz(f"{ep} {name}, {uri} redirect_uri, client {'known' if cl else 'unknown'}, user "
                                         f"{'there' if user is not None else 'missing'}", w, good=False, **kw)
                            sc.eq(O.OTHER_TYPE, "code", False)
                            u = P(where, "redirect_uri")
                            if uri == "registered":
                                sc.eq(u, O.URI[1])
                            elif uri == "unregistered":
                                sc.eq(u, O.URI[0], False), sc.eq(u, O.URI[1], False)
                            O.few_words(sc, P(where, "scope"), 1)
                            if uri == "open":
                                w.client["uris"] = [] if not cl else O.URI[:1]
                            r = C.run(sc, O.endpoint(ep, oidc, method="GET" if where == "query" else "POST", user=user))
                            C.guard(r.paths or r.unknown, f"no partition of {sc.name}")
                            C.oblige("redirect", len(r.paths))
                            for p in r.returns():
                                judge(C, ep, p, u, cl, w)
        sc = O.authz(f"{ep}: valid request", O.World())
        r = C.run(sc, O.endpoint("authorize", user=O.SESSION_USER))
        C.oblige("reachable", len(r.paths))
        ok = 0
        for p in r.returns():
            C.I.ctx = p.ctx
            R = O.Resp(C.I, p.value)
            if R.ok and R.location() is not None:
                L = O.Location(C.I, R.location())
                if L.get("code") and O.same(C.I, O.base_uri(C.I, L), O.URI[0]):
                    ok += 1
        C.guard(ok or r.unknown, "a valid authorization request is never redirected to its URI")


def both_places(C):
    """redirect_uri, client_id or response_type in the query and in the body: the one that is checked is the one that is used."""
    for ep, user in entries():
        for names in (("redirect_uri",), ("client_id",), ("response_type",), ("redirect_uri", "client_id"),
                      ("redirect_uri", "state"), ("redirect_uri", "scope")):
            for right in ("query", "body", "neither"):
                w = O.World(client={"uris": O.URI[:1]})
                sc = O.scenario(f"{ep}: {', '.join(names)} in the query and in the body, {right} right, user "
                                f"{'there' if user is not None else 'missing'}", w, query=names, body=O.AUTHZ,
                                closed_query=O.AUTHZ_PARAMS, closed_body=O.AUTHZ_PARAMS)
                for x in ("query", "body"):
                    ok = x == right
                    P = lambda n: O.param(x, n)
                    sc.eq(P("redirect_uri"), O.URI[0], ok or "redirect_uri" not in names)
                    sc.eq(P("response_type"), "code", ok or "response_type" not in names)
                    sc.eq(P("code_challenge_method"), "S256")
                    ln = Term("len", (P("code_challenge"),), T_INT)
                    sc.bound(ln, 43, {0, 1}), sc.bound(ln, 128, {0, -1})
                    O.few_words(sc, P("scope"), 1)
                    sc.eq(Term("word", (P("scope"), 0), T_STR), O.SCOPE[0])
                a, b = O.param("query", "client_id"), O.param("body", "client_id")
                if "client_id" in names:
                    sc.eq(a, b, False)
                    w.exists["client"] = lambda ident: ident is O.param(right, "client_id") if right != "neither" else False
                else:
                    w.exists["client"] = True
                w.allowed = lambda s: True
                O.no_question_mark(sc)
                r = C.run(sc, O.endpoint(ep, method="POST", user=user))
                C.oblige("redirect", len(r.paths))
                for p in r.returns():
                    judge(C, ep, p, None, right != "neither" or "client_id" not in names, w)


def long_lists(C):
    """A client with many registered URIs."""
    us = O.MANY_URIS
    for where in ("query", "body"):
        u = O.param(where, "redirect_uri")
        for ep, user in entries():
            for uri in (us[0], us[len(us) // 2], us[-1], us[0] + ".example", us[-1] + "/../x", "https://client.example/cb",
                        us[1][:-1], us[3].upper(), "http://127.0.0.1:8080/cb", "http://localhost/cb", us[2] + "?a=b", us[2] + "#f",
                        us[2] + " ", us[4].replace("https", "http")):
                for many in (us, us + ["http://127.0.0.1", "http://localhost", "http://127.0.0.1/cb"]):
                    w = O.World(exists={"client": True}, client={"uris": many})
                    sc = O.pin(O.authz(f"{ep} {where}: {len(many)} registered URIs, redirect_uri {uri}, user "
                                       f"{'there' if user is not None else 'missing'}", w, where=where), u, uri)
                    r = C.run(sc, O.endpoint(ep, method="GET" if where == "query" else "POST", user=user))
                    C.oblige("redirect", len(r.paths))
                    n = 0
                    for p in r.returns():
                        judge(C, ep, p, u, True, w)
                        C.I.ctx = p.ctx
                        R = O.Resp(C.I, p.value)
                        if R.ok and R.location() is not None:
                            L = O.Location(C.I, R.location())
                            n += bool(L.get("code")) and O.same(C.I, O.base_uri(C.I, L), uri)
                    if ep == "authorize" and user is not None and uri in many:
                        C.oblige("reachable")
                        for p in r.paths[:1]:
                            if not n and not r.unknown:
                                C.bad("reachable", "a valid request is not redirected to the registered URI of a client with many", p)


def piece_of(x, u):
    return x is u or isinstance(x, Term) and x.op in ("part", "cat", "slice", "quote", "unquote", "strip", "word") and \
        any(piece_of(a, u) for a in x.args)


def judge(C, ep, p, u, known, world):
    I = C.I
    I.ctx = p.ctx
    R = O.Resp(I, p.value)
    if not R.ok:
        return
    t = R.location()
    if t is None:
        return
    L = O.Location(I, t)
    b = O.base_uri(I, L)
    if b is None:
        # not a single known target: a parameter of the request must not be what it starts with
        first = O.unquoted(L.base[0]) if L.base else None
        if first is u:
            C.bad("redirect", f"{ep}: redirects to a URI that starts with the unchecked redirect_uri of the request", p)
        else:
            C.gap(f"{ep}: the target of a redirection is not understood: {show(t)[:80]}")
        return
    if O.same(I, b, O.ERROR_URL):
        return
    if not known:
        C.bad("redirect", f"{ep}: redirects to {show(b)[:60]} although the client is unknown", p)
        return
    rest = [x for x in L.base + L.raw + [y for kv in L.pairs for y in kv] if isinstance(x, Term) and x is not b and piece_of(x, u)]
    if rest and not any(O.same(I, u, x) for x in world.client["uris"]):
        C.bad("redirect", f"{ep}: redirects to a URI with parts of the unregistered redirect_uri of the request", p)
    elif not any(O.same(I, b, x) for x in world.client["uris"]):
        C.bad("redirect", f"{ep}: redirects to {show(b)[:60]}, which the client has not registered", p)
