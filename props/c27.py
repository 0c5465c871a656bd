"""Redirections are well formed: nothing in a request can add to or change their parameters."""
from psa import oauth as O
from psa.values import *

ERRORS = {"invalid_request", "unauthorized_client", "access_denied", "unsupported_response_type", "invalid_scope",
          "server_error", "temporarily_unavailable"}
KNOWN = {"code", "state", "error", "error_description", "error_uri", "iss"}


def check(C):
    O.setup(C)
    C.rule("encoded", "every value from the request that occurs in a redirection is percent-encoded: it can neither start "
                      "another parameter nor break the header line")
    C.rule("joined", "parameters are appended to the query of the redirect URI, or start one if it has none")
    C.rule("parameters", "a redirection carries each parameter once, either a code or a registered error code, and no empty ones")
    C.rule("status", "a redirection has a redirecting status")
    n = 0
    for where in ("query", "body"):
        for q in (False, True):
            for miss in (None,) + O.AUTHZ:
                for ep, user in (("authorize", O.SESSION_USER), ("authorize", None), ("consent", None)):
                    for oidc in (False, True) if miss is None and user is not None else (False,):
                        have = [x for x in O.AUTHZ if x != miss]
                        sc = O.authz(f"{ep} {where}: {'without ' + miss if miss else 'complete'}, a URI "
                                     f"{'with' if q else 'without'} a query", O.World(client={"uris": O.URI[:1], "response_types": ["code", O.OTHER_TYPE]}),
                                     good=False, have=have, where=where, also=("nonce",) if oidc else ())
                        O.few_words(sc, O.param(where, "scope"), 1)
                        O.no_question_mark(sc, q)
                        sc.eq(O.OTHER_TYPE, "code", False)
                        if miss is not None:
                            sc.world.exists["client"] = True
                        r = C.run(sc, O.endpoint(ep, oidc, method="GET" if where == "query" else "POST", user=user))
                        for p in r.returns():
                            n += judge(C, ep, p, q)
    # registered URIs with and without a query of their own
    for uri in URIS:
        for where in ("query", "body"):
            for miss in (None, "scope"):
                for user in (O.SESSION_USER, None):
                    sc = O.authz(f"authorize {where}: {'without ' + miss if miss else 'complete'}, the registered URI {uri}, user "
                                 f"{'there' if user is not None else 'missing'}", O.World(client={"uris": [uri]}),
                                 have=[x for x in O.AUTHZ if x != miss], where=where)
                    O.pin(sc, O.param(where, "redirect_uri"), uri)
                    r = C.run(sc, O.endpoint("authorize", method="GET" if where == "query" else "POST", user=user))
                    C.oblige("joined", len(r.paths))
                    for p in r.returns():
                        C.I.ctx = p.ctx
                        n += pinned(C, p, uri)
    C.guard(n or C.gaps, "no redirection was found")


URIS = ("https://client.example/cb", "https://client.example/cb?", "https://client.example/cb?a=b", "https://client.example/cb?a=b&c",
        "https://client.example/cb?a=b&", "https://client.example/?x=%3F", "https://client.example", "com.example.app:/cb",
        "http://127.0.0.1:8080/cb?next=%2Fa%26b", "https://client.example/cb?q=a+b")


def pinned(C, p, uri):
    """The parameters of the response follow those of the registered URI."""
    I = C.I
    R = O.Resp(I, p.value)
    if not R.ok or R.location() is None:
        return 0
    ps = M_parts(I, R.location())
    if not ps or not isinstance(ps[0], str):
        if O.same(I, O.base_uri(I, O.Location(I, R.location())), O.ERROR_URL):
            return 0
        C.gap(f"the location for the registered URI {uri} is not understood: {show(R.location())[:60]}")
        return 0
    if not ps[0].startswith(uri):
        C.bad("joined", f"the registered URI {uri} is not kept in the redirection: {ps[0][:80]}", p)
        return 1
    rest = ps[0][len(uri):]
    sep = "?" if "?" not in uri else "" if uri[-1] in "?&" else "&"
    ok = (sep, "&") if sep == "" else (sep,)
    if "#" in rest or not any(rest.startswith(x) and rest[len(x):len(x) + 1] not in ("?", "&") for x in ok if x or rest[:1] not in ("?", "&")):
        C.bad("joined", f"the parameters of a redirection do not follow the registered URI {uri} as a query: {rest[:40]}", p)
    return 1


def judge(C, ep, p, q):
    I = C.I
    I.ctx = p.ctx
    R = O.Resp(I, p.value)
    if not R.ok or R.location() is None:
        return 0
    for r in ("encoded", "joined", "parameters", "status"):
        C.oblige(r)
    if R.status not in (302, 303):
        C.bad("status", f"{ep}: a redirection has the status {show(R.status)}", p)
    t = R.location()
    L = O.Location(I, t)
    first = M_parts(I, t)[:1]
    if first and isinstance(first[0], Term) and first[0].op != "quote":
        C.bad("encoded", f"{ep}: the redirect URI is put into the header as it is", p)
    for x in L.raw:
        C.bad("encoded", f"{ep}: a value is put into the location without encoding: {show(x)[:60]}", p)
    for r in nested(t):
        C.bad("encoded", f"{ep}: the parameters of a redirection are encoded twice", p)
        return 1
    if not L.pairs:
        C.bad("parameters", f"{ep}: a redirection carries no parameters", p)
        return 1
    if O.base_uri(I, L) is None:
        C.gap(f"{ep}: the target of a redirection is not understood: {show(t)[:80]}")
        return 1
    if L.tail:
        C.bad("joined", f"{ep}: something follows the parameters of a redirection: {show(L.tail[0])[:40]}", p)
    want = "&" if q else "?"
    if L.sep != want:
        C.bad("joined", f"{ep}: parameters are joined to a URI that has {'a' if q else 'no'} query by {L.sep!r}", p)
    names = [k for k, _ in L.pairs]
    for k in names:
        if not isinstance(k, str) or k not in KNOWN:
            C.bad("parameters", f"{ep}: a redirection carries the parameter {show(k)[:40]}", p)
        elif names.count(k) > 1:
            C.bad("parameters", f"{ep}: a redirection carries {k} twice", p)
    for k, v in L.pairs:
        if v is None or v == "" or v == "None":
            C.bad("parameters", f"{ep}: a redirection carries an empty {k}", p)
    err = L.get("error")
    if bool(err) == bool(L.get("code")):
        C.bad("parameters", f"{ep}: a redirection carries {'a code and an error' if err else 'neither a code nor an error'}", p)
    if err and not (isinstance(err[0], str) and err[0] in ERRORS):
        C.bad("parameters", f"{ep}: a redirection carries the error code {show(err[0])[:40]}", p)
    return 1


def M_parts(I, t):
    return O.M.parts(I, t)


def nested(t, inside=False, seen=None):
    """Parameters that are encoded once more."""
    if isinstance(t, Term):
        if t.op == "qs" and inside:
            return [t]
        out = []
        for a in t.args:
            out += nested(a, inside or t.op in ("quote", "qs"))
        return out
    if isinstance(t, tuple):
        return [x for a in t for x in nested(a, inside)]
    return []
