"""Abstract inputs of the OAuth 2.0 / OpenID Connect part: a provider, the application's
adapter and models, requests, and the reading of responses.

The adapter and the models are the application's code.  They are replaced by stand-ins
that obey the documented contract (the abstract methods of the library) and otherwise
answer arbitrarily; every call the library makes on them is recorded.
"""

from __future__ import annotations

import ast

from . import models as M
from . import ext, jose as J
from .ctx import Ctx, Scenario
from .values import *
from .values import T_ANY, T_BYTES, T_DICT, T_INT, T_JSON, T_OBJ, T_STR

STUB = '''
from urllib.parse import urlparse
from psion.oauth2.adapter import BaseAdapter
from psion.oauth2.mixins import AuthorizationCodeMixin, ClientMixin, RefreshTokenMixin, UserMixin

class Adapter(BaseAdapter):
    async def find_user(self, user_id):
        return psa_call("find_user", user_id)
    async def find_client(self, client_id):
        return psa_call("find_client", client_id)
    async def save_authorization_code(self, code, data, client, user):
        return psa_call("save_authorization_code", code, data, client, user)
    async def get_authorization_code(self, code):
        return psa_call("get_authorization_code", code)
    async def delete_authorization_code(self, code):
        return psa_call("delete_authorization_code", code)
    async def create_access_token(self, client, resource_owner, scopes):
        return psa_call("create_access_token", client, resource_owner, scopes)
    async def get_userinfo(self, user, scopes):
        return psa_call("get_userinfo", user, scopes)
    async def get_key_info(self):
        return psa_call("get_key_info")
    async def create_refresh_token(self, client, user, scopes):
        return psa_call("create_refresh_token", client, user, scopes)
    async def get_refresh_token(self, refresh_token):
        return psa_call("get_refresh_token", refresh_token)
    async def revoke_token(self, client, token, token_type_hint=None):
        return psa_call("revoke_token", client, token, token_type_hint)

class ApplicationError(Exception):
    pass


class Client(ClientMixin):
    def __init__(self, ident):
        self.ident = ident
    def get_client_id(self):
        return psa_get("client", self, "id")
    def get_client_secret(self):
        return psa_get("client", self, "secret")
    def get_client_public_key(self, key_id):
        return None
    def get_allowed_scopes(self, scopes):
        return psa_get("client", self, "allowed", scopes)
    def get_redirect_uris(self):
        return psa_get("client", self, "uris")
    def get_token_endpoint_auth_method(self):
        return psa_get("client", self, "auth_method")
    def get_grant_types(self):
        return psa_get("client", self, "grant_types")
    def get_response_types(self):
        return psa_get("client", self, "response_types")

class Code(AuthorizationCodeMixin):
    def __init__(self, ident):
        self.ident = ident
    def get_client_id(self):
        return psa_get("code", self, "client_id")
    def get_user_id(self):
        return psa_get("code", self, "user_id")
    def get_redirect_uri(self):
        return psa_get("code", self, "redirect_uri")
    def get_scopes(self):
        return psa_get("code", self, "scopes")
    def get_code_challenge(self):
        return psa_get("code", self, "challenge")
    def get_code_challenge_method(self):
        return psa_get("code", self, "method")
    def get_nonce(self):
        return psa_get("code", self, "nonce")
    def get_auth_time(self):
        return psa_get("code", self, "auth_time")
    def get_expiration(self):
        return psa_get("code", self, "expiration")

class Refresh(RefreshTokenMixin):
    def __init__(self, ident):
        self.ident = ident
    def get_refresh_token(self):
        return self.ident
    def get_client_id(self):
        return psa_get("refresh", self, "client_id")
    def get_user_id(self):
        return psa_get("refresh", self, "user_id")
    def get_scopes(self):
        return psa_get("refresh", self, "scopes")
    def get_expiration(self):
        return psa_get("refresh", self, "expiration")

class WebRequest:
    """What the library uses of the web framework's request."""
    def __init__(self, method, url, headers, content, user):
        self.method = method
        self.url = WebURL(url)
        self.headers = WebHeaders(headers)
        self.content = content
        self.user = user
        self.scope = {"type": "http", "method": method, "user": user}
    async def body(self):
        return self.content
    async def stream(self):
        # the body comes in pieces
        if isinstance(self.content, bytes) and self.content:
            yield self.content[:psa_chunk]
            yield self.content[psa_chunk:]
        yield b""
    def __getattr__(self, name):
        return psa_unmodelled("request." + name)

class WebURL:
    def __init__(self, url):
        self._url = url
    def __str__(self):
        return self._url
    def __eq__(self, other):
        return str(self) == str(other)
    def replace(self, **kwargs):
        return WebURL(urlparse(self._url)._replace(**kwargs).geturl())
    def __getattr__(self, name):
        if name in ("path", "query", "fragment", "scheme", "netloc", "hostname", "port", "username", "password"):
            return getattr(urlparse(self._url), name)
        return psa_unmodelled("request.url." + name)

class WebHeaders(dict):
    """Names are compared without regard to case."""
    def __getitem__(self, key):
        return super().__getitem__(key.lower())
    def get(self, key, default=None):
        return super().get(key.lower(), default)
    def __contains__(self, key):
        return super().__contains__(key.lower())
    def getlist(self, key):
        return [super().get(key.lower())] if key in self else []

class User(UserMixin):
    def __init__(self, ident):
        self.ident = ident
    def get_user_id(self):
        return self.ident
'''


def word(name, **meta):
    """A non-empty text without white space."""
    t = J.sym(name, T_STR, nonempty=True, **meta)
    t.meta["nosep"] = (" ", b" ")
    return t


def txt(name, **meta):
    return J.sym(name, T_STR, nonempty=True, **meta)


# ------------------------------------------------------------------ the world
ISSUER, ERROR_URL = txt("issuer"), txt("error-url")
LIFESPAN, ID_LIFESPAN = J.sym("token-lifespan", T_INT, positive=True), J.sym("id-token-lifespan", T_INT, positive=True)
QUERY = J.sym("query", T_STR)
BODY, BODY2 = J.sym("body", T_BYTES), J.sym("body2", T_BYTES)
URL = J.sym("request-url", T_STR, nonempty=True)
URL.meta["url"] = {"scheme": "https", "netloc": txt("host"), "path": txt("path"), "query": QUERY, "fragment": "",
                   "params": ""}
AUTH = J.sym("authorization", T_STR)
URI = [txt(f"registered-uri{i}") for i in range(2)]
SCOPE = [word(f"provider-scope{i}") for i in range(2)]
SECRET = txt("client-secret")
CODE_CLIENT, CODE_USER, CODE_URI = txt("code.client-id"), txt("code.user-id"), txt("code.redirect-uri")
CHALLENGE, METHOD = txt("code.challenge"), J.sym("code.challenge-method", T_STR | {"none"})
NONCE = J.sym("code.nonce", T_STR | {"none"})
CODE_EXP, REFRESH_EXP = J.sym("code.expiration", T_INT), J.sym("refresh.expiration", T_INT)
CODE_SCOPE = [word("code-scope0"), word("code-scope1")]
REFRESH_CLIENT, REFRESH_USER = txt("refresh.client-id"), txt("refresh.user-id")
REFRESH_SCOPE = [word("refresh-scope0"), word("refresh-scope1")]
SESSION_USER = txt("session-user-id")
ACCESS, REFRESH = txt("issued-access-token"), txt("issued-refresh-token")
DEFAULT_SCOPE = word("client-default-scope")
SUB = txt("userinfo.sub")
OTHER_TYPE = txt("other-response-type")
NOW = ext.NOW


def param(where, name):
    """A parameter of the query or the body."""
    t = Term("param", (where, name), T_STR)
    t.meta["nonempty"] = True
    return t


def psrc(where):
    f = {"query": QUERY, "body": BODY, "body2": BODY2}[where]
    return Term("qsrc", (f, False), T_DICT)


class World:
    """What the application's storage answers."""

    def __init__(self, **kw):
        self.client = {"secret": SECRET, "uris": URI, "auth_method": J.sym("client.auth-method", T_STR, nonempty=True),
                       "grant_types": ["authorization_code", "refresh_token", "client_credentials"],
                       "response_types": ["code"]}
        self.code = {"client_id": CODE_CLIENT, "user_id": CODE_USER, "redirect_uri": CODE_URI, "scopes": CODE_SCOPE,
                     "challenge": CHALLENGE, "method": METHOD, "nonce": NONCE,
                     "auth_time": J.sym("code.auth-time", T_INT), "expiration": ext.dt("naive", CODE_EXP)}
        self.refresh = {"client_id": REFRESH_CLIENT, "user_id": REFRESH_USER, "scopes": REFRESH_SCOPE,
                        "expiration": ext.dt("naive", REFRESH_EXP)}
        self.key = ("RSA", "RS256")
        self.exists = {}       # name of the lookup -> True / False / None (both)
        self.allowed = None    # None: decided per scope; else a function scope -> bool or None
        self.allowed_only = None  # the application answers with these, whatever was asked for
        self.lifespan, self.id_lifespan = LIFESPAN, ID_LIFESPAN
        self.fault = None      # (method, exception): this call of the adapter fails
        self.userinfo = {"sub": SUB}
        self.default_scopes = [DEFAULT_SCOPE]
        self.subject = {}      # name of the lookup -> the identifier that `exists` speaks of
        self.before = {}       # (kind, name) -> what an object says that was handed out before the storage changed
        for k, v in kw.items():
            if k in ("client", "code", "refresh"):
                getattr(self, k).update(v)
            else:
                setattr(self, k, v)


def state(I):
    c = I.ctx
    if not hasattr(c, "world"):
        c.world = {"objs": {}, "vals": {}, "deleted": set(), "n": {}}
    return c.world


def old(fn):
    """Run with the phase of objects that outlive the request."""
    ph = Mutable.cur_phase
    Mutable.cur_phase = min(ph, 1)
    try:
        return fn()
    finally:
        Mutable.cur_phase = ph


def as_key(I, v):
    v = I.ctx.n(v)
    if isinstance(v, AObj) and v.payload is not None:
        v = I.ctx.n(v.payload)
    return v


def obj(I, cls, ident):
    w = state(I)["objs"]
    k = (cls, ckey(ident), state(I).get("epoch", 1))
    if k not in w:
        w[k] = old(lambda: I.call(I.modules["psaworld"].attrs[cls], [ident], {}))
        w[k].attrs["epoch"] = k[2]
    return w[k]


def psa_get(I, a, k):
    kind, o, name = a[:3]
    ident, epoch = o.attrs["ident"], o.attrs.get("epoch", 1)
    w = I.ctx.scenario.world
    if kind == "client" and name == "id":
        return ident
    if kind == "client" and name == "allowed":
        s = I.ctx.n(a[3]) if len(a) > 3 else None
        I.ctx.event("allowed", client=ident, scopes=s)
        if s is None:
            d = w.default_scopes
            return fresh_list(I, d(I, ident) if callable(d) else d)
        if w.allowed_only is not None:
            return fresh_list(I, w.allowed_only)
        out = []
        for x in list(M.iterate(I, s)):
            x = as_key(I, x)
            may = w.before.get("allowed", w.allowed) if epoch == 0 else w.allowed
            v = may(x) if may else None
            if v is None:
                v = answer(I, "allowed", (ident, x))
            if v:
                out.append(x)
        return fresh_list(I, out)
    v = getattr(w, kind)[name]
    if epoch == 0:
        v = w.before.get((kind, name), v)
    if callable(v):
        v = v(I, ident)
    if isinstance(v, (list, tuple)):
        key = (kind, ckey(ident), name, epoch)
        vals = state(I)["vals"]
        if key not in vals:
            vals[key] = old(lambda: AList(list(v)))
            vals[key].label = f"the {name} of the {kind}"
        return vals[key]
    return v


def fresh_list(I, items):
    return AList(list(items))


def exists(I, name, ident):
    w = I.ctx.scenario.world
    v = w.exists.get(name)
    if state(I).get("epoch", 1) == 0:
        v = w.before.get(("exists", name), v)
    if callable(v):
        v = v(ident)
    t = w.subject.get(name)
    if t is not None and v in (True, False) and name in w.exists:
        # the one that is presented is (not) there; with any other it is the other way round
        v = same(I, ident, t) == v
    if v is None:
        v = answer(I, "exists:" + name, (ident,))
    return v


def answer(I, kind, args):
    """The application answers the same question in the same way."""
    for (k, *a), v in list(I.ctx.facts.items()):
        if k == kind and len(a) == len(args) and all(same(I, ckey_value(x), y) for x, y in zip(a, args)):
            return v
    return I.ctx.choose(kind, args, [True, False])


def consistent(I):
    """No two answers of the application about the same thing differ."""
    seen = []
    for (k, *a), v in I.ctx.facts.items():
        if k == "allowed" or isinstance(k, str) and k.startswith("exists:"):
            xs = [ckey_value(x) for x in a]
            for k2, ys, v2 in seen:
                if k2 == k and v2 != v and all(same(I, x, y) for x, y in zip(xs, ys)):
                    return False
            seen.append((k, xs, v))
    return True


def psa_unmodelled(I, a, k):
    if a[0].rsplit(".", 1)[1].startswith("__"):
        I.throw("AttributeError", a[0])
    raise Unsupported(a[0])


def psa_call(I, a, k):
    name, args = a[0], list(a[1:])
    w = I.ctx.scenario.world
    st = state(I)
    n = st["n"][name] = st["n"].get(name, 0) + 1
    inter = st.get("between")
    if inter is not None:
        inter["count"] += 1
        if inter["count"] == inter["at"]:
            st["between"] = None
            inter["run"]()
    pictured = [M.freeze(I, x) if isinstance(I.ctx.n(x), (ADict, AList)) else I.ctx.n(x) for x in args]
    ev = I.ctx.event("adapter", name=name, args=pictured, n=n)
    if w.fault is not None and w.fault[0] == name and (len(w.fault) < 3 or w.fault[2] == n):
        ev["failed"] = True
        if w.fault[1] == "CancelledError":
            ext.throw_ext(I, "asyncio.CancelledError")
        if w.fault[1] == "ApplicationError":
            raise PyExc(I.call(I.modules["psaworld"].attrs["ApplicationError"], ["the adapter fails"], {}), I.ctx.where())
        if w.fault[1].startswith("psion."):
            raise PyExc(I.call(at(I, w.fault[1]), ["the adapter fails"], {}), I.ctx.where())
        I.throw(w.fault[1], "the adapter fails")
    if name == "find_client":
        i = as_key(I, args[0])
        return obj(I, "Client", i) if exists(I, "client", i) else None
    if name == "find_user":
        i = as_key(I, args[0])
        return obj(I, "User", i) if exists(I, "user", i) else None
    if name == "get_authorization_code":
        i = as_key(I, args[0])
        if ckey(i) in st["deleted"]:
            return None
        return obj(I, "Code", i) if exists(I, "code", i) else None
    if name == "delete_authorization_code":
        st["deleted"].add(ckey(as_key(I, args[0])))
        return None
    if name == "get_refresh_token":
        i = as_key(I, args[0])
        return obj(I, "Refresh", i) if exists(I, "refresh", i) else None
    if name == "create_access_token":
        return ACCESS if n == 1 else txt(f"issued-access-token{n}")
    if name == "create_refresh_token":
        return REFRESH if n == 1 else txt(f"issued-refresh-token{n}")
    if name == "get_userinfo":
        return J.adict(dict(w.userinfo(I, args) if callable(w.userinfo) else w.userinfo))
    if name == "get_key_info":
        key = st["objs"].get("key" if st.get("epoch", 1) else "other key")
        return J.adict({"key": key, "alg": w.key[1]})
    return None


FAULTS = ("RuntimeError", "CancelledError", "ApplicationError", "OSError", "TimeoutError", "ConnectionError", "KeyError", "IndexError",
          "ValueError", "TypeError", "AttributeError", "AssertionError", "NotImplementedError", "StopAsyncIteration", "MemoryError",
          "PermissionError", "KeyboardInterrupt", "psion.oauth2.exceptions.InvalidRequest", "psion.oauth2.exceptions.ServerError")


def install(I):
    """Adds the stand-ins to the program."""
    if "psaworld" in I.program.asts:
        return
    Mutable.cur_phase = 0
    I.program.asts["psaworld"] = ast.parse(STUB, "psaworld.py")
    I.program.paths["psaworld"] = ("psaworld.py", False)
    I.program.sources["psaworld"] = STUB
    I.ctx = Ctx(Scenario("import"))
    I.models.B["psa_call"] = ABuiltin("psa_call", psa_call)
    I.models.B["psa_get"] = ABuiltin("psa_get", psa_get)
    I.models.B["psa_chunk"] = J.sym("size of the first piece", T_INT, positive=True)
    I.models.B["psa_unmodelled"] = ABuiltin("psa_unmodelled", psa_unmodelled)
    I.import_module("psaworld")
    I.ctx.saved = {}


GRANTS = ("authorization_code", "refresh_token", "client_credentials")
GRANT_CLASS = {"authorization_code": "AuthorizationCodeGrant", "refresh_token": "RefreshTokenGrant",
               "client_credentials": "ClientCredentialsGrant"}


def at(I, path):
    """A class by its dotted name."""
    mod, name = path.rsplit(".", 1)
    m = I.import_module(mod)
    return m.attrs[name]


def provider(I, oidc=False, grants=GRANTS, scopes=None, which=None):
    w = I.ctx.scenario.world
    kind, alg = which or w.key
    key = J.make_key(I, kind, True, kid="key-1")
    state(I)["objs"]["key"] = key
    other = J.make_key(I, kind, True, tag="2", kid="key-0")
    state(I)["objs"]["other key"] = other
    ks = I.call(at(I, "psion.jose.JsonWebKeySet"), [AList([other, key])], {})
    Scope = at(I, "psion.oauth2.models.Scope")
    scopes = scopes if scopes is not None else ["openid"] + SCOPE
    p = I.call(at(I, "psion.oauth2.providers.StarletteProvider"), [ISSUER], {
        "adapter": I.modules["psaworld"].attrs["Adapter"],
        "grants": AList([at(I, "psion.oauth2.grants." + GRANT_CLASS[g]) for g in grants]),
        "scopes": AList([I.call(Scope, [s], {}) for s in scopes]),
        "keyset": ks, "error_url": ERROR_URL, "token_lifespan": w.lifespan, "id_token_lifespan": w.id_lifespan})
    if oidc:
        I.call(I.getattr(p, "add_hook"), [at(I, "psion.oauth2.grants.AuthorizationCodeGrant"),
                                          at(I, "psion.oidc.AuthorizationCodeFlow")], {})
    return p


def request(I, method="POST", headers=None, body=BODY, url=URL, user=None):
    h = J.adict(headers or {})
    u = obj(I, "User", user) if user is not None else None
    return I.call(at(I, "psion.oauth2.models.Request"), [method, url, h, body, u], {})


def endpoint(name, oidc=False, grants=GRANTS, method=None, headers=None, user=None, body=BODY, url=URL, scopes=None):
    """The entry point: build the provider, then handle one request."""
    def entry(I):
        p = provider(I, oidc, grants, scopes)
        Mutable.cur_phase = 2
        r = request(I, method or ("GET" if name in ("authorize", "consent") else "POST"), headers, body, url, user)
        if name == "consent":
            f = I.getattr(I.getattr(p, "authorize"), "get_consent_data")
        else:
            f = I.getattr(p, name)
        return I.await_(I.call(f, [r], {}))
    return entry


# ------------------------------------------------------------------ scenarios
AUTHZ_PARAMS = ("client_id", "redirect_uri", "response_type", "state", "scope", "code_challenge", "code_challenge_method",
                "nonce")
TOKEN_PARAMS = ("grant_type", "code", "redirect_uri", "code_verifier", "client_id", "client_secret", "refresh_token",
                "scope", "token", "token_type_hint", "state")


VOCABULARY = frozenset((
    "client_id", "client_secret", "response_type", "redirect_uri", "scope", "state", "code_challenge", "code_challenge_method",
    "response_mode", "nonce", "prompt", "max_age", "ui_locales", "id_token_hint", "login_hint", "acr_values", "display",
    "grant_type", "code", "code_verifier", "refresh_token", "token", "token_type_hint"))


def scenario(name, world=None, query=(), body=(), open_query=(), open_body=(), closed_query=VOCABULARY, closed_body=VOCABULARY,
             body2=()):
    """Parameters in `query`/`body` are there, those in `closed_*` are not unless they are in `open_*`; any other may be."""
    sc = Scenario(name)
    sc.world = world or World()
    sc.fact("utf8", BODY, value=True), sc.fact("utf8", BODY2, value=True)
    for where, have, opn, closed in (("query", query, open_query, closed_query), ("body", body, open_body, closed_body),
                                     ("body2", body2, (), VOCABULARY)):
        s = psrc(where)

        def f(ctx, kind, args, s=s, have=frozenset(have), opn=frozenset(opn), closed=frozenset(closed)):
            if kind == "present" and args[0] is s and isinstance(args[1], str):
                if args[1] in opn:
                    return None
                return True if args[1] in have else False if args[1] in closed else None
            return None
        sc.oracle(f)
        if have:
            sc.fact("nonempty", s, value=True)
        elif not opn and closed is VOCABULARY:
            sc.fact("nonempty", s, value=False)
    return sc


# ------------------------------------------------------------------ reading responses
class Resp:
    """What a response object says: status, headers, body; `why` if it cannot be read."""

    def __init__(self, I, v):
        self.I = I
        self.why = None
        self.v = v
        v = I.ctx.n(v)
        self.ok = isinstance(v, AObj) and v.cls.issub(at(I, "psion.oauth2.models.Response"))
        if not self.ok:
            self.why = f"the result is {show(v)[:60]}"
            return
        self.status = I.ctx.n(v.attrs.get("status_code"))
        self.headers = {}
        h = J.mapping_of(I, v.attrs.get("headers"))
        if isinstance(h, ADict):
            for e in h.entries.values():
                self.headers[e.key.lower() if isinstance(e.key, str) else e.key] = (e.key, I.ctx.n(e.val))
        self.body = I.ctx.n(v.attrs.get("body"))

    def header(self, name):
        e = self.headers.get(name.lower())
        return e[1] if e else None

    def location(self):
        return self.header("location")

    def json(self):
        """The decoded body: an abstract value, or a Term if unknown."""
        b = self.body
        if isinstance(b, (bytes, str)):
            import json
            try:
                from . import methods as MM
                return MM.lift(json.loads(b))
            except ValueError:
                return None
        if isinstance(b, Term) and b.op == "enc":
            b = b.args[0]
        if isinstance(b, Term) and b.op == "json":
            return M.thaw(self.I, b.args[0])
        return b

    def members(self):
        d = self.json()
        if isinstance(d, ADict):
            return {e.key: self.I.ctx.n(e.val) for e in d.entries.values()}
        return None


def unquoted(t):
    return t.args[0] if isinstance(t, Term) and t.op == "quote" else t


class Location:
    """A redirection target: what comes before the parameters, and the parameters.

    `raw`: parts of the parameters that are not encoded as such."""

    def __init__(self, I, t):
        self.base, self.pairs, self.tail, self.raw = [], [], [], []
        self.sep = ""
        ps = M.parts(I, t)
        rest = None
        for i, p in enumerate(ps):
            if isinstance(p, Term) and p.op == "qs":
                rest = list(ps[i:])
                break
            if isinstance(p, str):
                k = min([x for x in (p.find("?"), p.find("&")) if x >= 0], default=-1)
                if k >= 0 and (self.base or k > 0):
                    if p[:k]:
                        self.base.append(p[:k])
                    self.sep = p[k]
                    rest = ([p[k + 1:]] if p[k + 1:] else []) + list(ps[i + 1:])
                    break
            self.base.append(unquoted(p))
        segs, cur = [], []
        for p in rest or ():
            if isinstance(p, str):
                frag = p.split("#", 1)
                if len(frag) > 1:
                    self.tail.append("#" + frag[1])
                bits = frag[0].split("&")
                for n, b in enumerate(bits):
                    if n:
                        segs.append(cur)
                        cur = []
                    if b:
                        cur.append(b)
            else:
                cur.append(p)
        segs.append(cur)
        for seg in segs:
            if not seg:
                continue
            if len(seg) == 1 and isinstance(seg[0], Term) and seg[0].op == "qs":
                self.pairs += [(k, v) for k, v in seg[0].args]
                continue
            if any(isinstance(x, Term) and x.op == "qs" for x in seg):
                self.tail += seg
                continue
            key, val, got = [], [], False
            for x in seg:
                if isinstance(x, str) and not got and "=" in x:
                    a, b = x.split("=", 1)
                    key.append(ext._up.unquote_plus(a))
                    if b:
                        val.append(ext._up.unquote_plus(b))
                    got = True
                else:
                    y = ext._up.unquote_plus(x) if isinstance(x, str) else self.decoded(x)
                    (val if got else key).append(y)
            mk = lambda xs: M.mk_cat(I, "str", xs)
            self.pairs.append((mk(key), mk(val)))

    def decoded(self, x):
        if isinstance(x, Term) and x.op == "quote" and isinstance(x.args[1], str) and not set(x.args[1]) & set("&=+%#? "):
            return x.args[0]
        if isinstance(x, Term) and x.op in ("b64", "dec", "rand"):
            return x  # made of characters that need no encoding
        self.raw.append(x)
        return unquoted(x)

    def get(self, name):
        return [v for k, v in self.pairs if k == name]


def calls(p, *names):
    """The calls of the adapter on a path."""
    return [e for e in p.events if e["kind"] == "adapter" and e["name"] in names]


AUTHZ = ("client_id", "redirect_uri", "response_type", "state", "scope", "code_challenge", "code_challenge_method")


def authz(name, world=None, have=AUTHZ, where="query", good=True, also=()):
    """An authorization request; `good`: the parameters that are there are acceptable."""
    have = tuple(have) + tuple(also)
    sc = scenario(name, world, **{where: have, "closed_" + where: AUTHZ_PARAMS})
    P = lambda n: param(where, n)
    sc.world.subject["client"] = P("client_id")
    if good:
        sc.eq(P("redirect_uri"), URI[0])
        sc.eq(URI[0], URI[1], False)
        sc.eq(P("response_type"), "code")
        sc.eq(P("code_challenge_method"), "S256")
        ln = Term("len", (P("code_challenge"),), T_INT)
        sc.bound(ln, 43, {0, 1})
        sc.bound(ln, 128, {0, -1})
        few_words(sc, P("scope"), 1)
        sc.eq(Term("word", (P("scope"), 0), T_STR), SCOPE[0])
        sc.world.allowed = sc.world.allowed or (lambda s: True)
        sc.world.exists.setdefault("client", True)
        no_question_mark(sc)
    return sc


def few_words(sc, t, n):
    sc.oracle(lambda ctx, kind, args: n if kind == "nwords" and args[0] is t else None)


MANY = 70  # long lists: beyond what a cut-off of an implementation would be
MANY_URIS = [f"https://client{i}.example/cb" for i in range(MANY)]
MANY_SCOPES = [f"many-{i}" for i in range(MANY)]
MANY_TYPES = [f"urn:example:type-{i}" for i in range(MANY)]


def amid(item, many=MANY_TYPES):
    """Lists in which an item is the first, one in the middle, the last of many."""
    h = len(many) // 2
    return [[item] + many, many[:h] + [item] + many[h:], many + [item]]


def pin(sc, t, value):
    """Let a text of the scenario be this constant, whatever was said of it before."""
    sc.eqs = [e for e in sc.eqs if not any(x is t or isinstance(x, Term) and x.op == "word" and x.args[0] is t for x in e[:2])]
    sc.eq(t, value)
    return sc


def no_question_mark(sc, yes=False):
    def f(ctx, kind, args):
        if kind == "contains" and args[1] == "?":
            return yes
        return None
    sc.oracle(f)


def basic(I, cid, secret):
    raw = M.mk_cat(I, "str", [cid, ":", secret])
    e = M.mk_cat(I, "bytes", [Term("enc", (p,), T_BYTES) if isinstance(p, Term) else p.encode() for p in M.parts(I, raw)])
    b = Term("b64", ("std", True, e), T_BYTES)
    b.meta.update(ascii=True, nonempty=True)
    t = Term("dec", (b,), T_STR)
    t.meta.update(ascii=True, nonempty=True, nosep=(" ", b" "))
    return M.mk_cat(I, "str", ["Basic ", t])


BASIC_ID, BASIC_SECRET = txt("basic.client-id"), txt("basic.client-secret")
for _t in (BASIC_ID,):
    _t.meta["nosep"] = (":", b":")


BASIC2_ID, BASIC2_SECRET = txt("second basic.client-id"), txt("second basic.client-secret")
BASIC2_ID.meta["nosep"] = (":", b":")


class Auth:
    """A way of presenting client credentials: headers, parameters and facts."""

    def __init__(self, how):
        self.how = how
        self.params = {"basic": (), "post": ("client_id", "client_secret"), "none": ("client_id",), "nothing": ()}[how]
        self.cid = BASIC_ID if how == "basic" else param("body", "client_id")
        self.secret = BASIC_SECRET if how == "basic" else param("body", "client_secret") if how == "post" else None

    def headers(self, I):
        return {"Authorization": basic(I, BASIC_ID, BASIC_SECRET)} if self.how == "basic" else {}

    def world(self, **kw):
        c = dict(kw.pop("client", {}))
        c.setdefault("secret", None if self.how == "none" else SECRET)
        c.setdefault("auth_method", {"basic": "client_secret_basic", "post": "client_secret_post", "none": "none"}.get(
            self.how, "client_secret_basic"))
        return World(client=c, **kw)

    def right(self, sc):
        if self.secret is not None:
            sc.eq(self.secret, SECRET)
        sc.world.exists.setdefault("client", True)
        return sc


AUTHS = ("basic", "post", "none")
TOKEN_OF = {"authorization_code": ("grant_type", "code", "redirect_uri", "code_verifier"),
            "refresh_token": ("grant_type", "refresh_token"),
            "client_credentials": ("grant_type",)}


def s256(verifier):
    d = Term("hash", ("sha256", Term("enc", (verifier,), T_BYTES)), T_BYTES)
    return d


def token(name, grant, how, world=None, have=None, also=(), good=True, auth_ok=True):
    """A token request with the grant `grant`, authenticated `how`."""
    a = Auth(how)
    w = world or a.world()
    have = tuple(TOKEN_OF[grant] if have is None else have) + tuple(also) + a.params
    closed = TOKEN_OF[grant] + ("client_id", "client_secret") + (() if grant == "authorization_code" else ("scope",))
    sc = scenario(name, w, body=have, closed_body=closed, closed_query=closed)
    P = lambda n: param("body", n)
    sc.eq(P("grant_type"), grant)
    if auth_ok:
        a.right(sc)
    sc.auth = a
    if how != "nothing":
        w.subject["client"] = a.cid
    w.subject.update(code=P("code"), refresh=P("refresh_token"),
                     user={"authorization_code": CODE_USER, "refresh_token": REFRESH_USER}.get(grant))
    if good:
        sc.eq(URI[0], URI[1], False)
        if grant == "authorization_code":
            sc.eq(P("redirect_uri"), URI[0])
            sc.eq(CODE_URI, URI[0])
            sc.eq(CODE_CLIENT, a.cid)
            sc.eq(METHOD, "S256")
            sc.bound(CODE_EXP, NOW, {1})
            for n in ("code", "user"):
                w.exists.setdefault(n, True)
            pkce(sc, True)
            sc.fact("ascii", P("code_verifier"), value=True)
        if grant == "refresh_token":
            sc.eq(REFRESH_CLIENT, a.cid)
            sc.bound(REFRESH_EXP, NOW, {1})
            for n in ("refresh", "user"):
                w.exists.setdefault(n, True)
            for i in range(2):
                sc.eq(REFRESH_SCOPE[i], SCOPE[i])
        if "scope" in have:
            few_words(sc, P("scope"), 1)
            sc.eq(Term("word", (P("scope"), 0), T_STR), SCOPE[0])
        w.allowed = w.allowed or (lambda s: True)
    return sc


def is_s256(I, t, verifier):
    """Is `t` BASE64URL(SHA256(ASCII(verifier))) ?"""
    if isinstance(t, Term) and t.op == "dec":
        t = t.args[0]
    if not (isinstance(t, Term) and t.op == "b64" and t.args[0] == "url" and t.args[1] is False):
        return False
    h = t.args[2]
    return isinstance(h, Term) and h.op == "hash" and str(h.args[0]).lower() == "sha256" and h.args[1] is Term("enc", (verifier,), T_BYTES)


def pkce(sc, ok, plain=None, where="body"):
    """The verifier matches the challenge by S256 (`ok`) and by plain comparison (`plain`)."""
    v = param(where, "code_verifier")

    def f(ctx, kind, args):
        if kind != "eq" or not any(a is CHALLENGE for a in args):
            return None
        o = args[0] if args[1] is CHALLENGE else args[1]
        if is_s256(None, o, v):
            return ok
        if o is v and plain is not None:
            return plain
        return None
    sc.oracle(f)


def call_token(sc, oidc=False, **kw):
    def entry(I):
        return endpoint("token", oidc, headers=sc.auth.headers(I), **kw)(I)
    return entry


def revoke(name, how, world=None, have=("token", "token_type_hint"), auth_ok=True):
    a = Auth(how)
    w = world or a.world()
    sc = scenario(name, w, body=tuple(have) + a.params, closed_query=(),
                  closed_body=("token", "token_type_hint", "client_id", "client_secret"))
    if auth_ok:
        a.right(sc)
    sc.auth = a
    return sc


def call_revoke(sc, oidc=False, **kw):
    def entry(I):
        return endpoint("revoke", oidc, headers=sc.auth.headers(I), **kw)(I)
    return entry


def setup(C):
    install(C.I)


def base_uri(I, loc):
    """The URI a location redirects to: a Term or constant; None if it is not understood."""
    b = loc.base
    if len(b) != 1:
        return None
    t = b[0]
    while isinstance(t, Term) and t.op in ("url:base", "url:with", "quote"):
        t = t.args[0]
    return I.ctx.n(t)


def same(I, a, b):
    a, b = as_key(I, a), as_key(I, b)
    if a is b:
        return True
    if isinstance(a, (Term,) + NATIVE) and isinstance(b, (Term,) + NATIVE):
        return I.ctx.known_eq(a, b) is True
    return False


def is_obj(I, v, cls, ident):
    """Is `v` the application's object of that class with that identifier?"""
    v = I.ctx.n(v)
    return isinstance(v, AObj) and v.cls.name == cls and "ident" in v.attrs and same(I, v.attrs["ident"], ident)


def listed(I, v):
    """The members of a (frozen) list or set whose members are known."""
    v = I.ctx.n(v)
    if isinstance(v, Term):
        v = M.thaw(I, v)
    if isinstance(v, AList):
        v = v.items
    if isinstance(v, (list, tuple)):
        return [as_key(I, x) for x in v]
    return None


def same_set(I, a, b):
    a, b = [I.ctx.n(x) for x in a], [I.ctx.n(x) for x in b]
    return all(any(same(I, x, y) for y in b) for x in a) and all(any(same(I, x, y) for y in a) for x in b)


def few_words_first(sc, t, n):
    """As few_words, but overrules what the scenario said before."""
    sc.oracles.insert(0, lambda ctx, kind, args: n if kind == "nwords" and args[0] is t else None)


def ckey_value(k):
    """The value behind a key of the fact table."""
    return k[2] if isinstance(k, tuple) and len(k) == 3 and k[0] == "c" else k


def split_words(I, t):
    """The words of a text put together from words and single blanks."""
    out, cur = [], []
    for p in M.parts(I, t):
        if isinstance(p, str):
            bits = p.split(" ")
            for i, b in enumerate(bits):
                if i:
                    if cur:
                        out.append(cur)
                    cur = []
                if b:
                    cur.append(b)
        else:
            cur.append(p)
    if cur:
        out.append(cur)
    if any(len(x) != 1 for x in out):
        return None
    return [x[0] for x in out]


ONE_WAY = ("sig", "mac", "hash", "rsakey", "eckey")


def mentions(I, v, targets, seen=None):
    """Those of `targets` (symbols) that occur in a value other than behind a one-way function."""
    seen = set() if seen is None else seen
    if isinstance(v, Term):
        if v in seen:
            return set()
        seen.add(v)
        if v in targets:
            return {v}
        if v.op in ONE_WAY:
            return set()
        out = set()
        w = I.ctx.n(v)
        if w is not v:
            out |= mentions(I, w, targets, seen)
        for a in v.args:
            out |= mentions(I, a, targets, seen)
        return out
    if isinstance(v, (tuple, list)):
        return set().union(*[mentions(I, a, targets, seen) for a in v]) if v else set()
    if isinstance(v, NATIVE) or id(v) in seen:
        return set()
    seen.add(id(v))
    if isinstance(v, (AList, ASet)):
        return mentions(I, list(v.items), targets, seen)
    if isinstance(v, ADict):
        return mentions(I, [x for e in v.entries.values() for x in (e.key, e.val)], targets, seen)
    if isinstance(v, AObj):
        return mentions(I, [v.payload] + list(v.attrs.values()), targets, seen)
    if isinstance(v, ExtObj):
        return mentions(I, list(v.attrs.values()), targets, seen)
    return set()


# ------------------------------------------------------------------ several requests
URL_PLAIN = J.sym("other-url", T_STR, nonempty=True)
URL_PLAIN.meta["url"] = {"scheme": "https", "netloc": txt("host"), "path": txt("path"), "query": "", "fragment": "",
                         "params": ""}


class Picture:
    """What a request did, as a comparable value: the response and the calls of the application."""

    def __init__(self, I):
        self.I = I
        self.names = {}

    def of(self, v, depth=0):
        I = self.I
        v = I.ctx.n(v)
        if depth > 30:
            return "..."
        if isinstance(v, Term):
            if v.op == "rand":
                return ("rand", self.names.setdefault(v.args[0], len(self.names)), v.args[1:])
            if v.op == "cat":
                return ("cat",) + tuple(self.of(a, depth + 1) for a in M.parts(I, M.mk_cat(
                    I, "bytes" if v.ty == T_BYTES else "str", M.parts(I, v))))
            if v.op == "jsonobj":
                return ("jsonobj", v.args[0].uid if isinstance(v.args[0], Term) else repr(v.args[0]))
            if v.op == "srckey":
                return ("srckey", tuple(map(str, v.args)))
            if v.op in ("sym", "param"):
                k = I.ctx.find(v)
                return ("t", k.uid if isinstance(k, Term) else k)
            return (v.op,) + tuple(self.of(a, depth + 1) for a in v.args)
        if isinstance(v, AObj) and "ident" in v.attrs:
            return (v.cls.name, self.of(v.attrs["ident"], depth + 1), v.attrs.get("epoch", 1))
        if isinstance(v, AObj):
            return (v.cls.name, self.of(v.payload, depth + 1) if v.payload is not None else None,
                    tuple((k, self.of(x, depth + 1)) for k, x in sorted(v.attrs.items())))
        if isinstance(v, (tuple, list)):
            return tuple(self.of(x, depth + 1) for x in v)
        if isinstance(v, AList):
            return ("list",) + tuple(self.of(x, depth + 1) for x in v.items)
        if isinstance(v, ASet):
            return ("set",) + tuple(sorted((self.of(x, depth + 1) for x in v.items), key=repr))
        if isinstance(v, ADict):
            return ("dict",) + tuple((self.of(e.key, depth + 1), self.of(e.val, depth + 1)) for e in v.entries.values()
                                if not self.implied(v, e)) + tuple(("source", self.of(s, depth + 1)) for s in v.sources)
        if isinstance(v, NATIVE):
            return (type(v).__name__, v)
        return type(v).__name__

    def implied(self, d, e):
        """Is the entry what a lookup in the sources of the mapping gives anyway?"""
        I = self.I
        if e.guard is not None or not isinstance(e.key, str) or ckey(e.key) in d.removed:
            return False
        for s in reversed(d.sources):
            there = I.ctx.facts.get(("present", ckey(s), ckey(e.key)))
            if there is None and I.ctx.facts.get(("nonempty", ckey(s))) is not False:
                return False
            if there:
                return I.ctx.n(s.meta["mk"](e.key)) is I.ctx.n(e.val)
        return False

    def response(self, v):
        R = Resp(self.I, v)
        if not R.ok:
            return ("value", self.of(v))
        return ("response", self.of(R.status), tuple(sorted(((str(k), self.of(x[1])) for k, x in R.headers.items()), key=repr)),
                self.of(R.body))
