"""A small in-memory application on top of psion, for the demonstrations."""
import asyncio
import base64
import hashlib
import sys
import warnings
from datetime import datetime, timedelta
from urllib.parse import parse_qs, urlencode, urlsplit

warnings.simplefilter("ignore")
sys.path.insert(0, "src")

from psion.jose import JsonWebKey, JsonWebKeySet  # noqa: E402
from psion.oauth2.adapter import BaseAdapter  # noqa: E402
from psion.oauth2.grants import AuthorizationCodeGrant, ClientCredentialsGrant, RefreshTokenGrant  # noqa: E402
from psion.oauth2.models import Request, Scope  # noqa: E402
from psion.oauth2.providers.base import BaseProvider  # noqa: E402
from psion.oidc.flows import AuthorizationCodeFlow  # noqa: E402

VERIFIER = "v" * 64
CHALLENGE = base64.urlsafe_b64encode(hashlib.sha256(VERIFIER.encode()).digest()).rstrip(b"=").decode()


class Client:
    def __init__(self, cid, secret, uris=("https://app.example/cb",), method="client_secret_basic",
                 grants=("authorization_code", "refresh_token", "client_credentials"), responses=("code",),
                 scopes=("openid", "read", "write")):
        self.cid, self.secret, self.uris, self.method = cid, secret, list(uris), method
        self.grants, self.responses, self.scopes = list(grants), list(responses), list(scopes)

    def get_client_id(self): return self.cid
    def get_client_secret(self): return self.secret
    def get_redirect_uris(self): return self.uris
    def get_token_endpoint_auth_method(self): return self.method
    def get_grant_types(self): return self.grants
    def get_response_types(self): return self.responses
    def get_allowed_scopes(self, scopes):
        return [s for s in (scopes if scopes is not None else self.scopes) if s in self.scopes]


class User:
    def __init__(self, uid): self.uid = uid
    def get_user_id(self): return self.uid


class Code:
    def __init__(self, code, data, client, user, expires=600):
        self.code, self.data, self.client, self.user = code, data, client, user
        self.expires = datetime.utcnow() + timedelta(seconds=expires)

    def get_client_id(self): return self.client.cid
    def get_user_id(self): return self.user.uid
    def get_redirect_uri(self): return self.data["redirect_uri"]
    def get_scopes(self): return self.data["scopes"]
    def get_code_challenge(self): return self.data["code_challenge"]
    def get_code_challenge_method(self): return self.data["code_challenge_method"]
    def get_nonce(self): return self.data.get("nonce")
    def get_auth_time(self): return None
    def get_expiration(self): return self.expires


class Refresh:
    def __init__(self, token, client, user, scopes, expires=600):
        self.token, self.client, self.user, self.scopes = token, client, user, scopes
        self.expires = datetime.utcnow() + timedelta(seconds=expires)

    def get_refresh_token(self): return self.token
    def get_client_id(self): return self.client.cid
    def get_user_id(self): return self.user.uid
    def get_scopes(self): return self.scopes
    def get_expiration(self): return self.expires


class Adapter(BaseAdapter):
    def __init__(self):
        self.clients = {"app": Client("app", "s3cret"), "other": Client("other", "0ther", ["https://other.example/cb"]),
                        "pub": Client("pub", None, method="none")}
        self.users = {"alice": User("alice"), "bob": User("bob")}
        self.codes, self.refresh, self.issued, self.revoked, self.n = {}, {}, [], [], 0
        self.key = JsonWebKey({"kty": "oct", "k": base64.urlsafe_b64encode(b"k" * 32).rstrip(b"=").decode(), "kid": "k1"})

    async def find_user(self, user_id): return self.users.get(user_id)
    async def find_client(self, client_id): return self.clients.get(client_id)
    async def save_authorization_code(self, code, data, client, user): self.codes[code] = Code(code, dict(data), client, user)
    async def get_authorization_code(self, code): return self.codes.get(code)
    async def delete_authorization_code(self, code): self.codes.pop(code, None)

    async def create_access_token(self, client, resource_owner, scopes):
        self.n += 1
        self.issued.append(("access", client.cid, resource_owner, list(scopes)))
        return f"access-{self.n}"

    async def create_refresh_token(self, client, user, scopes):
        self.n += 1
        t = f"refresh-{self.n}"
        self.issued.append(("refresh", client.cid, user, list(scopes)))
        self.refresh[t] = Refresh(t, client, user, list(scopes))
        return t

    async def get_refresh_token(self, refresh_token): return self.refresh.get(refresh_token)
    async def revoke_token(self, client, token, token_type_hint=None): self.revoked.append((client.cid, token, token_type_hint))
    async def get_userinfo(self, user, scopes): return {"sub": user.uid}
    async def get_key_info(self): return {"key": self.key, "alg": "HS256"}


class Provider(BaseProvider):
    async def create_request(self, request): return request
    async def create_response(self, response): return response


def provider(adapter=Adapter, grants=(AuthorizationCodeGrant, RefreshTokenGrant, ClientCredentialsGrant), oidc=True):
    p = Provider("https://op.example", adapter=adapter, grants=list(grants), scopes=[Scope("openid"), Scope("read"), Scope("write"), Scope("admin")],
                 keyset=JsonWebKeySet([JsonWebKey({"kty": "oct", "k": "a" * 43, "kid": "k1"})]), error_url="https://op.example/error",
                 token_lifespan=3600, id_token_lifespan=3600)
    if oidc:
        p.add_hook(AuthorizationCodeGrant, AuthorizationCodeFlow)
    return p


def run(c):
    return asyncio.run(c)


def authorize_request(user="alice", method="GET", drop=(), **over):
    q = dict(client_id="app", redirect_uri="https://app.example/cb", response_type="code", scope="read", state="st4te",
             code_challenge=CHALLENGE, code_challenge_method="S256")
    q.update(over)
    q = {k: v for k, v in q.items() if k not in drop and v is not None}
    u = User(user) if user else None
    if method == "GET":
        return Request("GET", "https://op.example/authorize?" + urlencode(q), {}, b"", u)
    return Request("POST", "https://op.example/authorize", {}, urlencode(q).encode(), u)


def location(response):
    s = urlsplit(response.headers["Location"])
    return f"{s.scheme}://{s.netloc}{s.path}", {k: v for k, v in parse_qs(s.query, keep_blank_values=True).items()}


def basic(cid, secret):
    return {"Authorization": "Basic " + base64.b64encode(f"{cid}:{secret}".encode()).decode()}


def post(body, headers=None, path="token"):
    return Request("POST", f"https://op.example/{path}", dict(headers or {}), urlencode(body).encode())


def new_code(p, **over):
    base, q = location(run(p.authorize(authorize_request(**over))))
    assert "code" in q, q
    return q["code"][0]


def exchange(p, code, headers=None, verifier=VERIFIER, uri="https://app.example/cb", **more):
    r = run(p.token(post(dict(grant_type="authorization_code", code=code, redirect_uri=uri, code_verifier=verifier, **more),
                         headers if headers is not None else basic("app", "s3cret"))))
    import json
    return r, json.loads(r.body)
