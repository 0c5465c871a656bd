From f4f538d2b01dacf72558ce7347b222ce47cb2ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:19 +0000
Subject: [PATCH 01/26] fix: validate registered JWT claims whose value is
 falsy

A token with "exp": 0 (or "", [], False, 0.0) skipped the expiration check
altogether, because the claim was only looked at when truthy. The same held
for the types of "aud", "iat" and "nbf".
---
 src/psion/jose/jwt.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/psion/jose/jwt.py b/src/psion/jose/jwt.py
index c895f62..d222c3b 100644
--- a/src/psion/jose/jwt.py
+++ b/src/psion/jose/jwt.py
@@ -43,8 +43,8 @@ class JsonWebTokenClaims(dict):
         now = int(datetime.utcnow().timestamp())
 
         # Validate aud
-        if aud := claims.get("aud"):
-            if aud is not None and not isinstance(aud, (str, list)):
+        if (aud := claims.get("aud")) is not None:
+            if not isinstance(aud, (str, list)):
                 raise InvalidJWTClaim('Invalid claim "aud".')
 
             if isinstance(aud, list):
@@ -52,16 +52,16 @@ class JsonWebTokenClaims(dict):
                     raise InvalidJWTClaim('Invalid claim "aud".')
 
         # Validate exp
-        if exp := claims.get("exp"):
-            if exp is not None and type(exp) is not int:
+        if (exp := claims.get("exp")) is not None:
+            if type(exp) is not int:
                 raise InvalidJWTClaim('Invalid claim "exp".')
 
             if now >= exp:
                 raise ExpiredToken
 
         # Validate iat
-        if iat := claims.get("iat"):
-            if iat is not None and type(iat) is not int:
+        if (iat := claims.get("iat")) is not None:
+            if type(iat) is not int:
                 raise InvalidJWTClaim('Invalid claim "iat".')
 
             if now < iat:
@@ -76,8 +76,8 @@ class JsonWebTokenClaims(dict):
             raise InvalidJWTClaim('Invalid claim "jti".')
 
         # Validate nbf
-        if nbf := claims.get("nbf"):
-            if nbf is not None and type(nbf) is not int:
+        if (nbf := claims.get("nbf")) is not None:
+            if type(nbf) is not int:
                 raise InvalidJWTClaim('Invalid claim "nbf".')
 
             if now < nbf:
-- 
2.43.0


From 7f98f7233e1377fbdcc8cc59e2b04f9c504412db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:19 +0000
Subject: [PATCH 02/26] fix: use the POSIX time for the temporal JWT claims

datetime.utcnow().timestamp() reads the naive UTC time as local time, so it is
off by the UTC offset of the server: east of Greenwich expired tokens were
accepted for hours, west of it fresh tokens were rejected.
---
 src/psion/jose/jwt.py                      | 4 ++--
 src/psion/oidc/flows/authorization_code.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/psion/jose/jwt.py b/src/psion/jose/jwt.py
index d222c3b..ecab6bb 100644
--- a/src/psion/jose/jwt.py
+++ b/src/psion/jose/jwt.py
@@ -1,6 +1,6 @@
 from __future__ import annotations
 
-from datetime import datetime
+import time
 
 from psion.jose.exceptions import ExpiredToken, InvalidJWTClaim, NotYetValidToken
 from psion.jose.jwk import JsonWebKey
@@ -40,7 +40,7 @@ class JsonWebTokenClaims(dict):
 
     def _validate_default_claims(self, claims: dict) -> None:
         # Used to validate the date attributes.
-        now = int(datetime.utcnow().timestamp())
+        now = int(time.time())
 
         # Validate aud
         if (aud := claims.get("aud")) is not None:
diff --git a/src/psion/oidc/flows/authorization_code.py b/src/psion/oidc/flows/authorization_code.py
index 85af632..ae19263 100644
--- a/src/psion/oidc/flows/authorization_code.py
+++ b/src/psion/oidc/flows/authorization_code.py
@@ -1,4 +1,4 @@
-from datetime import datetime
+import time
 
 from psion.jose import JsonWebToken
 from psion.jose.jwk import JsonWebKey
@@ -66,7 +66,7 @@ class AuthorizationCodeFlow:
 
         key_info = await self.adapter.get_key_info()
         userinfo = await self.adapter.get_userinfo(user, token["scope"].split())
-        now = int(datetime.utcnow().timestamp())
+        now = int(time.time())
 
         key: JsonWebKey = key_info["key"]
 
-- 
2.43.0


From 6d4378c6643c2c07a4fa3413a059249046477b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:19 +0000
Subject: [PATCH 03/26] fix: keep validating the remaining claim options after
 a list match

The "break" left the loop over the options, so that every option declared after
a matching list claim (e.g. "aud") was silently ignored.
---
 src/psion/jose/jwt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psion/jose/jwt.py b/src/psion/jose/jwt.py
index ecab6bb..fea0579 100644
--- a/src/psion/jose/jwt.py
+++ b/src/psion/jose/jwt.py
@@ -119,7 +119,7 @@ class JsonWebTokenClaims(dict):
                 if isinstance(value, list) and any(
                     item in option["values"] for item in value
                 ):
-                    break
+                    continue
 
                 for expected_value in option["values"]:
                     if value == expected_value:
-- 
2.43.0


From b3da3272e91e30ddf99da091e98413506d5ad88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:19 +0000
Subject: [PATCH 04/26] fix: reject malformed tokens with the documented JOSE
 errors

A header or payload that is not base64url or not JSON, or an "alg" that is not
a string, made deserialize() and decode() raise binascii.Error,
JSONDecodeError or TypeError instead of a JoseError.
---
 src/psion/jose/jws.py | 10 +++++++---
 src/psion/jose/jwt.py | 10 +++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/psion/jose/jws.py b/src/psion/jose/jws.py
index 50499c4..8de0869 100644
--- a/src/psion/jose/jws.py
+++ b/src/psion/jose/jws.py
@@ -103,7 +103,9 @@ class JsonWebSignatureHeader(dict):
         if "alg" not in header.keys():
             raise InvalidJWSHeader('Missing parameter "alg".')
 
-        if (alg := header.get("alg")) not in self.__algorithms__.keys():
+        alg = header.get("alg")
+
+        if not isinstance(alg, str) or alg not in self.__algorithms__.keys():
             raise UnsupportedAlgorithm(f'Unsupported algorithm "{alg}".')
 
     def validate_jku(self, header: dict) -> None:
@@ -306,10 +308,12 @@ class JsonWebSignature:
 
         try:
             header, payload, signature = token.split(b".")
+            raw_header = json_loads(base64url_decode(header))
+            raw_payload = base64url_decode(payload)
         except (AttributeError, ValueError):
             raise InvalidJWSSerialization
 
-        jws_header = JsonWebSignatureHeader(json_loads(base64url_decode(header)))
+        jws_header = JsonWebSignatureHeader(raw_header)
 
         if algorithm:
             if (alg := jws_header.get("alg")) != algorithm:
@@ -321,7 +325,7 @@ class JsonWebSignature:
             _validate_key(key, jws_header)
             jws_header.algorithm.verify(signature, b".".join([header, payload]), key)
 
-        return cls(base64url_decode(payload), jws_header)
+        return cls(raw_payload, jws_header)
 
 
 def _validate_key(key: JsonWebKey, header: JsonWebSignatureHeader):
diff --git a/src/psion/jose/jwt.py b/src/psion/jose/jwt.py
index fea0579..a34fff1 100644
--- a/src/psion/jose/jwt.py
+++ b/src/psion/jose/jwt.py
@@ -227,8 +227,12 @@ class JsonWebToken:
         """
 
         jws = JsonWebSignature.deserialize(to_bytes(token), key, algorithm, validate)
-        claims = JsonWebTokenClaims(
-            json_loads(jws.payload), options if validate else None
-        )
+
+        try:
+            payload = json_loads(jws.payload)
+        except ValueError:
+            raise InvalidJWTClaim("The claims object MUST be a valid dict.")
+
+        claims = JsonWebTokenClaims(payload, options if validate else None)
 
         return cls(claims, jws.header)
-- 
2.43.0


From ee88ccc0a238e78c7a68204abcf12a607450cc53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:19 +0000
Subject: [PATCH 05/26] fix: reject critical JWS header parameters that are not
 understood

RFC 7515 section 4.1.11: a JWS whose "crit" lists an extension the recipient
does not understand and process is invalid. It was accepted as long as the
parameter was present.
---
 src/psion/jose/jws.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/psion/jose/jws.py b/src/psion/jose/jws.py
index 8de0869..4e4f3d5 100644
--- a/src/psion/jose/jws.py
+++ b/src/psion/jose/jws.py
@@ -196,6 +196,10 @@ class JsonWebSignatureHeader(dict):
                 if not header.get(item):
                     raise InvalidJWSHeader(f'The parameter "{item}" is required.')
 
+                # RFC 7515: a critical parameter that is not understood MUST be rejected.
+                if not hasattr(self, f"validate_{item}"):
+                    raise InvalidJWSHeader(f'Unknown critical parameter "{item}".')
+
 
 class JsonWebSignature:
     """
-- 
2.43.0


From b21ce651fa3439de9a34b6daac3bcb109db7f024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:19 +0000
Subject: [PATCH 06/26] fix: an unsecured JWS must have an empty signature

RFC 7518 section 3.6: recipients MUST verify that the JWS Signature value is the
empty octet sequence. Any signature was accepted.
---
 src/psion/jose/jwa/jws.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/psion/jose/jwa/jws.py b/src/psion/jose/jwa/jws.py
index 8e75b62..2a0b69b 100644
--- a/src/psion/jose/jwa/jws.py
+++ b/src/psion/jose/jwa/jws.py
@@ -95,7 +95,8 @@ class none(JWSAlgorithm):
 
     @classmethod
     def verify(cls, signature: bytes, data: bytes, key: JsonWebKey = None) -> None:
-        pass
+        if signature:
+            raise InvalidSignature
 
 
 class _HMAC(JWSAlgorithm):
-- 
2.43.0


From 444bd19011c6ebf3d8f95ecdd48dc6e6e7c0d6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:19 +0000
Subject: [PATCH 07/26] fix: use the RFC 7518 salt length for the PS algorithms

RFC 7518 section 3.5: the size of the salt value is the size of the hash output.
MAX_LENGTH makes PS256/384/512 tokens unverifiable by other implementations and
rejects theirs.
---
 src/psion/jose/jwa/jwk.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/psion/jose/jwa/jwk.py b/src/psion/jose/jwa/jwk.py
index 304eeb1..da69100 100644
--- a/src/psion/jose/jwa/jwk.py
+++ b/src/psion/jose/jwa/jwk.py
@@ -899,7 +899,7 @@ class RSAKey(JWKAlgorithm):
 
         if rsa_padding == "PSS":
             return self._private.sign(
-                data, padding.PSS(padding.MGF1(alg), padding.PSS.MAX_LENGTH), alg
+                data, padding.PSS(padding.MGF1(alg), alg.digest_size), alg
             )
 
         raise InvalidKey("Unsupported RSA padding.")
@@ -939,7 +939,7 @@ class RSAKey(JWKAlgorithm):
                 return self._public.verify(
                     signature,
                     data,
-                    padding.PSS(padding.MGF1(alg), padding.PSS.MAX_LENGTH),
+                    padding.PSS(padding.MGF1(alg), alg.digest_size),
                     alg,
                 )
 
-- 
2.43.0


From f5a63861cacb3bbb2a4bc41e6c497d336e7b86b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:19 +0000
Subject: [PATCH 08/26] fix: use the RFC 7518 signature format for the ES
 algorithms

RFC 7518 section 3.4: an ECDSA JWS signature is the fixed-size concatenation of
R and S. The DER sequence of the backend was used as is, so that ES256/384/512
tokens could not be exchanged with any other implementation.
---
 src/psion/jose/jwa/jwk.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/psion/jose/jwa/jwk.py b/src/psion/jose/jwa/jwk.py
index da69100..7142c5b 100644
--- a/src/psion/jose/jwa/jwk.py
+++ b/src/psion/jose/jwa/jwk.py
@@ -12,6 +12,10 @@ from cryptography.exceptions import InvalidSignature as BaseInvalidSignature
 from cryptography.hazmat.backends import default_backend
 from cryptography.hazmat.primitives import hashes, hmac, serialization
 from cryptography.hazmat.primitives.asymmetric import ec, padding, rsa
+from cryptography.hazmat.primitives.asymmetric.utils import (
+    decode_dss_signature,
+    encode_dss_signature,
+)
 
 from psion.jose.exceptions import InvalidKey, InvalidSignature, UnsupportedParsingMethod
 from psion.webtools import (
@@ -418,7 +422,13 @@ class ECKey(JWKAlgorithm):
         if not self._private:
             raise InvalidKey("Cannot sign with a public key.")
 
-        return self._private.sign(data, ec.ECDSA(_get_alg(algorithm)))
+        signature = self._private.sign(data, ec.ECDSA(_get_alg(algorithm)))
+
+        # RFC 7518: the signature is the concatenation of R and S, not a DER sequence.
+        r, s = decode_dss_signature(signature)
+        size = (self._private.curve.key_size + 7) // 8
+
+        return r.to_bytes(size, "big") + s.to_bytes(size, "big")
 
     def verify(self, signature: bytes, data: bytes, algorithm: AlgType) -> None:
         """
@@ -436,6 +446,15 @@ class ECKey(JWKAlgorithm):
         :raises InvalidSignature: The signature and data do not match.
         """
 
+        size = (self._public.curve.key_size + 7) // 8
+
+        if len(signature) != 2 * size:
+            raise InvalidSignature
+
+        r = int.from_bytes(signature[:size], "big")
+        s = int.from_bytes(signature[size:], "big")
+        signature = encode_dss_signature(r, s)
+
         try:
             self._public.verify(signature, data, ec.ECDSA(_get_alg(algorithm)))
         except BaseInvalidSignature:
-- 
2.43.0


From c9a490a20f2ff5657575a270b059cd4da4b5dd4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:19 +0000
Subject: [PATCH 09/26] fix: dump the EC parameters with their full size

RFC 7518 sections 6.2.1.2, 6.2.1.3 and 6.2.2.1: "x", "y" and "d" MUST have the
full size of the curve. Leading zeros were dropped, so about one key in 85 was
dumped in a form other implementations refuse.
---
 src/psion/jose/jwa/jwk.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/psion/jose/jwa/jwk.py b/src/psion/jose/jwa/jwk.py
index 7142c5b..c14c38b 100644
--- a/src/psion/jose/jwa/jwk.py
+++ b/src/psion/jose/jwa/jwk.py
@@ -363,11 +363,15 @@ class ECKey(JWKAlgorithm):
         """
 
         numbers = self._public.public_numbers()
+
+        # RFC 7518: the octet strings have the full size of the curve's coordinates.
+        size = (numbers.curve.key_size + 7) // 8
+
         data = {
             "kty": self.kty,
             "crv": self.CURVES_NAMES[numbers.curve.name],
-            "x": to_string(int_to_b64(numbers.x)),
-            "y": to_string(int_to_b64(numbers.y)),
+            "x": to_string(base64url_encode(numbers.x.to_bytes(size, "big"))),
+            "y": to_string(base64url_encode(numbers.y.to_bytes(size, "big"))),
         }
 
         if public:
@@ -377,7 +381,9 @@ class ECKey(JWKAlgorithm):
             raise RuntimeError("This key is not a private key.")
 
         private_value = self._private.private_numbers().private_value
-        return FullDict(data, d=to_string(int_to_b64(private_value)))
+        return FullDict(
+            data, d=to_string(base64url_encode(private_value.to_bytes(size, "big")))
+        )
 
     def export(self, public: bool = False) -> bytes:
         """
-- 
2.43.0


From 8661b7ed0b0806ba43e0961afbb8a5687b17789a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:19 +0000
Subject: [PATCH 10/26] fix: export the secret of a symmetric key

The secret is already raw bytes. Decoding it once more as base64url exported
garbage or raised binascii.Error, and the result did not parse back.
---
 src/psion/jose/jwa/jwk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psion/jose/jwa/jwk.py b/src/psion/jose/jwa/jwk.py
index c14c38b..ddd2ae9 100644
--- a/src/psion/jose/jwa/jwk.py
+++ b/src/psion/jose/jwa/jwk.py
@@ -596,7 +596,7 @@ class OCTKey(JWKAlgorithm):
         if public:
             warnings.warn("Secret keys do not have public info.", RuntimeWarning)
 
-        return base64.b64encode(base64url_decode(to_bytes(self._secret)))
+        return base64.b64encode(self._secret)
 
     def sign(self, data: bytes, algorithm: AlgType) -> bytes:
         """
-- 
2.43.0


From 494f9c5c75307e02ffda62b98dc72ed1aea7f130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:19 +0000
Subject: [PATCH 11/26] fix: never redirect to an unvalidated redirect_uri

The access_denied and unsupported_response_type errors were raised before the
Client and its redirect_uri were validated, which made the authorization endpoint
an open redirector.
---
 src/psion/oauth2/endpoints/authorization.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/psion/oauth2/endpoints/authorization.py b/src/psion/oauth2/endpoints/authorization.py
index 5f1c160..dfeb392 100644
--- a/src/psion/oauth2/endpoints/authorization.py
+++ b/src/psion/oauth2/endpoints/authorization.py
@@ -77,6 +77,15 @@ class AuthorizationEndpoint(BaseEndpoint):
         try:
             self._validate_request(data)
 
+            # The Client and its Redirect URI have to be validated before anything
+            # else, since all of the following errors redirect to the Redirect URI.
+            client = await self._validate_client(
+                client_id=data["client_id"],
+                redirect_uri=data["redirect_uri"],
+                response_type=data["response_type"],
+                state=data.get("state"),
+            )
+
             if (user := request.user) is None:
                 raise AccessDenied
 
@@ -84,13 +93,6 @@ class AuthorizationEndpoint(BaseEndpoint):
                 response_type=data.pop("response_type"), state=data.get("state")
             )
 
-            client = await self._validate_client(
-                client_id=data["client_id"],
-                redirect_uri=data["redirect_uri"],
-                response_type=grant.__response_type__,
-                state=data.get("state"),
-            )
-
             url = await grant.authorize(data, client, user)
             return RedirectResponse(url)
         except FatalError as exc:
-- 
2.43.0


From 7d7e8fd7757ead048243cad2f30207120707b423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:19 +0000
Subject: [PATCH 12/26] fix: return the state of the Client in every error
 redirect

The access_denied error, and the error on a missing scope of the consent data,
dropped the "state", which is REQUIRED if it was present in the request.
---
 src/psion/oauth2/endpoints/authorization.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/psion/oauth2/endpoints/authorization.py b/src/psion/oauth2/endpoints/authorization.py
index dfeb392..2488263 100644
--- a/src/psion/oauth2/endpoints/authorization.py
+++ b/src/psion/oauth2/endpoints/authorization.py
@@ -87,7 +87,7 @@ class AuthorizationEndpoint(BaseEndpoint):
             )
 
             if (user := request.user) is None:
-                raise AccessDenied
+                raise AccessDenied(state=data.get("state"))
 
             grant = self._validate_response_type(
                 response_type=data.pop("response_type"), state=data.get("state")
@@ -128,7 +128,9 @@ class AuthorizationEndpoint(BaseEndpoint):
 
             # pylint: disable=E0601
             if not (scope := data.get("scope")) or not isinstance(scope, str):
-                raise InvalidRequest('Missing required parameter "scope".')
+                raise InvalidRequest(
+                    'Missing required parameter "scope".', state=data.get("state")
+                )
 
             scopes: list[str] = scope.split()
 
-- 
2.43.0


From 3b6413ba3559cf699c99bb1accecc79bd261f0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:19 +0000
Subject: [PATCH 13/26] fix: answer revocation requests without a token

The endpoint returned None instead of a response, which crashes create_response.
---
 src/psion/oauth2/endpoints/revocation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psion/oauth2/endpoints/revocation.py b/src/psion/oauth2/endpoints/revocation.py
index 6721e61..2816f3d 100644
--- a/src/psion/oauth2/endpoints/revocation.py
+++ b/src/psion/oauth2/endpoints/revocation.py
@@ -111,7 +111,7 @@ class RevocationEndpoint(BaseEndpoint):
             token_type_hint: Optional[str] = data.get("token_type_hint")
 
             if not token or not isinstance(token, str):
-                return
+                return JSONResponse()
 
             if token_type_hint:
                 if token_type_hint not in self.__supported_tokens__:
-- 
2.43.0


From 467a130b2f9e8f33e4725392c008cff1f7a8dae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:19 +0000
Subject: [PATCH 14/26] fix: answer token requests without a code with
 invalid_request

The cleanup in the finally block raised KeyError, which replaced the
InvalidRequest error and escaped the token endpoint.
---
 src/psion/oauth2/grants/authorization_code.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/psion/oauth2/grants/authorization_code.py b/src/psion/oauth2/grants/authorization_code.py
index 3c22008..8ca9f61 100644
--- a/src/psion/oauth2/grants/authorization_code.py
+++ b/src/psion/oauth2/grants/authorization_code.py
@@ -317,7 +317,8 @@ class AuthorizationCodeGrant(BaseGrant):
         finally:
             # Prevents replay attacks by deleting the code once it is used,
             # whether it succeeds or fails.
-            await self.adapter.delete_authorization_code(data["code"])
+            if data.get("code"):
+                await self.adapter.delete_authorization_code(data["code"])
 
     async def _validate_token_request(self, data: dict) -> dict:
         """
-- 
2.43.0


From 9cb00c4f1534085392cb03d9a8f8da5c821adf8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:19 +0000
Subject: [PATCH 15/26] fix: a non-ASCII code_verifier fails the PKCE challenge

It raised UnicodeEncodeError, which escaped the token endpoint.
---
 src/psion/oauth2/grants/authorization_code.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/psion/oauth2/grants/authorization_code.py b/src/psion/oauth2/grants/authorization_code.py
index 8ca9f61..b427243 100644
--- a/src/psion/oauth2/grants/authorization_code.py
+++ b/src/psion/oauth2/grants/authorization_code.py
@@ -22,9 +22,12 @@ def plain_challenge(challenge: str, verifier: str):
 
 
 def S256_challenge(challenge: str, verifier: str):
-    hashed_verifier = to_string(
-        base64url_encode(hashlib.sha256(to_bytes(verifier, "ascii")).digest())
-    )
+    try:
+        raw_verifier = to_bytes(verifier, "ascii")
+    except UnicodeEncodeError:
+        return False
+
+    hashed_verifier = to_string(base64url_encode(hashlib.sha256(raw_verifier).digest()))
     return challenge == hashed_verifier
 
 
-- 
2.43.0


From c6dbe64a0eed75dea5d3e20259d1889fa6dd1f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:19 +0000
Subject: [PATCH 16/26] fix: do not refresh tokens of users that do not exist
 anymore

The authorization code grant already has this check; the refresh token grant
issued tokens for the user None.
---
 src/psion/oauth2/grants/refresh_token.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/psion/oauth2/grants/refresh_token.py b/src/psion/oauth2/grants/refresh_token.py
index cf9a536..324e8b3 100644
--- a/src/psion/oauth2/grants/refresh_token.py
+++ b/src/psion/oauth2/grants/refresh_token.py
@@ -158,6 +158,9 @@ class RefreshTokenGrant(BaseGrant):
 
         user = await self.adapter.find_user(token.get_user_id())
 
+        if not user:
+            raise InvalidRequest(description="No user found for this token.")
+
         access_token = await self.adapter.create_access_token(client, user, scopes)
         refresh_token = (
             await self.adapter.create_refresh_token(client, user, scopes)
-- 
2.43.0


From fcdca1d548fa881287626e34e4bb678b780483e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:19 +0000
Subject: [PATCH 17/26] fix: do not share the hooks between grants and
 providers

The hooks were stored in a class attribute of BaseGrant, so a hook added to a
grant of one provider was executed by the other grants and by every other
provider in the process, with the adapter and the issuer of the first.
---
 src/psion/oauth2/grants/base.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/psion/oauth2/grants/base.py b/src/psion/oauth2/grants/base.py
index 5b516e3..2064144 100644
--- a/src/psion/oauth2/grants/base.py
+++ b/src/psion/oauth2/grants/base.py
@@ -60,6 +60,11 @@ class BaseGrant:
         self.adapter = adapter
         self.config = config
 
+        # The hooks belong to this instance only, not to every grant of the process.
+        self.__hooks__ = {
+            checkpoint: set(hooks) for checkpoint, hooks in self.__hooks__.items()
+        }
+
     def _create_token(
         self,
         access_token: str,
-- 
2.43.0


From 44649d8b6906c1965e17d68b9ce67040416863e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:19 +0000
Subject: [PATCH 18/26] fix: only issue an ID Token for the scope openid itself

The scopes are a string, so that "openid" also matched inside of other scopes,
and a token without scopes raised KeyError, which escaped the token endpoint.
---
 src/psion/oidc/flows/authorization_code.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psion/oidc/flows/authorization_code.py b/src/psion/oidc/flows/authorization_code.py
index ae19263..7d1c919 100644
--- a/src/psion/oidc/flows/authorization_code.py
+++ b/src/psion/oidc/flows/authorization_code.py
@@ -36,7 +36,7 @@ class AuthorizationCodeFlow:
     async def token_response(
         self, token: dict, data: dict, client: ClientMixin, user: UserMixin
     ) -> dict:
-        if "openid" in token["scope"]:
+        if "openid" in token.get("scope", "").split():
             id_token = await self._generate_id_token(token, client, user)
             return {"id_token": id_token}
 
-- 
2.43.0


From 73af5f19182ec3fd4e130a774c5bd1e63b88b5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:19 +0000
Subject: [PATCH 19/26] fix: return the nonce of the Authentication Request in
 the ID Token

OpenID Connect Core section 2: if present in the Authentication Request, the nonce
MUST be included in the ID Token. It was stored with the code and never used.
---
 src/psion/oidc/flows/authorization_code.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/psion/oidc/flows/authorization_code.py b/src/psion/oidc/flows/authorization_code.py
index 7d1c919..a2c659e 100644
--- a/src/psion/oidc/flows/authorization_code.py
+++ b/src/psion/oidc/flows/authorization_code.py
@@ -5,7 +5,7 @@ from psion.jose.jwk import JsonWebKey
 from psion.oauth2.adapter import BaseAdapter
 from psion.oauth2.config import Config
 from psion.oauth2.exceptions import InvalidRequest
-from psion.oauth2.mixins import ClientMixin, UserMixin
+from psion.oauth2.mixins import AuthorizationCodeMixin, ClientMixin, UserMixin
 from psion.oidc.claims import IDToken
 from psion.webtools import create_half_hash
 
@@ -37,11 +37,20 @@ class AuthorizationCodeFlow:
         self, token: dict, data: dict, client: ClientMixin, user: UserMixin
     ) -> dict:
         if "openid" in token.get("scope", "").split():
-            id_token = await self._generate_id_token(token, client, user)
+            code = await self.adapter.get_authorization_code(data["code"])
+
+            if not code:
+                raise InvalidRequest(description="Invalid Authorization Grant.")
+
+            id_token = await self._generate_id_token(token, code, client, user)
             return {"id_token": id_token}
 
     async def _generate_id_token(
-        self, token: dict, client: ClientMixin, user: UserMixin
+        self,
+        token: dict,
+        code: AuthorizationCodeMixin,
+        client: ClientMixin,
+        user: UserMixin,
     ) -> str:
         """
         Generates an ID Token containing the claims of the currently authenticated User
@@ -53,6 +62,9 @@ class AuthorizationCodeFlow:
         :param token: Token containing the Access Token and the scopes.
         :type token: dict
 
+        :param code: Authorization Code used to issue the Token.
+        :type code: AuthorizationCodeMixin
+
         :param client: Client requesting authorization.
         :type client: ClientMixin
 
@@ -76,6 +88,7 @@ class AuthorizationCodeFlow:
                 "aud": client.get_client_id(),
                 "exp": now + self.config.id_token_lifespan,
                 "iat": now,
+                "nonce": code.get_nonce(),
                 "at_hash": create_half_hash(token["access_token"], key_info["alg"]),
                 **userinfo,
             }
-- 
2.43.0


From e20b15a3bc57b29aacf3fd792098aa814be71bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:19 +0000
Subject: [PATCH 20/26] fix: validate the claim auth_time of the ID Token

The value of another claim ("max_age") was validated in its place.
---
 src/psion/oidc/claims.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psion/oidc/claims.py b/src/psion/oidc/claims.py
index b63b99a..467356b 100644
--- a/src/psion/oidc/claims.py
+++ b/src/psion/oidc/claims.py
@@ -48,7 +48,7 @@ class IDToken(JsonWebTokenClaims):
         self._validate_nonce(claims)
 
     def _validate_auth_time(self, claims: dict) -> None:
-        auth_time = claims.get("max_age")
+        auth_time = claims.get("auth_time")
 
         if claims.get("max_age") and not auth_time:
             raise InvalidJWTClaim('Invalid claim "auth_time".')
-- 
2.43.0


From 3854539b20b55d269e2aa7b4bff2047b0f5e1c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:19 +0000
Subject: [PATCH 21/26] fix: ignore malformed Authorization headers

"Basic " and non-ASCII credentials raised ValueError, which escaped every
endpoint that authenticates the Client.
---
 src/psion/webtools.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/psion/webtools.py b/src/psion/webtools.py
index fcacbeb..ff01d39 100644
--- a/src/psion/webtools.py
+++ b/src/psion/webtools.py
@@ -1,7 +1,6 @@
 from __future__ import annotations
 
 import base64
-import binascii
 import copy
 import hashlib
 import json
@@ -252,14 +251,17 @@ def get_basic_authorization(headers: dict) -> tuple[str, str]:
     if not auth or not isinstance(auth, str) or " " not in auth:
         return None, None
 
-    method, token = auth.split(None, 1)
+    try:
+        method, token = auth.split(None, 1)
+    except ValueError:
+        return None, None
 
     if method.lower() != "basic":
         return None, None
 
     try:
         credentials = to_string(base64.b64decode(token))
-    except (binascii.Error, TypeError):
+    except (TypeError, ValueError):
         return None, None
 
     if ":" not in credentials:
@@ -289,7 +291,10 @@ def get_bearer_authorization(headers: dict) -> str:
     if not auth or not isinstance(auth, str) or " " not in auth:
         return None
 
-    method, token = auth.split(None, 1)
+    try:
+        method, token = auth.split(None, 1)
+    except ValueError:
+        return None
 
     if method.lower() != "bearer":
         return None
-- 
2.43.0


From b37477bf79d3349ffe39e94aa5f084bd595fcd66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:19 +0000
Subject: [PATCH 22/26] fix: keep the query of the URL when adding parameters
 to it

A redirect_uri that already has a query got a second "?", so that the Client did
not receive the code, the error nor the state.
---
 src/psion/webtools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/psion/webtools.py b/src/psion/webtools.py
index ff01d39..6a68cc1 100644
--- a/src/psion/webtools.py
+++ b/src/psion/webtools.py
@@ -218,7 +218,8 @@ def urlencode(url: str, **params) -> str:
     :rtype: str
     """
 
-    return f"{url}?{urlencode_(FullDict(params))}"
+    separator = "&" if "?" in url else "?"
+    return f"{url}{separator}{urlencode_(FullDict(params))}"
 
 
 def urldecode(query_string: str) -> dict:
-- 
2.43.0


From e4627498b2068b780d245605adda482cb7e47dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:43:01 +0000
Subject: [PATCH 23/26] fix: accept raw keys that cannot be a path

---
 src/psion/jose/jwa/jwk.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/psion/jose/jwa/jwk.py b/src/psion/jose/jwa/jwk.py
index ddd2ae9..b6d1227 100644
--- a/src/psion/jose/jwa/jwk.py
+++ b/src/psion/jose/jwa/jwk.py
@@ -3,6 +3,7 @@ from __future__ import annotations
 import abc
 import base64
 import enum
+import errno
 import os
 import secrets
 import warnings
@@ -68,8 +69,14 @@ def _parse_raw(path_or_secret: os.PathLike | bytes) -> bytes:
     try:
         with open(path_or_secret, "rb") as f:
             return f.read()
-    except (FileNotFoundError, IsADirectoryError):
+    except (FileNotFoundError, IsADirectoryError, NotADirectoryError, ValueError):
         return to_bytes(path_or_secret)
+    except OSError as exc:
+        # The key itself was provided, and it is longer than any path can be.
+        if exc.errno == errno.ENAMETOOLONG:
+            return to_bytes(path_or_secret)
+
+        raise
 
 
 class JWKAlgorithm(abc.ABC):
-- 
2.43.0


From 6a745410c35f87bbf98ae15dfc642b2636e7b947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:35 +0000
Subject: [PATCH 24/26] fix: tokens with lone surrogates are rejected with a
 JoseError

---
 src/psion/jose/jwt.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/psion/jose/jwt.py b/src/psion/jose/jwt.py
index a34fff1..896b269 100644
--- a/src/psion/jose/jwt.py
+++ b/src/psion/jose/jwt.py
@@ -2,7 +2,12 @@ from __future__ import annotations
 
 import time
 
-from psion.jose.exceptions import ExpiredToken, InvalidJWTClaim, NotYetValidToken
+from psion.jose.exceptions import (
+    ExpiredToken,
+    InvalidJWSSerialization,
+    InvalidJWTClaim,
+    NotYetValidToken,
+)
 from psion.jose.jwk import JsonWebKey
 from psion.jose.jws import JsonWebSignature, JsonWebSignatureHeader
 from psion.webtools import FullDict, json_dumps, json_loads, to_bytes, to_string
@@ -165,7 +170,13 @@ class JsonWebToken:
     def __init__(self, claims: JsonWebTokenClaims, header: dict):
         self.header = JsonWebSignatureHeader(header)
         self.claims = JsonWebTokenClaims(claims)
-        self._jws = JsonWebSignature(to_bytes(json_dumps(self.claims)), self.header)
+
+        try:
+            payload = to_bytes(json_dumps(self.claims))
+        except UnicodeEncodeError:
+            raise InvalidJWTClaim("The claims object MUST be valid Unicode text.")
+
+        self._jws = JsonWebSignature(payload, self.header)
 
     def __repr__(self):
         return f"<Header: {self.header}, Claims: {self.claims}>"
@@ -226,7 +237,12 @@ class JsonWebToken:
         :rtype: JsonWebToken
         """
 
-        jws = JsonWebSignature.deserialize(to_bytes(token), key, algorithm, validate)
+        try:
+            token = to_bytes(token)
+        except UnicodeEncodeError:
+            raise InvalidJWSSerialization
+
+        jws = JsonWebSignature.deserialize(token, key, algorithm, validate)
 
         try:
             payload = json_loads(jws.payload)
-- 
2.43.0


From fdd93f823b751e3e392a0b4bd7e9e9214337ab89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:35 +0000
Subject: [PATCH 25/26] fix: reject tokens with deeply nested JSON instead of
 raising RecursionError

---
 src/psion/jose/jws.py | 7 +++++--
 src/psion/jose/jwt.py | 9 ++++++---
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/psion/jose/jws.py b/src/psion/jose/jws.py
index 4e4f3d5..a244571 100644
--- a/src/psion/jose/jws.py
+++ b/src/psion/jose/jws.py
@@ -314,10 +314,13 @@ class JsonWebSignature:
             header, payload, signature = token.split(b".")
             raw_header = json_loads(base64url_decode(header))
             raw_payload = base64url_decode(payload)
-        except (AttributeError, ValueError):
+        except (AttributeError, ValueError, RecursionError):
             raise InvalidJWSSerialization
 
-        jws_header = JsonWebSignatureHeader(raw_header)
+        try:
+            jws_header = JsonWebSignatureHeader(raw_header)
+        except RecursionError:
+            raise InvalidJWSSerialization
 
         if algorithm:
             if (alg := jws_header.get("alg")) != algorithm:
diff --git a/src/psion/jose/jwt.py b/src/psion/jose/jwt.py
index 896b269..800e18d 100644
--- a/src/psion/jose/jwt.py
+++ b/src/psion/jose/jwt.py
@@ -246,9 +246,12 @@ class JsonWebToken:
 
         try:
             payload = json_loads(jws.payload)
-        except ValueError:
+        except (ValueError, RecursionError):
             raise InvalidJWTClaim("The claims object MUST be a valid dict.")
 
-        claims = JsonWebTokenClaims(payload, options if validate else None)
+        try:
+            claims = JsonWebTokenClaims(payload, options if validate else None)
 
-        return cls(claims, jws.header)
+            return cls(claims, jws.header)
+        except RecursionError:
+            raise InvalidJWTClaim("The claims object is nested too deeply.")
-- 
2.43.0


From 3624f6d65a885d612e00a12f0e576f4c4ba55c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:12 +0000
Subject: [PATCH 26/26] fix: require auth_time for every stated max_age, also
 0, and accept auth_time 0

---
 src/psion/oidc/claims.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psion/oidc/claims.py b/src/psion/oidc/claims.py
index 467356b..ab898e7 100644
--- a/src/psion/oidc/claims.py
+++ b/src/psion/oidc/claims.py
@@ -50,7 +50,7 @@ class IDToken(JsonWebTokenClaims):
     def _validate_auth_time(self, claims: dict) -> None:
         auth_time = claims.get("auth_time")
 
-        if claims.get("max_age") and not auth_time:
+        if claims.get("max_age") is not None and auth_time is None:
             raise InvalidJWTClaim('Invalid claim "auth_time".')
 
         if auth_time is not None and type(auth_time) is not int:
-- 
2.43.0

