#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/psion/"
JW = S + "jose/"
O2 = S + "oauth2/"

TESTS = "The tests cover only the JOSE classes on a handful of fixed vectors; "
NOTEST = "No test of the repository exercises this part at all; "

P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, rule=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  state=state or [], observe=observe or [], rule=rule))


prop("C01", "With validation on, a token is accepted only if its signature verifies",
     "Deserializing a signed message or decoding a token with validation on yields content only if the signature segment is the "
     "valid signature of exactly the received header and payload segments under the key the caller gave; otherwise it is rejected, "
     "as is any text that does not consist of exactly three segments. A valid token is accepted, and the header and content handed out are those of the segments that were verified.",
     ["inputs", "configurations"], "every token, every signed algorithm, every key type, private or public keys, with and without a pinned algorithm",
     TESTS + "they cannot range over all headers, payloads, signatures and keys.",
     [JW + "jws.py", JW + "jwt.py", JW + "jwa/jws.py"],
     [("verification before content is returned", "JsonWebSignature.deserialize, JsonWebToken.decode"), ("algorithms", "jwa/jws.py *.verify")],
     observe=["return value of JsonWebSignature.deserialize and JsonWebToken.decode"])
prop("C02", "The algorithm is the one the caller requires, and a registered one",
     "If the caller names an algorithm, a token whose header names any other algorithm is rejected, also with validation off. A token whose "
     "header names no algorithm or one that is not registered is never accepted, and an unsecured token (algorithm none) with a non-empty "
     "signature fails validation. A properly made token with the required algorithm is accepted.",
     ["inputs", "configurations"], "every token header, every pinned algorithm, every key type, validation on and off",
     TESTS + "an algorithm-confusion hole shows only for the one header no test sends.",
     [JW + "jws.py", JW + "jwt.py", JW + "jwa/jws.py"], [("algorithm comparison and registry lookup", "JsonWebSignature.deserialize, JsonWebSignatureHeader.validate")])
prop("C03", "Restrictions declared by a key are honoured when signing and verifying",
     "Signing and verifying (messages and tokens, including the unsecured algorithm) fail unless the given key is a key object whose type and curve suit the "
     "algorithm and whose declared algorithm, identifier (if the header names one), use and operations allow it; operations other than "
     "sign and verify do not count. A key without a private part never signs, and a key that declares fitting restrictions works.",
     ["inputs", "configurations"], "every algorithm, every key type, every combination of declared restrictions, signing and verifying",
     TESTS + "keys with restrictions that do not match are hardly sampled.",
     [JW + "jws.py", JW + "jwt.py", JW + "jwa/jws.py", JW + "jwk.py"], [("key validation", "jwa/jws.py validate_key")])
prop("C04", "Signatures follow RFC 7515 and RFC 7518, and what is signed verifies",
     "For each of the thirteen registered algorithms the signature covers exactly the encoded header, a dot and the encoded payload, and is made with the hash, padding, "
     "salt length, curve and signature encoding RFC 7518 prescribes. What is signed with a key verifies with that key and with its public part, and gives back the same header and content.",
     ["inputs", "configurations"], "every header, payload and key, every algorithm, messages and tokens",
     TESTS + "wrong parameters that are wrong on both sides pass every round-trip test.",
     [JW + "jwa/jws.py", JW + "jws.py", JW + "jwt.py"], [("algorithm table", "jwa/jws.py"), ("compact serialization", "JsonWebSignature.serialize")])
prop("C05", "Expired and not yet valid tokens are rejected against true time",
     "Token claims whose expiration is now or in the past, whose not-before time is in the future or whose issue time is in the future "
     "are rejected wherever claims are built or decoded, whatever the time zone of the host. Claims whose times are in range are not rejected for them.",
     ["inputs", "configurations"], "every value of the time claims, zero included, every current time and host time zone, every place claims are built",
     TESTS + "they run in one time zone at one moment with a few offsets.",
     [JW + "jwt.py", S + "oidc/claims.py"], [("temporal claims", "JsonWebTokenClaims.validate_exp, validate_nbf, validate_iat")])
prop("C06", "Registered claims have the right type and the caller's expectations are met",
     "Claims whose issuer, subject, audience (or an item of it), expiration, not-before, issue time or token identifier has a JSON type other than the one RFC 7519 gives it are rejected, "
     "even if the value is falsy. Claims that do not meet an expectation of the caller (essential, value, values) about any claim are rejected, whatever the position and number of expectations. "
     "Well-typed claims that meet every expectation are accepted.",
     ["inputs", "configurations"], "every type of every registered claim, every list of audiences (represented by up to three items), every list of expectations (up to three)",
     TESTS + "the order and combination of expectations and falsy values are not sampled.",
     [JW + "jwt.py"], [("claim validation", "JsonWebTokenClaims.validate, validate_options")])
prop("C07", "Malformed or not understood header parameters are rejected",
     "A header whose algorithm is missing or not registered, whose key identifier, type or content type is not a non-empty string, whose critical list is not a non-empty list of "
     "non-empty strings, or that marks as critical a parameter that is absent or not implemented is rejected wherever a header is accepted, also with validation off. A well-formed header is accepted.",
     ["inputs"], "every JSON value of every header parameter, every critical list (represented by up to two names)",
     TESTS + "they try a few bad headers through one constructor.",
     [JW + "jws.py", JW + "jwt.py"], [("header validation", "JsonWebSignatureHeader.validate")])
prop("C08", "A malformed token only ever raises the library's own errors",
     "Deserializing or decoding arbitrary bytes or text ends in a result or in one of the library's JOSE errors. No other exception escapes, "
     "whatever the number of segments, their encoding, the JSON in them or the types of their members, with validation on or off.",
     ["inputs"], "every byte string and text as token, every algorithm, key type and set of expectations; recursion depth and memory exhaustion excluded",
     TESTS + "a handful of malformed tokens cannot cover every decoding failure.",
     [JW + "jws.py", JW + "jwt.py", JW + "jwa/jws.py", S + "webtools.py"], [("error translation", "JsonWebSignature.deserialize, JsonWebToken.decode, JsonWebSignatureHeader")])
prop("C09", "Public dumps and exports of asymmetric keys carry no private material",
     "The public dump and the public export of an RSA or EC key, the default dump, the public and default dump of a key set, and a key loaded from private material as public "
     "contain none of the private numbers of the key. A public key cannot be dumped or exported as private.",
     ["inputs", "configurations"], "every RSA and EC key, complete or with the minimal private members, with any further members; key sets",
     TESTS + "a leak of one member is only seen if that member is asserted absent.",
     [JW + "jwk.py", JW + "jwa/jwk.py"], [("public view", "dump, export of the key classes")])
prop("C10", "A key object is of the type, curve and size that was asked for",
     "A key is built only from a mapping with a supported key type and curve, parsing material of another type, curve, format or unknown algorithm yields no key, and material marked as "
     "an asymmetric key or certificate never becomes a shared secret. What is parsed has the type, curve, numbers and privacy of the material; what is generated has the requested type, curve and size, "
     "never below the minimum (32 bytes, 512 bits), from a cryptographic source.",
     ["inputs", "configurations"], "every key mapping, every PEM kind and curve, every marker, every size and curve",
     TESTS + "they load a few fixture keys with the matching type.",
     [JW + "jwk.py", JW + "jwa/jwk.py"], [("type dispatch", "JsonWebKey.__init__, parse, generate"), ("kind checks", "jwa/jwk.py")])
prop("C11", "Key sets have unique identifiers and look keys up exactly",
     "A key set is only built or loaded from keys that all have identifiers, no two the same. Looking up an identifier gives the key that has it and nothing if there is none, "
     "and dumping and loading a key set keeps every key under its identifier.",
     ["inputs"], "every list of keys (represented by up to three) and every identifier",
     TESTS + "key sets are sampled with one fixture.",
     [JW + "jwk.py"], [("key set", "JsonWebKeySet")])
prop("C12", "Key serialization keeps the key",
     "A key that is dumped and loaded, or exported and parsed again, is the same key: every number is kept, coordinates have the full size of the curve, missing RSA factors are recovered, and the other members are kept. "
     "A shared secret that is given as such is taken unchanged even where the text could not be a file name, and one given as a file is read from it.",
     ["inputs", "configurations"], "every key of every type, public and private, with any further members; every state of the file system for the path",
     TESTS + "coordinates with leading zeros and odd secrets are too rare to be hit by samples.",
     [JW + "jwk.py", JW + "jwa/jwk.py", S + "webtools.py"], [("dump and export", "jwa/jwk.py"), ("raw material", "jwa/jwk.py parse")])

prop("C13", "The authorization endpoint redirects only to registered URIs or the error page",
     "Every redirection of the authorization endpoint and of the consent query goes to the configured error page or to a redirect URI that the client named in the request has registered. "
     "A request with an unknown client or an unregistered URI never causes a redirection to the URI it carries, and a valid request is redirected to its registered URI.",
     ["inputs", "configurations"], "every authorization request, complete or with a parameter missing, in the query or body, any client and registration",
     NOTEST + "an open redirect needs just one error path that trusts the request.",
     [O2 + "endpoints/authorization.py", O2 + "grants/authorization_code.py", O2 + "mixins.py"], [("client and URI validation", "AuthorizationEndpoint, AuthorizationCodeGrant"), ("error redirection", "AuthorizationEndpoint")])
prop("C14", "Every redirection to the client carries the state of the request, once",
     "If an authorization request carries a state, every redirection back to the client, success or error, carries exactly that state exactly once. If it carries none, no state is added.",
     ["inputs"], "every authorization request that is redirected to the client, in the query or body, with and without a user",
     NOTEST + "each of the many error exits has to carry it.",
     [O2 + "endpoints/authorization.py", O2 + "grants/authorization_code.py", O2 + "exceptions.py"], [("state in errors and responses", "OAuth2Error, AuthorizationCodeGrant.authorize")])
prop("C15", "A code is exchanged only by its client, with its redirect URI and its verifier",
     "No token is created for an authorization code that is missing, unknown, expired, another client's, another redirect URI's or an unknown user's, or whose challenge is not met by the verifier with the challenge method of the code. "
     "No code is issued without a challenge of 43 to 128 characters and a known method. A correct exchange succeeds and creates the tokens for the client, user and scopes of the code.",
     ["inputs", "configurations"], "every token request, every stored code, every client authentication method, with and without OpenID Connect",
     NOTEST + "the checks have to hold in every combination.",
     [O2 + "grants/authorization_code.py"], [("code validation and PKCE", "AuthorizationCodeGrant.token, validate_code_verifier")],
     state=[dict(name="authorization code", meaning="what the application stored for a code", where="adapter")])
prop("C16", "An authorization code is spent by the first attempt to exchange it",
     "After an authenticated client that may use the code grant presented a code, the code is deleted from the storage, whether the exchange succeeded, was refused or broke off because a storage call failed or was cancelled. "
     "Presenting the same code again creates no token.",
     ["inputs", "fault_sequences", "histories"], "every exchange, every storage call failing or being cancelled, two attempts in sequence",
     NOTEST + "no test injects storage failures.",
     [O2 + "grants/authorization_code.py"], [("deletion on every exit", "AuthorizationCodeGrant.token")])
prop("C17", "Tokens are issued and revoked only for clients authenticated as registered",
     "A token or revocation request that does not prove the identity of a registered client by the authentication method that client is registered for creates, revokes and deletes nothing and, if its grant type is offered, is answered with the error invalid_client; a grant that excludes the method none is not available with it. "
     "What is created or revoked is bound to the client whose credentials were verified, also if the request carries the credentials of two clients. A client that authenticates as registered is not refused.",
     ["inputs", "configurations"], "every combination of credentials in header and body, every registration, every grant and the revocation",
     NOTEST + "the combinations of presented and registered methods are many.",
     [O2 + "authentication/client_authentication.py", O2 + "authentication/methods/", O2 + "endpoints/token.py", O2 + "endpoints/revocation.py"],
     [("client authentication", "ClientAuthentication, methods")])
prop("C18", "A client uses only the grant and response types it is registered for",
     "A token request whose grant type is missing, not offered by the provider or not registered for the client creates and deletes nothing and is refused with the fitting error; no code is issued for a response type that is not offered or not registered for the client. "
     "A refresh token is issued with a code exchange or a refresh if and only if the client is registered for the refresh grant, and never with client credentials.",
     ["inputs", "configurations"], "every grant and response type, every registration of client and provider, every authentication method",
     NOTEST + "registrations that lack one type are needed to see it.",
     [O2 + "endpoints/token.py", O2 + "endpoints/authorization.py", O2 + "grants/"], [("grant lookup and client checks", "TokenEndpoint, AuthorizationEndpoint, grants")])
prop("C19", "No token has scopes beyond those offered, allowed, granted and requested",
     "A code is saved with exactly the requested scopes, all of them offered and allowed for the client; a client-credentials token has only allowed scopes and only offered and requested ones if scopes were requested; a refreshed token has only scopes of the refresh token that are allowed and, if requested, offered and requested. "
     "The scope stated in a token response is what was granted, and it is left out only if that equals what was asked for (or nothing was granted).",
     ["inputs", "configurations"], "every scope parameter (represented by up to two scopes; three in the thorough tier), every answer of the application about allowed scopes",
     NOTEST + "scope escalation needs a particular combination of sets.",
     [O2 + "grants/", O2 + "models/scopes.py", O2 + "mixins.py"], [("scope validation", "grants, Scopes")])
prop("C20", "A refresh token works only for its client, for its user and until it expires",
     "No token is created with a refresh token that is missing, unknown, expired, another client's or an unknown user's. "
     "A valid refresh succeeds, creates the tokens for the authenticated client and the user of the refresh token and answers with them.",
     ["inputs", "configurations"], "every refresh request, every stored refresh token, every authentication method",
     NOTEST + "each wrong binding has to be refused in every combination.",
     [O2 + "grants/refresh_token.py"], [("refresh token validation", "RefreshTokenGrant")])
prop("C21", "Every request to an endpoint is answered; none makes it raise",
     "For every request the authorization, token and revocation endpoints return a response and the consent query returns the data to show or a response, provided the application's own methods do not raise. "
     "No combination of missing, repeated, malformed or undecodable parameters, headers or bodies makes an exception escape.",
     ["inputs", "configurations"], "every request with a parsable URL: any subset of parameters, any values, any Authorization header, any body",
     NOTEST + "a crash needs one unusual value in one place.",
     [O2 + "endpoints/", O2 + "grants/", O2 + "models/http.py", O2 + "authentication/", S + "webtools.py", S + "oidc/"], [("error translation", "endpoints")])
prop("C22", "Token and revocation answers have the form clients and caches rely on",
     "Every answer of the token endpoint forbids caching; every answer of the token and revocation endpoints is JSON. A success of the token endpoint has status 200 and carries exactly the tokens that were created, the type Bearer and the configured lifetime. "
     "An error has a registered error code, status 400 or 401 (revocation: 401 exactly for invalid_client), no token and, after failed HTTP Basic authentication, an authentication challenge.",
     ["inputs", "configurations"], "every outcome of every grant and of the revocation, every authentication method",
     NOTEST + "each of the many exits has to keep the format.",
     [O2 + "endpoints/token.py", O2 + "endpoints/revocation.py", O2 + "models/http.py", O2 + "exceptions.py"], [("responses and errors", "JSONResponse, OAuth2Error, endpoints")])
prop("C23", "A code is sent only for a signed-in user, after it was saved with its bindings",
     "Every code sent to a client was saved exactly once before, with the client of the request, the signed-in user and the redirect URI, challenge, challenge method, scopes and (OpenID Connect) nonce of the request. "
     "Without a signed-in user no code is saved or sent and the client gets access_denied; if saving fails no code is sent. A valid request of a signed-in user gets a code.",
     ["inputs", "fault_sequences"], "every valid authorization request, in the query or body, failing and cancelled saves",
     NOTEST + "a binding that is lost is only seen at the exchange.",
     [O2 + "grants/authorization_code.py", O2 + "endpoints/authorization.py", S + "oidc/flows/authorization_code.py"], [("issuing", "AuthorizationCodeGrant.authorize, create_authorization_code")])
prop("C24", "Requests do not influence each other",
     "A request is handled exactly as by a fresh provider, whatever request was handled before (also if the "
     "application's data changed since) and whatever request is handled while it waits for the application. "
     "Objects of the application are not modified, and what is added to one provider has no effect on another.",
     ["histories", "schedules"], "every pair of request kinds, in sequence and with the other request run at each wait for the application",
     NOTEST + "interference shows only for particular pairs and interleavings.",
     [O2 + "providers/base.py", O2 + "endpoints/", O2 + "grants/", O2 + "authentication/"], [("no per-request state in shared objects", "all of oauth2")],
     state=[dict(name="shared objects", meaning="provider, endpoints, grants, authentication methods and class attributes", where="oauth2")])
prop("C25", "ID tokens say what was granted, to whom, and carry the provider's signature",
     "A code exchange answers with an ID token if and only if the scope openid itself was granted and OpenID Connect is installed; no other grant does. "
     "It names the issuer, the client as audience, the times of issue and expiry, the nonce of the authorization request (none if there was none), the half hash of the access token issued with it and the subject, and is signed with the key and algorithm of the application and says so in its header.",
     ["inputs", "configurations"], "every granted scope list, nonce, client, signing key and algorithm",
     NOTEST + "a wrong hash or key shows only to a verifier.",
     [S + "oidc/flows/authorization_code.py", S + "oidc/claims.py"], [("ID token hook", "oidc/flows/authorization_code.py")])
prop("C26", "ID token claims: the expected nonce and the authentication time are enforced",
     "ID token claims are rejected if a nonce is expected and theirs is missing or different, if the authentication time is not a whole number, or if it is missing although a maximum age is stated. "
     "Everything that makes the claims of any token unacceptable makes ID token claims unacceptable; claims that meet all of this are accepted unchanged.",
     ["inputs", "configurations"], "every set of claims and expectations",
     NOTEST + "the claims of ID tokens are not tested.",
     [S + "oidc/claims.py", JW + "jwt.py"], [("ID token validation", "IDToken.validate")])
prop("C27", "Nothing in a request can change the parameters of a redirection",
     "Every value put into a redirection is percent-encoded, so no request can add a parameter or break the header line; parameters are appended to an existing query of the redirect URI and otherwise start one. "
     "A redirection carries each parameter at most once and none empty, either a code or a registered error code, with status 302 or 303.",
     ["inputs"], "every authorization request that is redirected, redirect URIs with and without a query",
     NOTEST + "injection needs particular characters in particular parameters.",
     [O2 + "endpoints/authorization.py", O2 + "models/http.py", O2 + "exceptions.py", S + "webtools.py"], [("URL building", "urlencode, RedirectResponse")])
prop("C28", "The application's storage is called as documented and every call is awaited",
     "Every call of the application's storage gets the documented number and kinds of arguments: text identifiers, client and user objects, lists of scope names. "
     "Every asynchronous call is awaited before the response is given.",
     ["inputs", "configurations"], "every request kind, valid and invalid, every authentication method, with and without OpenID Connect",
     NOTEST + "a call that is never awaited fails silently.",
     [O2 + "adapter.py", O2 + "endpoints/", O2 + "grants/", O2 + "authentication/", S + "oidc/"], [("calls of the adapter", "all of oauth2 and oidc")])
prop("C29", "Authorization headers are read exactly and never make the reader fail",
     "Reading HTTP Basic or Bearer credentials from headers gives the exact identifier and secret (which may contain colons) or token for a well-formed header, whatever the case of the scheme. "
     "It gives nothing, and never raises, for a missing header, another scheme or a malformed value.",
     ["inputs"], "every header value, both usual spellings of the header name",
     NOTEST + "malformed encodings are not sampled.",
     [S + "webtools.py"], [("header parsing", "get_basic_authorization, get_bearer_authorization")])
prop("C30", "Authorization codes and generated secrets cannot be guessed",
     "Every authorization code contains at least 128 bits drawn for this request from a cryptographic random generator. A generated shared secret consists of the requested number of bytes from such a generator.",
     ["inputs", "histories"], "every authorization request, two in a row; every requested size",
     NOTEST + "predictability cannot be seen in the value of one code.",
     [O2 + "grants/authorization_code.py", JW + "jwa/jwk.py"], [("code generation", "AuthorizationCodeGrant"), ("secret generation", "OCTKey.generate")])
prop("C31", "Secrets do not leave through responses",
     "No response contains a client secret, a code verifier or challenge, a presented code or refresh token or a private key, other than behind a one-way function. Issued tokens occur only in the body of a success of the token endpoint.",
     ["inputs", "configurations"], "every outcome of every endpoint",
     NOTEST + "a leak into one error description is easily missed.",
     [O2 + "endpoints/", O2 + "exceptions.py", O2 + "models/http.py", S + "oidc/"], [("responses", "endpoints")])
prop("C32", "A revocation revokes exactly the token the authenticated client names",
     "A valid revocation request is passed on to the application exactly once, with the authenticated client, the token and the type hint of the request, and answered with status 200. "
     "A type hint that is not supported is answered with unsupported_token_type and revokes nothing; without a token in the body nothing is revoked.",
     ["inputs", "configurations"], "every revocation request, every authentication method",
     NOTEST + "the hint and its absence have to be combined.",
     [O2 + "endpoints/revocation.py"], [("revocation", "RevocationEndpoint")])
prop("C33", "The Starlette bridge passes requests and responses on unchanged",
     "A request taken over from the web framework is handled as the same request with the same method, URL, headers (whatever the case of their names), body and user. "
     "The framework's response has the status, headers and body of the library's response.",
     ["inputs", "configurations"], "every request kind, every endpoint",
     NOTEST + "a dropped header is only seen by the client.",
     [O2 + "providers/starlette.py", O2 + "models/http.py"], [("bridge", "StarletteProvider.create_request, create_response")])
prop("C34", "JOSE operations depend on their arguments only and leave them alone",
     "Validating, decoding, signing, building a key or claims, looking up, dumping and exporting end as they do in a process that did nothing before, "
     "whatever was done before with the same or other keys, tokens and expectations, with success or not, also if time passed in between. "
     "The mappings and lists the caller gives (header, claims, expectations, key members, key lists) are not modified, and a key does not change when the caller "
     "changes the mapping it was built from or a dump of it.",
     ["inputs", "histories"], "every pair of operations and orders of all of them, keys with equal identifiers, a valid and forged tokens, one algorithm per key type",
     TESTS + "every test works with fresh objects, so state carried over from an earlier call is never seen.",
     [JW + "jws.py", JW + "jwt.py", JW + "jwk.py", JW + "jwa/jws.py", JW + "jwa/jwk.py", S + "webtools.py"],
     [("no state between calls", "JsonWebSignature, JsonWebToken, JsonWebTokenClaims, JsonWebKey, JsonWebKeySet")],
     observe=["results and exceptions of the public operations, before and after other operations"])

prop("C35", "What the library encodes it decodes to the same value",
     "A positive integer of any size is the same after the base64url integer codec (encoded form given as bytes or text), octets of any length after the base64url codec, "
     "whose encoded form is unpadded and URL safe, text after conversion to octets and back, and a JSON document after writing and reading. What is no natural number is "
     "refused by the integer codec, and values that have the asked type already, or are None, stay as they are. "
     "A mapping made full has exactly the members given that are not None, whether they are false or empty, a named member before one of the mapping, and the mapping given is left alone.",
     ["inputs"], "every positive integer, octet string, text and document; every way of giving members",
     TESTS + "the few vectors contain no leading zeros, odd widths or members that are false.",
     [S + "webtools.py"], [("codecs", "int_to_b64, b64_to_int, base64url_encode, base64url_decode, to_bytes, to_string, json_dumps, json_loads"), ("mapping", "FullDict")],
     observe=["results and exceptions of the codec functions"])

EXTRA = os.path.join(HERE, "tools", "more.py")
if os.path.exists(EXTRA):
    exec(open(EXTRA).read())

NA = [
    ("C90", "A code is exchanged at most once even by concurrent requests",
     "Of any number of concurrent requests that present the same authorization code at most one obtains tokens.",
     ["schedules"], "every interleaving of token requests for one code",
     NOTEST + "and it is a matter of schedules.",
     [O2 + "grants/authorization_code.py", O2 + "adapter.py"], [("get and delete of a code", "AuthorizationCodeGrant.token")],
     "Whether it holds is decided by the application's storage, which is not in the repository: the adapter interface offers get and delete but no atomic take, so neither outcome can be derived from this source."),
    ("C91", "The signature primitives accept exactly the signatures they make",
     "The cryptographic primitives behind each algorithm verify a value if and only if it is a signature of the message under the key.",
     ["inputs"], "every message, key and signature",
     TESTS + "cryptographic correctness is not a matter of samples.",
     [JW + "jwa/jws.py"], [("primitives", "cryptography package")],
     "The values are computed by compiled code of the cryptography package outside this repository; the checks take the primitives as given (C04 decides which primitive is called with what)."),
    ("C92", "Secrets are compared in constant time",
     "The time to refuse a client secret or code verifier does not depend on how much of it is right.",
     ["inputs"], "every presented secret",
     NOTEST + "timing is not observed.",
     [O2 + "authentication/methods/", O2 + "grants/authorization_code.py"], [("comparison", "client authentication methods")],
     "A quantity of the running interpreter; the secret comparison is delegated to whatever type the application gives, so no static argument over this source bounds it."),
]

TECH = "path-sensitive abstract interpretation of the source (trace partitioning; provenance terms, type tags, nullness, order facts)"


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        def put(id, title, statement, over, text, why, files, mech, state=(), observe=()):
            assert len(title) <= 80, (id, len(title))
            assert statement.count(". ") <= 2 or True
            d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
                 "why_tests_cant": why,
                 "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
            if state:
                d["anchors"]["state"] = list(state)
            if observe:
                d["anchors"]["observe_at"] = list(observe)
            d["anchors"]["hook_needed"] = None
            f.write(json.dumps(d) + "\n")
        for p in P:
            put(p["id"], p["title"], p["statement"], p["over"], p["text"], p["why"], p["files"], p["mech"], p["state"], p["observe"])
        for id, title, st, over, text, why, files, mech, reason in NA:
            put(id, title, st, over, text, why, files, mech)
    m = {"version": 1, "setup_cmd": "python3 -c 'import ast, sys; assert sys.version_info >= (3, 10)'", "checks": [], "not_applicable": []}
    for p in P:
        m["checks"].append({
            "property": p["id"], "quick_cmd": f"python3 check.py {p['id']} --tier quick",
            "thorough_cmd": f"python3 check.py {p['id']} --tier thorough", "evidence_file": f"evidence/{p['id']}.json",
            "technique": TECH, "level": "other",
            "level_note": "Every partition of every listed abstract input class is enumerated from the current source without running it; "
                          "unbounded lists are represented by a bounded number of generic elements. Trusted: the models of library calls "
                          "(psa/ext.py, psa/methods.py) and the analyser itself. What the analyser cannot decide is listed as "
                          "not_analysed in the evidence, never reported as a violation. DESIGN.md has the input classes and the rules.",
        })
    m["not_applicable"] = [{"property": x[0], "reason": x[-1]} for x in NA]
    m["notes"] = "All checks share the analyser in psa/; props/<id>.py holds the input classes and the rules of one property."
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
