"""Models of the libraries psion calls: the trusted base of the analysis.

Each model says what an external operation returns for the abstract operands, which
exceptions it can raise, and which event it leaves in the trace.  Anything that has no
model yields an unconstrained ("wild") value and is recorded, so that a check can tell
"shown" from "not understood".
"""

from __future__ import annotations

import base64 as _b64
import ast
import binascii as _binascii
import hashlib as _hashlib
import json as _json
import math
import string as _string
import urllib.parse as _up

from . import methods as MM
from . import models as M
from .ctx import NUMERIC, tag_of_const
from .values import *
from .values import (T_ANY, T_BOOL, T_BYTES, T_DICT, T_FLOAT, T_INT, T_JSON, T_LIST,
                     T_NUM, T_OBJ, T_STR)

NOW = Term("sym", ("now",), T_INT)
NOWF = Term("nowf", (), T_FLOAT)
# a later moment, for what happens after time passed
LATER = Term("sym", ("later",), T_INT)
LATERF = Term("nowf", (LATER,), T_FLOAT)


def now(I):
    return LATER if getattr(I.ctx, "late", False) else NOW


def nowf(I):
    return LATERF if getattr(I.ctx, "late", False) else NOWF
TZ = Term("sym", ("local-utc-offset",), T_INT)

EXC_BASES = {
    "binascii.Error": ["ValueError"],
    "binascii.Incomplete": ["Exception"],
    "json.JSONDecodeError": ["ValueError"],
    "json.decoder.JSONDecodeError": ["ValueError"],
    "struct.error": ["Exception"],
    "cryptography.exceptions.InvalidSignature": ["Exception"],
    "cryptography.exceptions.InvalidKey": ["Exception"],
    "cryptography.exceptions.UnsupportedAlgorithm": ["Exception"],
    "cryptography.exceptions.AlreadyFinalized": ["Exception"],
    "asyncio.CancelledError": ["BaseException"],
    "asyncio.TimeoutError": ["TimeoutError"],
    "enum.EnumError": ["Exception"],
    "socket.error": ["OSError"],
    "starlette.exceptions.HTTPException": ["Exception"],
}

C = "cryptography.hazmat.primitives."
ALIASES = {
    "json.decoder.JSONDecodeError": "json.JSONDecodeError",
    "typing.OrderedDict": "collections.OrderedDict",
}
CURVES = {"SECP256R1": ("secp256r1", 256), "SECP384R1": ("secp384r1", 384),
          "SECP521R1": ("secp521r1", 521), "SECP256K1": ("secp256k1", 256),
          "SECP224R1": ("secp224r1", 224), "SECP192R1": ("secp192r1", 192)}
HASHES = {"SHA1": 20, "SHA224": 28, "SHA256": 32, "SHA384": 48, "SHA512": 64, "MD5": 16,
          "SHA512_224": 28, "SHA512_256": 32, "SHA3_256": 32, "SHA3_384": 48, "SHA3_512": 64}
BLOCK = {"SHA1": 64, "SHA224": 64, "SHA256": 64, "SHA384": 128, "SHA512": 128, "MD5": 64}


def install(I):
    pass


def N(I, v):
    return M.N(I, v)


def arg(a, k, i, name, default=None):
    if name in k:
        return k[name]
    return a[i] if i < len(a) else default


# ===================================================================== constants
FROM_SOURCE = {f"{m}.{n}": n for m, ns in {
    "itertools": "islice takewhile dropwhile filterfalse starmap groupby zip_longest accumulate product pairwise"
                 " compress batched combinations permutations tee count cycle",
    "contextlib": "AbstractContextManager AbstractAsyncContextManager ContextDecorator AsyncContextDecorator closing"
                  " aclosing ExitStack AsyncExitStack",
    "asyncio": "TaskGroup timeout timeout_at Semaphore BoundedSemaphore to_thread Queue Event",
    "collections": "ChainMap deque Counter",
    "functools": "singledispatch singledispatchmethod cmp_to_key",
    "io": "StringIO BytesIO",
}.items() for n in ns.split()}
FROM_SOURCE["weakref.ref"] = "WeakReference"
FROM_SOURCE["weakref.proxy"] = "weak_proxy"


def const(I, ref):
    p = ref.path
    if p in FROM_SOURCE:
        return I.import_module("_psa_stdlib").attrs[FROM_SOURCE[p]]
    if p in ("weakref.WeakKeyDictionary", "weakref.WeakValueDictionary"):
        return M.B["dict"]
    if p == "weakref.WeakSet":
        return M.B["set"]
    last = p.rsplit(".", 1)[-1]
    if p in I.modules or p in I.program.asts:
        return I.import_module(p)
    if p.startswith("string.") and hasattr(_string, last) and isinstance(getattr(_string, last), str):
        return getattr(_string, last)
    if p in ("datetime.timezone.utc", "datetime.UTC"):
        return ExtRef("datetime.timezone.utc")
    if p.startswith(C + "asymmetric.ec."):
        q = p[len(C + "asymmetric.ec."):].split(".")
        if len(q) == 2 and q[0] in CURVES:
            if q[1] == "name":
                return CURVES[q[0]][0]
            if q[1] == "key_size":
                return CURVES[q[0]][1]
    if p.startswith(C + "hashes."):
        q = p[len(C + "hashes."):].split(".")
        if len(q) == 2 and q[0] in HASHES:
            if q[1] == "digest_size":
                return HASHES[q[0]]
            if q[1] == "name":
                return q[0].lower()
            if q[1] == "block_size":
                return BLOCK.get(q[0], 64)
    if p in (C + "asymmetric.padding.PSS.MAX_LENGTH",):
        return ExtRef(p)
    if p.startswith("http.HTTPStatus."):
        import http

        m = getattr(http.HTTPStatus, last, None)
        if m is not None:
            return int(m.value)
    if p.startswith("starlette.status.HTTP_"):
        try:
            return int(last.split("_")[1])
        except (IndexError, ValueError):
            pass
    if p in ("math.inf",):
        return float("inf")
    if p.startswith("typing.") or p.startswith("types."):
        if p == "typing.TYPE_CHECKING":
            return False
        return ref
    if p == "enum.auto":
        return ref
    if p in ("os.sep",):
        return "/"
    if p in ("time.timezone", "time.altzone"):
        return M.add(I, 0, TZ, -1)
    if p.startswith("errno."):
        import errno

        v = getattr(errno, last, None)
        if v is not None:
            return v
    if last in ("__name__", "__qualname__") and "." in p:
        return p.rsplit(".", 2)[-2]
    return ref


# ===================================================================== classes of external objects
KINDS = {
    "hash": {"HashAlgorithm"},
    "curve": {"EllipticCurve"},
    "ecpub": {"EllipticCurvePublicKey", "EllipticCurvePublicKeyWithSerialization"},
    "ecpriv": {"EllipticCurvePrivateKey", "EllipticCurvePrivateKeyWithSerialization"},
    "rsapub": {"RSAPublicKey", "RSAPublicKeyWithSerialization"},
    "rsapriv": {"RSAPrivateKey", "RSAPrivateKeyWithSerialization"},
    "otherkey": set(),
    "response": {"Response"},
}


def kind_names(o):
    s = set(KINDS.get(o.kind, ()))
    if o.kind in ("hash", "curve"):
        s.add(o.attrs["cls"])
    if o.kind == "response":
        s.add(o.attrs.get("cls", "Response"))
    if o.kind == "urlparts":
        s |= {"ParseResult", "SplitResult", "tuple"}
    return s


def extobj_isinstance(I, o, path):
    return path.rsplit(".", 1)[-1] in kind_names(o)


def class_of_extobj(I, o):
    if o.kind in ("hash", "curve"):
        return ExtRef(o.attrs["path"])
    if o.kind == "range":
        return M.B["range"]
    return ExtRef("ext." + o.kind)


def isinstance_term(I, v, cls):
    name = cls.path if isinstance(cls, ExtRef) else getattr(cls, "extname", None) or ""
    last = name.rsplit(".", 1)[-1]
    if v.op == "dt":
        return last == "date" or last == "datetime" and v.args[0] != "date"
    if v.op == "td":
        return last == "timedelta"
    return None


# ===================================================================== terms with attributes
def term_attr(I, v, name):
    if v.op == "dt":
        return (dt_attr(I, v, name),)
    if v.op == "td":
        if name == "total_seconds":
            return (ABuiltin(name, lambda I, a, k: v.args[0]),)
        if name == "days":
            return (floor_div(I, v.args[0], 86400),)
        if name == "seconds":
            return (Term("mod", (v.args[0], 86400), T_INT),)
        if name == "microseconds":
            return (Term("td." + name, (v.args[0],), T_INT),)
    f = v.meta.get("attr")
    if f is not None:
        r = f(I, v, name)
        if r is not None:
            return (r,)
    return None


def is_utc(v):
    return isinstance(v, ExtRef) and v.path in ("datetime.timezone.utc", "pytz.utc", "pytz.UTC") or (
        isinstance(v, ExtObj) and v.kind == "tz" and v.attrs.get("off") == 0)


def dt(kind, lin):
    return Term("dt", (kind, lin), T_OBJ)


def floor_div(I, x, m):
    return M.binop(I, "FloorDiv", x, m)


def dt_attr(I, v, name):
    kind, val = v.args
    if name == "timestamp":
        return ABuiltin(name, lambda I, a, k: val if kind == "aware" else M.add(I, val, TZ, -1))
    if name == "replace":
        def replace(I, a, k):
            if list(k) == ["tzinfo"] and not a:
                if is_utc(k["tzinfo"]):
                    return dt("aware", val)
                if k["tzinfo"] is None:
                    return dt("naive", val)
            if set(k) <= {"microsecond"} and not a:
                return v
            units = [u for u in ("second", "minute", "hour") if u in k]
            if not a and set(k) <= {"microsecond", "second", "minute", "hour"} and all(N(I, x) == 0 for x in k.values()) \
                    and units == ["second", "minute", "hour"][:len(units)]:
                m = {1: 60, 2: 3600, 3: 86400}[len(units)]
                return dt(kind, M.binop(I, "Mult", floor_div(I, val, m), m))
            I.ctx.note_wild("datetime.replace")
            return Term("dtrep", (v,), T_OBJ)
        return ABuiltin(name, replace)
    if name == "astimezone":
        def astz(I, a, k):
            tz = arg(a, k, 0, "tz")
            if is_utc(tz):
                return v if kind == "aware" else dt("aware", M.add(I, val, TZ, -1))
            I.ctx.note_wild("astimezone")
            return Term("dtz", (v,), T_OBJ)
        return ABuiltin(name, astz)
    if name in ("utctimetuple", "timetuple"):
        return ABuiltin(name, lambda I, a, k: Term("tt", (name, kind, val), T_OBJ))
    if name == "date" and kind != "date":
        return ABuiltin(name, lambda I, a, k: dt("date", floor_div(I, val, 86400)))
    if name == "toordinal" and kind == "date":
        return ABuiltin(name, lambda I, a, k: val)
    if name == "tzinfo":
        return None if kind == "naive" else ExtRef("datetime.timezone.utc")
    if name in ("isoformat", "strftime", "ctime"):
        return ABuiltin(name, lambda I, a, k: Term("dtfmt", (v, name) + tuple(M._atom(I, x) for x in a), T_STR))
    if name in ("year", "month", "day", "hour", "minute", "second", "microsecond"):
        return Term("dt." + name, (v,), T_INT)
    return ABuiltin(name, lambda I, a, k: _wild(I, f"datetime.{name}"))


def _wild(I, what, ty=T_ANY):
    I.ctx.note_wild(what)
    return Term("wild", (what, I.ctx.fresh("wild")), ty)


# ===================================================================== attributes of external objects
def method(name, f, is_async=False):
    return ABuiltin(name, f, is_async)


def extobj_attr(I, o, name):
    if "." + name in o.attrs:
        return o.attrs["." + name]
    f = ATTRS.get(o.kind)
    if f is not None:
        r = f(I, o, name)
        if r is not M.MISSING:
            return r
    if name in o.attrs and o.kind not in ("partial", "lru"):
        return o.attrs[name]
    if name == "__class__":
        return class_of_extobj(I, o)
    if o.kind in CLOSED:
        I.throw("AttributeError", f"'{o.kind}' object has no attribute {name!r}")
    return _wild(I, f"attribute {name} of {o.kind}")


CLOSED = {"hash", "curve", "ecpub", "ecpriv", "rsapub", "rsapriv", "otherkey", "ecpubnum", "ecprivnum", "rsapubnum",
          "rsaprivnum", "hasher", "hmac", "range", "file", "slice"}


def a_hash(I, o, name):
    if name == "name":
        return o.attrs["cls"].lower().replace("_", "-") if "512_" in o.attrs["cls"] else o.attrs["cls"].lower()
    if name == "digest_size":
        return HASHES[o.attrs["cls"]]
    if name == "block_size":
        return BLOCK.get(o.attrs["cls"], 64)
    return M.MISSING


def a_curve(I, o, name):
    if name in ("name", "key_size"):
        return CURVES[o.attrs["cls"]][0 if name == "name" else 1]
    return M.MISSING


def num(I, v, what):
    v = N(I, v)
    if isinstance(v, bool) or isinstance(v, int):
        return v
    if isinstance(v, Term):
        tags = I.ctx.tags(v)
        if tags <= {"int", "bool"}:
            return v
        if "int" in tags and I.ctx.decide_type(v, T_INT):
            return v
    I.throw("TypeError", f"{what} must be an integer")


def key_id(o):
    """The identity of a key pair: its public part."""
    a = o.attrs
    if o.kind in ("ecpub", "ecpriv"):
        return Term("eckey", (a["curve"].attrs["cls"], a["x"], a["y"]), T_OBJ)
    if o.kind in ("rsapub", "rsapriv"):
        return Term("rsakey", (a["n"], a["e"]), T_OBJ)
    return Term("otherkey", (), T_OBJ)


def key_material(o):
    a = o.attrs
    return {
        "ecpub": lambda: ("ec", a["curve"].attrs["cls"], a["x"], a["y"]),
        "ecpriv": lambda: ("ec", a["curve"].attrs["cls"], a["x"], a["y"], a["d"]),
        "rsapub": lambda: ("rsa", a["n"], a["e"]),
        "rsapriv": lambda: ("rsa", a["n"], a["e"], a["d"], a["p"], a["q"], a["dmp1"], a["dmq1"], a["iqmp"]),
    }.get(o.kind, lambda: ("other",))()


def curve_obj(cls):
    return ExtObj("curve", cls=cls, path=C + "asymmetric.ec." + cls)


def mk_ecpub(curve, x, y):
    return ExtObj("ecpub", curve=curve, x=x, y=y)


def mk_ecpriv(curve, x, y, d):
    return ExtObj("ecpriv", curve=curve, x=x, y=y, d=d)


def sig_params(I, kind, args, kwargs, start):
    """Signature scheme parameters as a hashable tuple."""
    rest = list(args[start:])
    if kind in ("ecpub", "ecpriv"):
        s = rest[0] if rest else kwargs.get("signature_algorithm")
        s = I.ctx.n(s)
        if isinstance(s, ExtObj) and s.kind == "ecdsa":
            h = s.attrs["hash"]
            return ("ECDSA", h.attrs["cls"] if isinstance(h, ExtObj) else h)
        return ("?", M._atom(I, s))
    pad = I.ctx.n(rest[0] if rest else kwargs.get("padding"))
    h = I.ctx.n(rest[1] if len(rest) > 1 else kwargs.get("algorithm"))
    hn = h.attrs["cls"] if isinstance(h, ExtObj) and h.kind == "hash" else "?"
    if not isinstance(pad, ExtObj) or pad.kind not in ("pkcs1", "pss"):
        I.throw("TypeError", "Padding must be an instance of AsymmetricPadding.")
    if pad.kind == "pkcs1":
        return ("PKCS1v15", hn)
    mgf = pad.attrs["mgf"]
    mh = mgf.attrs["hash"] if isinstance(mgf, ExtObj) else None
    salt = N(I, pad.attrs["salt"])
    if isinstance(salt, ExtRef):
        salt = "MAX"
    return ("PSS", mh.attrs["cls"] if isinstance(mh, ExtObj) else "?", salt, hn)


def need_bytes(I, v, what="data"):
    v = N(I, v)
    if isinstance(v, bytes):
        return v
    if isinstance(v, Term):
        tags = I.ctx.tags(v)
        if tags == T_BYTES:
            return v
        if "bytes" in tags and I.ctx.decide_type(v, T_BYTES):
            return v
    I.throw("TypeError", f"{what} must be bytes")


def a_key(I, o, name):
    a = o.attrs
    ec = o.kind.startswith("ec")
    if name == "key_size":
        return CURVES[a["curve"].attrs["cls"]][1] if ec else Term("keysize", (a["n"],), T_INT)
    if name == "curve" and ec:
        return a["curve"]
    if name == "public_numbers" and o.kind in ("ecpub", "rsapub"):
        if ec:
            return method(name, lambda I, x, k: ExtObj("ecpubnum", curve=a["curve"], x=a["x"], y=a["y"]))
        return method(name, lambda I, x, k: ExtObj("rsapubnum", n=a["n"], e=a["e"]))
    if o.kind in ("ecpriv", "rsapriv"):
        if name == "public_key":
            if ec:
                return method(name, lambda I, x, k: mk_ecpub(a["curve"], a["x"], a["y"]))
            return method(name, lambda I, x, k: ExtObj("rsapub", n=a["n"], e=a["e"]))
        if name == "private_numbers":
            if ec:
                return method(name, lambda I, x, k: ExtObj(
                    "ecprivnum", private_value=a["d"],
                    public_numbers=ExtObj("ecpubnum", curve=a["curve"], x=a["x"], y=a["y"])))
            return method(name, lambda I, x, k: ExtObj(
                "rsaprivnum", **{n: a[n] for n in ("p", "q", "d", "dmp1", "dmq1", "iqmp")},
                public_numbers=ExtObj("rsapubnum", n=a["n"], e=a["e"])))
        if name == "sign":
            def sign(I, x, k):
                data = need_bytes(I, arg(x, k, 0, "data"))
                params = sig_params(I, o.kind, x, k, 1)
                g = Term("sig", (key_id(o), params, data), T_BYTES)
                I.ctx.event("sign", key=key_id(o), params=params, data=data)
                return Term("dersig", (g,), T_BYTES) if ec else g
            return method(name, sign)
        if name == "private_bytes":
            def pb(I, x, k):
                enc = I.ctx.n(arg(x, k, 0, "encoding"))
                fmt = I.ctx.n(arg(x, k, 1, "format"))
                e = I.ctx.n(arg(x, k, 2, "encryption_algorithm"))
                op = "pem" if isinstance(enc, ExtRef) and enc.path.endswith(".PEM") else "der!"
                pw = e.attrs.get("password") if isinstance(e, ExtObj) else None
                f = fmt.path.rsplit(".", 1)[-1] if isinstance(fmt, ExtRef) else "?"
                return Term(op, ("private", key_material(o), f, pw), T_BYTES)
            return method(name, pb)
    if o.kind in ("ecpub", "rsapub"):
        if name == "verify":
            def verify(I, x, k):
                s = need_bytes(I, arg(x, k, 0, "signature"), "signature")
                data = need_bytes(I, arg(x, k, 1, "data"))
                params = sig_params(I, o.kind, x, k, 2)
                ok = sig_ok(I, key_id(o), params, s, data, ec)
                I.ctx.event("verify", key=key_id(o), params=params, sig=s, data=data, ok=ok)
                if not ok:
                    I.throw("InvalidSignature!", implicit=False) if False else throw_ext(I, "cryptography.exceptions.InvalidSignature")
                return None
            return method(name, verify)
        if name == "public_bytes":
            def pub(I, x, k):
                enc = I.ctx.n(arg(x, k, 0, "encoding"))
                fmt = I.ctx.n(arg(x, k, 1, "format"))
                op = "pem" if isinstance(enc, ExtRef) and enc.path.endswith(".PEM") else "der!"
                f = fmt.path.rsplit(".", 1)[-1] if isinstance(fmt, ExtRef) else "?"
                return Term(op, ("public", key_material(o), f, None), T_BYTES)
            return method(name, pub)
    if name in ("curve", "x", "y", "d", "n", "e", "p", "q", "dmp1", "dmq1", "iqmp"):
        I.throw("AttributeError", f"'{o.kind}' object has no attribute {name!r}")
    return M.MISSING


def throw_ext(I, path, *args):
    cls = M.ext_class(I, path)
    e = PyExc(I.make_exc(cls, *args), I.ctx.where())
    raise e


def sig_ok(I, key, params, s, data, ec):
    c = I.ctx
    g = None
    if isinstance(s, Term):
        if ec and s.op == "dersig":
            g = s.args[0]
        elif not ec and s.op == "sig":
            g = s
    if g is not None:
        same = g.args[0] is key and g.args[1] == params and (
            g.args[2] is data or g.args[2] == data or c.known_eq(g.args[2], data) is True)
        if same:
            return True
        if g.args[0] is not key or g.args[1] != params:
            return False
        return M.equal(I, g.args[2], data)
    if isinstance(s, bytes) and not s:
        return False
    return c.choose("sigvalid", (key, Term("params", (params,)), s, data), [True, False])


def a_num(I, o, name):
    a = o.attrs
    if o.kind == "ecpubnum" and name == "public_key":
        return method(name, lambda I, x, k: mk_ecpub(a["curve"], a["x"], a["y"]))
    if o.kind == "rsapubnum" and name == "public_key":
        return method(name, lambda I, x, k: ExtObj("rsapub", n=a["n"], e=a["e"]))
    if o.kind == "ecprivnum" and name == "private_key":
        p = a["public_numbers"]
        return method(name, lambda I, x, k: mk_ecpriv(p.attrs["curve"], p.attrs["x"], p.attrs["y"], a["private_value"]))
    if o.kind == "rsaprivnum" and name == "private_key":
        p = a["public_numbers"]
        return method(name, lambda I, x, k: ExtObj(
            "rsapriv", n=p.attrs["n"], e=p.attrs["e"], **{n: a[n] for n in ("p", "q", "d", "dmp1", "dmq1", "iqmp")}))
    if name in a:
        return a[name]
    return M.MISSING


def a_hasher(I, o, name):
    if name == "update":
        def up(I, a, k):
            I.ctx.touch(o, "update")
            o.attrs["data"] = M.mk_cat(I, "bytes", [o.attrs["data"], need_bytes(I, a[0])])
        return method(name, up)
    if name in ("digest", "finalize", "hexdigest"):
        def dig(I, a, k):
            t = digest(I, o.attrs["algo"], o.attrs["data"])
            if name == "hexdigest":
                return t.hex() if isinstance(t, bytes) else Term("hex", (t,), T_STR)
            return t
        return method(name, dig)
    if name == "copy":
        return method(name, lambda I, a, k: ExtObj("hasher", algo=o.attrs["algo"], data=o.attrs["data"]))
    if name == "digest_size":
        return HASHES.get(o.attrs["algo"].upper(), 32)
    if name == "name":
        return o.attrs["algo"]
    return M.MISSING


def digest(I, algo, data):
    data = N(I, data)
    if isinstance(data, bytes) and hasattr(_hashlib, algo):
        return getattr(_hashlib, algo)(data).digest()
    return Term("hash", (algo, data), T_BYTES)


def a_hmac(I, o, name):
    def mac():
        return Term("mac", (o.attrs["algo"], o.attrs["key"], o.attrs["data"]), T_BYTES)
    if name == "update":
        def up(I, a, k):
            I.ctx.touch(o, "update")
            o.attrs["data"] = M.mk_cat(I, "bytes", [o.attrs["data"], need_bytes(I, a[0])])
        return method(name, up)
    if name in ("finalize", "digest"):
        def fin(I, a, k):
            I.ctx.event("sign", key=o.attrs["key"], params=("HMAC", o.attrs["algo"]), data=o.attrs["data"])
            return mac()
        return method(name, fin)
    if name == "hexdigest":
        return method(name, lambda I, a, k: Term("hex", (mac(),), T_STR))
    if name == "copy":
        return method(name, lambda I, a, k: ExtObj("hmac", **o.attrs))
    if name == "verify":
        def verify(I, a, k):
            s = need_bytes(I, arg(a, k, 0, "signature"), "signature")
            ok = M.equal(I, mac(), s)
            I.ctx.event("verify", key=o.attrs["key"], params=("HMAC", o.attrs["algo"]), sig=s,
                        data=o.attrs["data"], ok=ok)
            if not ok:
                throw_ext(I, "cryptography.exceptions.InvalidSignature")
        return method(name, verify)
    return M.MISSING


def a_file(I, o, name):
    if name == "read":
        mode = o.attrs["mode"]
        return method(name, lambda I, a, k: Term("filecontent", (o.attrs["path"],), T_BYTES if "b" in mode else T_STR))
    if name in ("close", "flush"):
        return method(name, lambda I, a, k: None)
    return M.MISSING


def a_urlparts(I, o, name):
    a = o.attrs
    if name in a["over"]:
        return a["over"][name]
    url = a["url"]
    if name in ("scheme", "netloc", "path", "query", "fragment", "params", "hostname", "username", "password"):
        if isinstance(url, str):
            return getattr(_up.urlparse(url), name)
        m = url.meta.get("url")
        if m is not None and name in m:
            return m[name]
        t = Term("url:" + name, (url,), T_STR if name not in ("hostname", "username", "password") else T_STR | {"none"})
        return t
    if name == "port":
        return Term("url:port", (url,), T_INT | {"none"})
    if name == "geturl":
        return method(name, lambda I, x, k: unparse(I, o))
    if name == "_replace":
        return method(name, lambda I, x, k: ExtObj("urlparts", url=url, over={**a["over"], **k}))
    return M.MISSING


def unparse(I, o):
    url, over = o.attrs["url"], o.attrs["over"]
    if not over:
        return url
    if set(over) <= {"query"}:
        q = over["query"]
        base = Term("url:base", (url,), T_STR)
        if not M.truth(I, q):
            return base
        return M.mk_cat(I, "str", [base, "?", q])
    return Term("url:with", (url, tuple(sorted((k, M._atom(I, v)) for k, v in over.items()))), T_STR)


def a_logger(I, o, name):
    return method("logger." + name, lambda I, a, k: None)


def a_sysrandom(I, o, name):
    return method("random." + name, lambda I, a, k: rand_fn(I, name, a, k, o.attrs["csprng"]))


def a_uuid(I, o, name):
    if name in ("hex",):
        return o.attrs["value"]
    if name == "bytes":
        return MM.encode(I, o.attrs["value"])
    return M.MISSING


def a_match(I, o, name):
    m = o.attrs.get("real")
    if name in ("group", "__getitem__"):
        return method("match.group", lambda I, a, k: extobj_getitem(I, o, a[0] if a else 0) if len(a) < 2 else tuple(
            extobj_getitem(I, o, x) for x in a))
    if m is not None and name in ("groups", "groupdict", "start", "end", "span"):
        return method("match." + name, lambda I, a, k: MM.lift(getattr(m, name)(*[N(I, x) for x in a])))
    return M.MISSING


def a_re(I, o, name):
    pat = o.attrs["pattern"]
    if name in ("match", "fullmatch", "search", "sub", "split", "findall"):
        return method("re." + name, lambda I, a, k: call(I, "re." + name, [pat] + list(a), k))
    return M.MISSING


ATTRS = {
    "hash": a_hash, "curve": a_curve, "ecpub": a_key, "ecpriv": a_key, "rsapub": a_key, "rsapriv": a_key,
    "otherkey": a_key, "ecpubnum": a_num, "ecprivnum": a_num, "rsapubnum": a_num, "rsaprivnum": a_num,
    "hasher": a_hasher, "hmac": a_hmac, "file": a_file, "urlparts": a_urlparts, "logger": a_logger,
    "sysrandom": a_sysrandom, "uuid": a_uuid, "re": a_re, "match": a_match,
}


def extobj_getitem(I, o, k):
    if o.kind == "urlparts":
        names = ["scheme", "netloc", "path", "params", "query", "fragment"] if o.attrs.get("six", True) else [
            "scheme", "netloc", "path", "query", "fragment"]
        k = N(I, k)
        if isinstance(k, int) and k < len(names):
            return extobj_attr(I, o, names[k])
    if o.kind == "match":
        if "real" in o.attrs:
            return MM.native_call(I, o.attrs["real"].group, N(I, k))
        return Term("group", (o.attrs["t"], M._atom(I, k)), T_STR)
    if o.kind in ("types", "generic"):
        return o
    I.throw("TypeError", f"'{o.kind}' object is not subscriptable")


def extobj_iter(I, o):
    if o.kind == "urlparts":
        names = ["scheme", "netloc", "path", "params", "query", "fragment"] if o.attrs.get("six", True) else [
            "scheme", "netloc", "path", "query", "fragment"]
        for n in names:
            yield extobj_attr(I, o, n)
        return
    if o.kind == "mapping":
        yield from M.iterate(I, o.attrs["d"])
        return
    I.throw("TypeError", f"'{o.kind}' object is not iterable")


def cm_enter(I, cm):
    if cm.kind in ("file", "suppress"):
        return cm
    if cm.kind in ("lock", "nullcontext"):
        return cm.attrs.get("value", cm)
    I.ctx.note_wild(f"with {cm.kind}")
    return _wild(I, "with")


def open_(I, a, k):
    p = arg(a, k, 0, "file")
    mode = N(I, arg(a, k, 1, "mode", "r"))
    pn = N(I, p)
    if not isinstance(pn, (str, bytes)) and not (isinstance(pn, Term) and I.ctx.tags(pn) & {"str", "bytes", "obj"}):
        I.throw("TypeError", "expected str, bytes or os.PathLike object")
    opts = ["missing", "file", "directory", "toolong", "nul", "denied", "notdir"]
    r = I.ctx.choose("file", (M._atom(I, pn),), opts)
    exc = {"missing": "FileNotFoundError", "directory": "IsADirectoryError", "nul": "ValueError",
           "denied": "PermissionError", "notdir": "NotADirectoryError", "toolong": "OSError"}.get(r)
    if exc:
        import errno

        e = I.make_exc(exc, {"missing": errno.ENOENT, "directory": errno.EISDIR, "denied": errno.EACCES,
                             "notdir": errno.ENOTDIR, "toolong": errno.ENAMETOOLONG}.get(r, "embedded null byte"), "open")
        if r != "nul":
            e.attrs["errno"] = e.payload[0]
        raise PyExc(e, I.ctx.where())
    return ExtObj("file", path=M._atom(I, pn), mode=mode if isinstance(mode, str) else "rb")


def call_obj(I, o, args, kwargs):
    if o.kind == "partial":
        kw = dict(o.attrs["kwargs"])
        kw.update(kwargs)
        return I.call(o.attrs["fn"], list(o.attrs["args"]) + list(args), kw)
    if o.kind == "lru":
        I.ctx.event("memo", name=getattr(o.attrs["fn"], "name", "?"))
        key = []
        for x in list(args) + [y for kv in sorted(kwargs.items()) for y in kv]:
            x = N(I, x)
            if isinstance(x, (AList, ADict, ASet)) and not (isinstance(x, ASet) and x.frozen):
                I.throw("TypeError", f"unhashable type: '{type(x).__name__[1:].lower()}'")
            key.append(ckey(x))
        key = tuple(key)
        memo = o.attrs["memo"]
        if key in memo.entries:
            return memo.entries[key].val
        v = I.call(o.attrs["fn"], args, kwargs)
        I.ctx.touch(memo, "memo")
        memo.entries[key] = Entry(key, v)
        return v
    if o.kind == "ctxmgr":
        fn = args[0]

        def run(I, a, k):
            cm = ExtObj("ctxmgr", gen=o.attrs["again"]())
            is_async = cm.attrs["gen"].is_async

            def go():
                M.cm_enter(I, cm, is_async)
                try:
                    r = I.call(fn, a, k)
                    r = I.await_(r) if is_async else r
                except PyExc as e:
                    if M.cm_exit(I, cm, e, is_async):
                        return None
                    raise
                M.cm_exit(I, cm, None, is_async)
                return r
            return ACoro(go, "contextmanager") if is_async else go()
        b = ABuiltin("contextmanager", run)
        b.cls = "method"
        return b
    if o.kind == "getter":
        return o.attrs["fn"](I, args[0])
    I.throw("TypeError", f"'{o.kind}' object is not callable")


# ===================================================================== base64
ALPHA_URL = set(b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_")


def b64_variant(I, a, k):
    alt = N(I, arg(a, k, 1, "altchars"))
    if alt is None or alt in (b"+/", "+/"):
        return "std"
    if alt in (b"-_", "-_"):
        return "url"
    I.ctx.note_wild("base64 with another alphabet")
    return "alt"


def b64_encode(I, v, variant):
    v = N(I, v)
    if isinstance(v, bytes):
        return (_b64.urlsafe_b64encode if variant == "url" else _b64.b64encode)(v)
    v = need_bytes(I, v)
    return Term("b64", (variant, True, v), T_BYTES)


def _eval(I, e, x, n):
    """Value of the integer expression `e` when len(x) is n; None if it has other unknowns."""
    e = N(I, e)
    if isinstance(e, (int, bool)):
        return int(e)
    if not isinstance(e, Term):
        return None
    if e is x:
        return n
    if e.op == "len":
        return n if e.args[0] is x else None
    if e.op == "lin":
        s = e.args[1]
        for t, k in e.args[0]:
            r = _eval(I, t, x, n)
            if r is None:
                return None
            s += k * r
        return s
    if e.op in ("mod", "//", "*", "&"):
        a, b = _eval(I, e.args[0], x, n), _eval(I, e.args[1], x, n)
        if a is None or b is None or (e.op in ("mod", "//") and not b):
            return None
        return {"mod": lambda: a % b, "//": lambda: a // b, "*": lambda: a * b, "&": lambda: a & b}[e.op]()
    if e.op in ("USub", "Invert"):
        a = _eval(I, e.args[0], x, n)
        return None if a is None else (-a if e.op == "USub" else ~a)
    return None


def checksum(I, name, a):
    """A number that other data may have too."""
    v = need_bytes(I, a[0])
    if isinstance(v, bytes) and len(a) == 1:
        import zlib
        return getattr(zlib, name)(v)
    return Term("checksum", (name, v) + tuple(N(I, x) for x in a[1:]), T_INT)


def b64_decode(I, v, variant, validate=False):
    v = N(I, v)
    if isinstance(v, Term) and I.ctx.tags(v) == T_STR or isinstance(v, str):
        if MM.is_ascii(I, v) is not True:
            I.throw("ValueError", "string argument should contain only ASCII characters")
        v = MM.encode(I, v)
    if isinstance(v, bytes):
        try:
            return (_b64.urlsafe_b64decode if variant == "url" else _b64.b64decode)(v)
        except _binascii.Error as e:
            throw_ext(I, "binascii.Error", str(e))
    if not isinstance(v, Term) or not I.ctx.tags(v) & {"bytes", "str"}:
        I.throw("TypeError", "argument should be a bytes-like object or ASCII string")
    if I.ctx.tags(v) != T_BYTES:
        if not I.ctx.decide_type(v, T_BYTES | T_STR):
            I.throw("TypeError", "argument should be a bytes-like object or ASCII string")
        if I.ctx.decide_type(v, T_STR):
            return b64_decode(I, v, variant, validate)
    ps = M.parts(I, v)
    pads = []
    while ps and ((isinstance(ps[-1], bytes) and set(ps[-1]) <= set(b"=")) or (
            isinstance(ps[-1], Term) and ps[-1].op == "rep" and ps[-1].args[0] in (b"=", "="))):
        pads.insert(0, ps.pop())
    x = M.mk_cat(I, "bytes", ps)
    while isinstance(x, Term) and x.op == "strip" and x.args[1] is None and not validate:
        x = x.args[0]   # white space is skipped in any case
    if isinstance(x, Term) and x.op == "b64" and x.args[0] in ("url", "std"):
        inner = x.args[2]
        if x.args[0] != variant:
            return Term("b64garbage", (variant, x), T_BYTES)
        if x.args[1]:
            return inner
        kl = M.known_len(I, inner)
        residues = [0, 2, 3] if kl is None else [{0: 0, 1: 2, 2: 3}[kl % 3]]
        left = M.binop(I, "Mod", M.length(I, x), 4)
        if isinstance(left, Term):
            residues = [r for r in residues if I.ctx.is_zero(left, r) is not False]
        bad = False
        for r in residues:
            for base in (4, 8):
                n = base + r
                tot = 0
                for p in pads:
                    if isinstance(p, bytes):
                        tot += len(p)
                    else:
                        c = _eval(I, p.args[1], x, n)
                        tot = None if c is None or tot is None else tot + max(0, c)
                if tot is None or tot < (-n) % 4:
                    bad = True
        if bad:
            I.may_raise("b64pad", (x,), "ValueError") if False else None
            if I.ctx.choose("raises:b64pad", (x,), [False, True]):
                throw_ext(I, "binascii.Error", "Incorrect padding")
        return inner
    if I.ctx.choose("raises:b64", (x,), [False, True]):
        throw_ext(I, "binascii.Error", "Invalid base64")
    if x == b"":
        return b""
    return Term("b64d", (x, variant), T_BYTES)


# ===================================================================== JSON
def json_check(I, v):
    v = I.ctx.n(v)
    if isinstance(v, Term):
        tags = I.ctx.tags(v)
        if v.op in ("list", "tuple"):
            for x in v.args:
                json_check(I, x)
            return
        if v.op == "dict":
            for k, x in v.args:
                k = I.ctx.n(k)
                if isinstance(k, (bytes, tuple)) or (isinstance(k, Term) and I.ctx.tags(k) == T_BYTES):
                    I.throw("TypeError", "keys must be str, int, float, bool or None")
                json_check(I, x)
            return
        if tags & {"bytes", "set"} and not tags - {"bytes", "set"}:
            I.throw("TypeError", "Object is not JSON serializable")
        if v.op == "set" or v.op in ("dt", "td"):
            I.throw("TypeError", "Object is not JSON serializable")
        return
    if isinstance(v, NATIVE):
        if isinstance(v, bytes):
            I.throw("TypeError", "Object of type bytes is not JSON serializable")
        return
    if isinstance(v, AObj) and v.cls.is_enum and v.payload is None:
        I.throw("TypeError", "Object is not JSON serializable")
    I.throw("TypeError", "Object is not JSON serializable")


def too_deep(I, v, stages):
    """Does handling `v` exceed the recursion limit?"""
    deep = I.ctx.scenario.deep
    if not deep:
        return
    v = N(I, v)
    if isinstance(v, AObj):
        v = N(I, v.payload)
    found = [v] if isinstance(v, Term) else [x.args[0] for x in v.sources if isinstance(x, Term) and x.args] if isinstance(v, ADict) else []
    if any(deep.get(x) in stages for x in found):
        I.throw("RecursionError", "maximum recursion depth exceeded")


def json_dumps(I, a, k):
    v = arg(a, k, 0, "obj")
    too_deep(I, v, ("read", "copy"))
    f = M.freeze(I, v)
    if "default" in k or "cls" in k:
        I.ctx.note_wild("json.dumps with a custom encoder")
    else:
        json_check(I, f)
    if f is None or isinstance(f, (bool, int, float, str)):
        return _json.dumps(f, ensure_ascii=k.get("ensure_ascii", True) is not False)
    raw = k.get("ensure_ascii", True) is False
    t = Term("json", (f, raw), T_STR)
    if raw:
        t.meta["raw"] = True
    t.meta["nonempty"] = True
    return t


def json_hooks(I, v, k):
    """A document read with hooks: object_hook and parse_int are applied to what is known of it."""
    hook, num = N(I, k.get("object_hook")), N(I, k.get("parse_int"))
    pairs = N(I, k.get("object_pairs_hook"))
    name = lambda f: getattr(f, "name", None)
    hook = None if name(hook) == "dict" else hook
    pairs = None if name(pairs) in ("dict", "OrderedDict") else pairs
    num = None if name(num) == "int" else num
    if pairs is not None or N(I, k.get("cls")) is not None:
        I.ctx.note_wild("json.loads with a custom decoder")
        return v
    if hook is None and num is None:
        return v

    def walk(x):
        x = N(I, x)
        if isinstance(x, ADict):
            if x.sources:
                I.ctx.note_wild("json.loads with a hook")
            for e in list(x.entries.values()):
                M.dict_set(I, x, e.key, walk(e.val))
            return I.call(hook, [x], {}) if hook is not None else x
        if isinstance(x, AList):
            x.items = [walk(y) for y in x.items]
            return x
        if num is not None and not isinstance(x, bool) and (isinstance(x, int) or isinstance(x, Term) and I.ctx.tags(x) == T_INT):
            return I.call(num, [x], {})
        if isinstance(x, Term) and (I.ctx.tags(x) & {"dict", "list", "obj"} or num is not None and "int" in I.ctx.tags(x)):
            I.ctx.note_wild("json.loads with a hook")
        return x
    return walk(v)


def json_loads(I, a, k):
    v = json_read(I, a, k)
    return json_hooks(I, v, k) if len(k) > ("s" in k) else v


def json_read(I, a, k):
    v = N(I, arg(a, k, 0, "s"))
    if isinstance(v, Term) and v.op == "enc":
        v = v.args[0]
    if isinstance(v, (str, bytes)):
        try:
            return MM.lift(_json.loads(v))
        except ValueError as e:
            throw_ext(I, "json.JSONDecodeError", str(e))
    if isinstance(v, Term):
        if v.op == "json":
            too_deep(I, v.args[0], ("read",))
            return M.thaw(I, v.args[0])
        tags = I.ctx.tags(v)
        if not tags & {"str", "bytes"} or not I.ctx.decide_type(v, T_STR | T_BYTES):
            I.throw("TypeError", "the JSON object must be str, bytes or bytearray")
        if tags == T_BYTES:
            # bytes are decoded first
            v = MM.decode(I, v)
        if isinstance(v, Term) and v.op == "dec" and isinstance(v.args[0], Term) and v.args[0].op == "b64":
            throw_ext(I, "json.JSONDecodeError", "Expecting value") if v.args[0].meta.get("fallback") else None
        if I.ctx.choose("raises:json", (v,), [False, True]):
            throw_ext(I, "json.JSONDecodeError", "Expecting value")
        return Term("jsonv", (v,), T_JSON)
    I.throw("TypeError", "the JSON object must be str, bytes or bytearray")


# ===================================================================== copies
def deepcopy(I, v, memo=None):
    memo = {} if memo is None else memo
    v = I.ctx.n(v)
    if id(v) in memo:
        return memo[id(v)]
    too_deep(I, v, ("read", "copy"))
    if isinstance(v, tuple):
        return tuple(deepcopy(I, x, memo) for x in v)
    if isinstance(v, AList):
        n = AList()
        memo[id(v)] = n
        n.items = [deepcopy(I, x, memo) for x in v.items]
        return n
    if isinstance(v, ASet):
        return ASet([deepcopy(I, x, memo) for x in v.items], v.frozen)
    if isinstance(v, ADict):
        n = M.dict_copy(I, v)
        memo[id(v)] = n
        for e in n.entries.values():
            e.val = deepcopy(I, e.val, memo)
        return n
    if isinstance(v, AObj):
        m = M.find_method(I, v, "__deepcopy__")
        if m is not None:
            return I.call(m, [ADict()], {})
        if v.cls.is_enum:
            return v
        n = AObj(v.cls)
        memo[id(v)] = n
        n.payload = deepcopy(I, v.payload, memo) if v.payload is not None else None
        n.attrs = {k: deepcopy(I, x, memo) for k, x in v.attrs.items()}
        return n
    return v


def shallow(I, v):
    v = I.ctx.n(v)
    if isinstance(v, AList):
        return AList(v.items)
    if isinstance(v, ASet):
        return ASet(v.items, v.frozen)
    if isinstance(v, ADict):
        return M.dict_copy(I, v)
    if isinstance(v, AObj) and not v.cls.is_enum:
        n = AObj(v.cls)
        n.payload = shallow(I, v.payload) if v.payload is not None else None
        n.attrs = dict(v.attrs)
        return n
    return v


# ===================================================================== randomness
def rand(I, ty, length, bits, csprng, alphabet=None):
    t = Term("rand", (I.ctx.fresh("r"), csprng, length if isinstance(length, (int, Term)) else None), ty)
    t.meta["bits"] = bits
    t.meta["csprng"] = csprng
    if isinstance(length, int):
        t.meta["len"] = length
    if alphabet is not None:
        t.meta["alphabet"] = alphabet
    t.meta["nonempty"] = True
    return t


B64A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"


def rand_fn(I, name, a, k, csprng):
    if name == "choice":
        seq = I.ctx.n(a[0])
        if isinstance(seq, AList):
            items = seq.items
        elif isinstance(seq, (str, tuple, bytes)):
            items = list(seq)
        else:
            return _wild(I, "choice of unknown")
        if not items:
            I.throw("IndexError", "Cannot choose from an empty sequence")
        alpha = "".join(str(x) for x in items) if all(isinstance(N(I, x), str) for x in items) else None
        bits = math.log2(len(set(alpha))) if alpha and len(set(alpha)) else math.log2(max(1, len(items)))
        if alpha is not None and all(len(x) == 1 for x in items):
            return rand(I, T_STR, 1, bits, csprng, alpha)
        return rand(I, T_ANY if alpha is None else T_STR, None, bits, csprng, alpha)
    if name == "choices" or name == "sample":
        n = N(I, k.get("k", a[1] if len(a) > 1 and name == "sample" else 1))
        return AList([rand_fn(I, "choice", [a[0]], {}, csprng) for _ in range(n if isinstance(n, int) else 1)])
    if name in ("randbytes", "token_bytes", "urandom"):
        n = N(I, a[0]) if a and a[0] is not None else 32
        bits = 8 * n if isinstance(n, int) else None
        return rand(I, T_BYTES, n, bits, csprng)
    if name == "token_urlsafe":
        n = N(I, a[0]) if a and a[0] is not None else 32
        ln = None if not isinstance(n, int) else (4 * n + 2) // 3
        return rand(I, T_STR, ln, 8 * n if isinstance(n, int) else None, csprng, B64A)
    if name == "token_hex":
        n = N(I, a[0]) if a and a[0] is not None else 32
        return rand(I, T_STR, 2 * n if isinstance(n, int) else None, 8 * n if isinstance(n, int) else None, csprng,
                    "0123456789abcdef")
    if name in ("getrandbits", "randbits"):
        n = N(I, a[0])
        return rand(I, T_INT, None, n if isinstance(n, int) else None, csprng)
    if name in ("randbelow", "randint", "randrange"):
        n = N(I, a[-1])
        return rand(I, T_INT, None, math.log2(n) if isinstance(n, int) and n > 0 else None, csprng)
    if name == "random":
        return rand(I, T_FLOAT, None, 53, csprng)
    if name in ("seed", "shuffle"):
        return None
    return _wild(I, f"random.{name}")


# ===================================================================== URLs
SAFE_QS = set("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_.-~+%&=")


def quote(I, s, safe, plus):
    s = N(I, s)
    safe = N(I, safe)
    if isinstance(s, str) and isinstance(safe, str):
        return (_up.quote_plus if plus else _up.quote)(s, safe=safe)
    if isinstance(s, Term) and I.ctx.tags(s) == T_BYTES:
        return Term("quote", (s, safe, plus), T_STR)
    if not isinstance(s, (str, Term)):
        I.throw("TypeError", "quote() expected a string")
    if isinstance(s, Term) and I.ctx.tags(s) != T_STR:
        if not I.ctx.tags(s) & {"str", "bytes"} or not I.ctx.decide_type(s, T_STR | T_BYTES):
            I.throw("TypeError", "quote_from_bytes() expected bytes")
    out = []
    sf = set(safe) if isinstance(safe, str) else set()
    for p in M.parts(I, s):
        if isinstance(p, str):
            out.append((_up.quote_plus if plus else _up.quote)(p, safe=safe))
        elif p.op == "qs" and set("+%&=") <= sf:
            out.append(p)
        elif p.op == "quote" and isinstance(p.args[1], str) and set(p.args[1]) | set("%+") <= sf:
            out.append(p)
        elif p.op == "rand" and p.meta.get("alphabet") and set(p.meta["alphabet"]) <= SAFE_QS - set("%&=+"):
            out.append(p)
        elif p.op == "b64" or (p.op == "dec" and isinstance(p.args[0], Term) and p.args[0].op == "b64" and not p.args[0].args[1] and p.args[0].args[0] == "url"):
            out.append(p)
        else:
            out.append(Term("quote", (p, safe, plus), T_STR))
    return M.mk_cat(I, "str", out)


def urlencode(I, a, k):
    q = I.ctx.n(arg(a, k, 0, "query"))
    d = M.dict_payload(I, q) if not isinstance(q, (AList, tuple, AGen)) else None
    if isinstance(q, Term) and q.op == "pairs":
        return Term("requery", (q,), T_STR)
    if d is None:
        if isinstance(q, (AList, tuple, AGen)):
            items = []
            for p in M.iterate(I, q):
                p = I.ctx.n(p)
                if isinstance(p, Term):
                    items.append((Term("fst", (p,), T_STR), Term("snd", (p,), T_STR)))
                    continue
                kv = list(M.iterate(I, p))
                items.append((kv[0], kv[1]))
        else:
            I.throw("TypeError", "not a valid non-string sequence or mapping object")
    elif isinstance(d, Term):
        return _wild(I, "urlencode of unknown", T_STR)
    else:
        items = list(M.iter_dict(I, d))
    if not items:
        return ""
    out = []
    for kk, v in items:
        kk = N(I, kk)
        v = I.ctx.n(v)
        if isinstance(v, AObj) and v.payload is not None:
            v = N(I, v)
        if isinstance(v, (AList, ADict, ASet, tuple)):
            v = Term("str", (M.freeze(I, v),), T_STR)
        elif not isinstance(v, (str, bytes)):
            v = v if isinstance(v, Term) and I.ctx.tags(v) <= {"str", "bytes"} else M.str_(I, v)
        out.append((M._atom(I, kk), M._atom(I, v)))
    safe = N(I, arg(a, k, 2, "safe", ""))
    via = arg(a, k, 5, "quote_via")
    plain = via is None or isinstance(via, ABuiltin) and via.name.rsplit(".", 1)[-1] in ("quote", "quote_plus")
    if safe not in ("", b"") or not plain:
        # encoded in another way
        ps = []
        for kk, v in out:
            for x, end in ((kk, "="), (v, "&")):
                x = quote(I, x, safe if isinstance(safe, str) else "&", True) if plain else I.call(via, [x, safe, None, None], {})
                ps += [x, end]
        return M.mk_cat(I, "str", ps[:-1])
    t = Term("qs", tuple(out), T_STR)
    t.meta["nonempty"] = True
    t.meta["ascii"] = True
    return t


def parse_qsl(I, a, k):
    q = N(I, arg(a, k, 0, "qs"))
    blank = k.get("keep_blank_values", a[1] if len(a) > 1 else False)
    blank = M.truth(I, blank)
    strict = M.truth(I, arg(a, k, 2, "strict_parsing", False))
    limit = N(I, arg(a, k, 5, "max_num_fields"))
    if q is None:
        return AList()
    if isinstance(q, (str, bytes)):
        try:
            return MM.lift(_up.parse_qsl(q, keep_blank_values=blank, strict_parsing=strict,
                                         max_num_fields=limit if isinstance(limit, int) else None))
        except ValueError as e:
            I.throw("ValueError", str(e))
    if isinstance(q, Term) and (strict or limit is not None) and M.truth(I, q):
        # text that is not made of fields, or of too many
        if I.ctx.choose("raises:qsl", (q,), [False, True]):
            I.throw("ValueError", "bad query field")
    if isinstance(q, Term):
        tags = I.ctx.tags(q)
        if not tags & {"str", "bytes"}:
            I.throw("AttributeError", "object has no attribute 'decode'")
        f = q
        if isinstance(f, Term) and f.op in ("dec", "enc"):
            f = f.args[0]
        src = Term("qsrc", (f, blank), T_DICT)
        if "mk" not in src.meta:
            uni = f.meta.get("universe", ())
            nm = f.args[0] if f.op == "sym" else show(f)

            def mk(key, f=f, nm=nm, blank=blank):
                t = Term("param", (nm, key), T_STR)
                if not blank:
                    t.meta["nonempty"] = True
                return t
            src.meta["mk"] = mk
            src.meta["universe"] = uni
        t = Term("pairs", (src,), T_LIST)
        t.meta["src"] = src
        return t
    I.throw("TypeError", "expected a query string")


# ===================================================================== dates
def seconds_of(I, k, a):
    tot = 0
    names = ["days", "seconds", "microseconds", "milliseconds", "minutes", "hours", "weeks"]
    vals = dict(zip(names, a))
    vals.update(k)
    mul = {"days": 86400, "seconds": 1, "minutes": 60, "hours": 3600, "weeks": 604800, "microseconds": 0, "milliseconds": 0}
    for n, v in vals.items():
        tot = M.add(I, tot, M.binop(I, "Mult", v, mul[n]))
    return tot


# ===================================================================== calls
def loader(I, raw, private, password):
    raw = N(I, raw)
    c = I.ctx
    if isinstance(raw, Term) and raw.op in ("pem", "der!"):
        which, mat, fmt, pw = raw.args
        if (which == "private") != private:
            I.throw("ValueError", "Could not deserialize key data.")
        if pw is not None and password is None:
            I.throw("TypeError", "Password was not given but private key is encrypted")
        return key_from(mat, private)
    if isinstance(raw, (bytes, str)):
        I.throw("ValueError" if isinstance(raw, bytes) else "TypeError", "Could not deserialize key data.")
    kind = c.choose("pemkind", (raw, private), ["ec", "rsa", "other", "bad"])
    if kind == "bad":
        I.throw("ValueError", "Could not deserialize key data.")
    if kind == "other":
        return ExtObj("otherkey")

    def t(n, cv=None):
        x = Term("pemnum", (raw, n) + ((cv,) if cv else ()), T_INT)
        x.meta["positive"] = True
        if cv:
            x.meta["bits"] = CURVES[cv][1]
        return x
    if kind == "ec":
        cv = c.choose("pemcurve", (raw,), ["SECP256R1", "SECP384R1", "SECP521R1", "SECP256K1"])
        t_ = t

        def t(n):
            return t_(n, cv)
        return key_from(("ec", cv, t("x"), t("y")) + ((t("d"),) if private else ()), private)
    mat = ("rsa",) + tuple(t(n) for n in (("n", "e", "d", "p", "q", "dmp1", "dmq1", "iqmp") if private else ("n", "e")))
    return key_from(mat, private)


def key_from(mat, private):
    if mat[0] == "ec":
        cv = curve_obj(mat[1])
        return mk_ecpriv(cv, mat[2], mat[3], mat[4]) if private else mk_ecpub(cv, mat[2], mat[3])
    if mat[0] == "rsa":
        if private:
            return ExtObj("rsapriv", **dict(zip(("n", "e", "d", "p", "q", "dmp1", "dmq1", "iqmp"), mat[1:])))
        return ExtObj("rsapub", n=mat[1], e=mat[2])
    return ExtObj("otherkey")


def fresh_num(I, n, secret=False):
    t = Term("num", (I.ctx.fresh(n), secret), T_INT)
    t.meta["positive"] = True
    if secret:
        t.meta["secret"] = True
    return t


def compare_digest(I, a, b):
    a, b = N(I, a), N(I, b)
    for x in (a, b):
        tags = I.ctx.tags(x) if isinstance(x, (Term,) + NATIVE) else frozenset({"obj"})
        if not tags & {"str", "bytes"}:
            I.throw("TypeError", "unsupported operand types(s)")
        if not tags <= {"str", "bytes"} and not I.ctx.decide_type(x, T_STR | T_BYTES):
            I.throw("TypeError", "unsupported operand types(s)")
    a, b = N(I, a), N(I, b)
    ta, tb = I.ctx.tags(a), I.ctx.tags(b)
    if ta != tb:
        I.throw("TypeError", "a bytes-like object is required")
    if ta == T_STR:
        for x in (a, b):
            if MM.is_ascii(I, x) is not True:
                I.throw("TypeError", "comparing strings with non-ASCII characters is not supported")
    return M.equal(I, a, b)


def members(I, o, pred):
    o = I.ctx.n(o)
    names = {}
    if isinstance(o, AObj):
        for k in o.cls.mro:
            for n in k.attrs:
                names[n] = True
        for n in o.attrs:
            names[n] = True
    elif isinstance(o, AClass):
        for k in o.mro:
            for n in k.attrs:
                names[n] = True
    elif isinstance(o, AModule):
        names = dict.fromkeys(o.attrs)
    out = []
    for n in sorted(names):
        try:
            v = M.getattr_(I, o, n)
        except PyExc as e:
            if e.obj.cls.issub(M.exc_class(I, "AttributeError")):
                continue
            raise
        if pred is None or M.truth(I, I.call(pred, [v], {})):
            out.append((n, v))
    return AList(out)


def decorator_or(I, a, k, f):
    """@deco and @deco(...) forms."""
    if a and isinstance(I.ctx.n(a[0]), (AFunc, AClass, AWrap, ABuiltin)) and not k:
        return f(a[0], {})
    return ABuiltin("decorator", lambda I, x, kk: f(x[0], k))


def mk_dataclass(cls, k):
    cls.dataclass = {n: v for n, v in k.items()}
    return cls


def call(I, path, args, kwargs):
    path = ALIASES.get(path, path)
    f = CALLS.get(path)
    if f is not None:
        return f(I, args, kwargs)
    last = path.rsplit(".", 1)[-1]
    if path in ("enum.Enum", "enum.IntEnum", "enum.StrEnum", "enum.Flag") and len(args) >= 2:
        return M.instantiate(I, M.ext_class(I, path), args, kwargs)
    if path in EXC_BASES or path in I.extclasses:
        cls = M.ext_class(I, path)
        return M.instantiate(I, cls, args, kwargs)
    if path.startswith(C):
        r = call_crypto(I, path[len(C):], last, args, kwargs)
        if r is not M.MISSING:
            return r
    if path.startswith("cryptography.hazmat.backends"):
        return ExtObj("backend")
    if path.startswith("hashlib."):
        if last == "new":
            n = N(I, args[0])
            if isinstance(n, str):
                return mk_hasher(I, n, args[1:], kwargs)
            return _wild(I, "hashlib.new")
        if hasattr(_hashlib, last):
            return mk_hasher(I, last, args, kwargs)
        I.throw("AttributeError", f"module 'hashlib' has no attribute {last!r}")
    if path.startswith("random."):
        if last == "SystemRandom":
            return ExtObj("sysrandom", csprng=True)
        if last == "Random":
            return ExtObj("sysrandom", csprng=False)
        return rand_fn(I, last, args, kwargs, False)
    if path.startswith("secrets."):
        if last == "compare_digest":
            return compare_digest(I, *args[:2])
        if last == "SystemRandom":
            return ExtObj("sysrandom", csprng=True)
        return rand_fn(I, last, args, kwargs, True)
    if path.startswith("starlette.responses."):
        names = {"Response": ["content", "status_code", "headers", "media_type"],
                 "JSONResponse": ["content", "status_code", "headers", "media_type"],
                 "RedirectResponse": ["url", "status_code", "headers"]}.get(last, ["content", "status_code", "headers"])
        vals = dict(zip(names, args))
        vals.update(kwargs)
        return ExtObj("response", cls=last, vals=vals)
    if path.startswith("typing.") or path.startswith("types."):
        if last in ("cast",):
            return args[1]
        if last in ("get_args", "get_origin"):
            return _wild(I, path)
        if last in ("overload", "final", "no_type_check", "runtime_checkable", "get_type_hints"):
            return args[0]
        if last == "NewType":
            return args[1]
        if last == "SimpleNamespace":
            o = AObj(M.B["object"])
            o.attrs.update(kwargs)
            return o
        if last == "MappingProxyType":
            return args[0]
        return ExtRef(path + "()")
    if path.startswith("logging."):
        if last == "getLogger":
            return ExtObj("logger")
        return None
    if path.startswith("operator."):
        return call_operator(I, last, args, kwargs)
    if path.startswith("re."):
        return call_re(I, last, args, kwargs)
    if path.startswith("warnings."):
        if last == "warn":
            I.ctx.event("warn", args=tuple(args))
        return ExtObj("nullcontext") if last == "catch_warnings" else None
    if path.startswith("enum."):
        return args[0] if args else ExtObj("enum.auto")
    I.ctx.event("extcall", path=path)
    return _wild(I, f"call of {path}")


def mk_hasher(I, name, args, kwargs):
    data = args[0] if args else kwargs.get("data", b"")
    return ExtObj("hasher", algo=name.lower().replace("-", ""), data=need_bytes(I, data))


def call_operator(I, n, a, k):
    import ast as _ast

    ops = {"add": "Add", "concat": "Add", "sub": "Sub", "mul": "Mult", "mod": "Mod", "or_": "BitOr", "and_": "BitAnd",
           "iadd": "Add", "iconcat": "Add", "truediv": "Div", "floordiv": "FloorDiv"}
    if n in ops:
        return M.binop(I, ops[n], a[0], a[1])
    cmp_ = {"eq": _ast.Eq, "ne": _ast.NotEq, "lt": _ast.Lt, "le": _ast.LtE, "gt": _ast.Gt, "ge": _ast.GtE,
            "is_": _ast.Is, "is_not": _ast.IsNot}
    if n in cmp_:
        return I.compare(cmp_[n](), a[0], a[1])
    if n == "not_":
        return not M.truth(I, a[0])
    if n == "truth":
        return M.truth(I, a[0])
    if n == "contains":
        return M.contains(I, a[0], a[1])
    if n == "getitem":
        return M.getitem(I, a[0], a[1])
    if n == "itemgetter":
        return ExtObj("getter", fn=lambda I, o: M.getitem(I, o, a[0]) if len(a) == 1 else tuple(M.getitem(I, o, x) for x in a))
    if n == "attrgetter":
        return ExtObj("getter", fn=lambda I, o: M.getattr_(I, o, a[0]))
    if n == "methodcaller":
        return ExtObj("getter", fn=lambda I, o: I.call(M.getattr_(I, o, a[0]), list(a[1:]), k))
    return _wild(I, f"operator.{n}")


def call_re(I, n, a, k):
    import re as _re

    if n == "compile":
        return ExtObj("re", pattern=a[0])
    if n in ("IGNORECASE", "escape"):
        return a[0] if a else 0
    pat = N(I, a[0])
    if isinstance(pat, ExtObj):
        pat = N(I, pat.attrs["pattern"])
    s = N(I, a[-1] if n == "sub" else a[1])
    if n in ("match", "fullmatch", "search"):
        if isinstance(pat, (str, bytes)) and isinstance(s, (str, bytes)):
            try:
                m = getattr(_re, n)(pat, s)
            except TypeError as e:
                I.throw("TypeError", str(e))
            return ExtObj("match", t=s, real=m) if m else None
        tags = I.ctx.tags(s)
        if not tags & {"str", "bytes"} or (not tags <= {"str", "bytes"} and not I.ctx.decide_type(s, T_STR | T_BYTES)):
            I.throw("TypeError", "expected string or bytes-like object")
        if I.ctx.choose("re:" + n, (pat, s), [True, False]):
            return ExtObj("match", t=s)
        return None
    return _wild(I, f"re.{n}")


def call_crypto(I, sub, last, a, k):
    if sub.startswith("hashes."):
        if last in HASHES:
            return ExtObj("hash", cls=last, path=C + sub)
        if last == "Hash":
            h = I.ctx.n(a[0])
            return ExtObj("hasher", algo=h.attrs["cls"].lower(), data=b"")
    if sub.startswith("asymmetric.ec."):
        if last in CURVES:
            return curve_obj(last)
        if last == "ECDSA":
            return ExtObj("ecdsa", hash=I.ctx.n(arg(a, k, 0, "algorithm")))
        if last == "EllipticCurvePublicNumbers":
            x, y, cv = arg(a, k, 0, "x"), arg(a, k, 1, "y"), I.ctx.n(arg(a, k, 2, "curve"))
            x, y = num(I, x, "x"), num(I, y, "y")
            if not (isinstance(cv, ExtObj) and cv.kind == "curve"):
                I.throw("TypeError", "curve must provide the EllipticCurve interface.")
            return ExtObj("ecpubnum", x=x, y=y, curve=cv)
        if last == "EllipticCurvePrivateNumbers":
            return ExtObj("ecprivnum", private_value=num(I, arg(a, k, 0, "private_value"), "private_value"),
                          public_numbers=arg(a, k, 1, "public_numbers"))
        if last == "generate_private_key":
            cv = I.ctx.n(arg(a, k, 0, "curve"))
            if not (isinstance(cv, ExtObj) and cv.kind == "curve"):
                I.throw("TypeError", "curve must provide the EllipticCurve interface.")
            bits = CURVES[cv.attrs["cls"]][1]
            x, y, d = fresh_num(I, "ecx"), fresh_num(I, "ecy"), fresh_num(I, "ecd", True)
            for t in (x, y, d):
                t.meta["bits"] = bits
            I.ctx.event("generate", what="EC", curve=cv.attrs["cls"])
            return mk_ecpriv(cv, x, y, d)
        if last == "derive_private_key":
            return _wild(I, "derive_private_key")
    if sub.startswith("asymmetric.rsa."):
        if last == "RSAPublicNumbers":
            return ExtObj("rsapubnum", e=num(I, arg(a, k, 0, "e"), "e"), n=num(I, arg(a, k, 1, "n"), "n"))
        if last == "RSAPrivateNumbers":
            names = ("p", "q", "d", "dmp1", "dmq1", "iqmp")
            vals = {n: num(I, arg(a, k, i, n), n) for i, n in enumerate(names)}
            return ExtObj("rsaprivnum", public_numbers=arg(a, k, 6, "public_numbers"), **vals)
        if last == "rsa_recover_prime_factors":
            n, e, d = (arg(a, k, i, x) for i, x in enumerate(("n", "e", "d")))
            return tuple(_pos(Term("factor", (i, N(I, n), N(I, e), N(I, d)), T_INT)) for i in ("p", "q"))
        if last in ("rsa_crt_dmp1", "rsa_crt_dmq1", "rsa_crt_iqmp"):
            return _pos(Term(last, tuple(num(I, x, last) for x in a), T_INT))
        if last == "generate_private_key":
            e = N(I, arg(a, k, 0, "public_exponent"))
            size = N(I, arg(a, k, 1, "key_size"))
            I.ctx.event("generate", what="RSA", size=size, e=e)
            vals = {n: fresh_num(I, "rsa" + n, n != "n") for n in ("n", "d", "p", "q", "dmp1", "dmq1", "iqmp")}
            return ExtObj("rsapriv", e=e, **vals)
    if sub.startswith("asymmetric.padding."):
        if last == "PKCS1v15":
            return ExtObj("pkcs1")
        if last == "MGF1":
            return ExtObj("mgf1", hash=I.ctx.n(arg(a, k, 0, "algorithm")))
        if last == "PSS":
            return ExtObj("pss", mgf=I.ctx.n(arg(a, k, 0, "mgf")), salt=arg(a, k, 1, "salt_length"))
    if sub.startswith("asymmetric.utils."):
        if last == "decode_dss_signature":
            s = N(I, a[0])
            if isinstance(s, Term) and s.op == "dersig":
                g = s.args[0]
                bits = CURVES.get(g.args[0].args[0], (0, 521))[1] if g.args[0].op == "eckey" else 521
                out = []
                for n in ("sigr", "sigs"):
                    t = Term(n, (g,), T_INT)
                    t.meta["positive"] = True
                    t.meta["bits"] = bits
                    out.append(t)
                return tuple(out)
            if I.ctx.choose("raises:dss", (s,), [False, True]):
                I.throw("ValueError", "not a DER signature")
            return (Term("derr", (s,), T_INT), Term("ders", (s,), T_INT))
        if last == "encode_dss_signature":
            r, s = num(I, a[0], "r"), num(I, a[1], "s")
            if isinstance(r, Term) and isinstance(s, Term) and r.op == "sigr" and s.op == "sigs" and r.args[0] is s.args[0]:
                return Term("dersig", (r.args[0],), T_BYTES)
            return Term("der", (r, s), T_BYTES)
    if sub.startswith("hmac."):
        h = I.ctx.n(arg(a, k, 1, "algorithm"))
        if not (isinstance(h, ExtObj) and h.kind == "hash"):
            I.throw("TypeError", "Expected instance of hashes.HashAlgorithm.")
        return ExtObj("hmac", key=need_bytes(I, arg(a, k, 0, "key"), "key"), algo=h.attrs["cls"], data=b"")
    if sub.startswith("constant_time."):
        x, y = N(I, a[0]), N(I, a[1])
        if M.is_byteslike(I, x) and M.is_byteslike(I, y):
            return M.equal(I, x, y)
        I.throw("TypeError", "a and b must be bytes.")
    if sub.startswith("serialization."):
        if last in ("load_pem_private_key", "load_der_private_key"):
            return loader(I, arg(a, k, 0, "data"), True, N(I, arg(a, k, 1, "password")))
        if last in ("load_pem_public_key", "load_der_public_key"):
            return loader(I, arg(a, k, 0, "data"), False, None)
        if last == "NoEncryption":
            return ExtObj("noenc")
        if last == "BestAvailableEncryption":
            return ExtObj("enc", password=N(I, a[0]))
    return M.MISSING


def _pos(t):
    t.meta["positive"] = True
    return t


BIG_ENDIAN = ("{n}<<8|{b}", "{n}*256+{b}", "{n}<<8+{b}", "{b}|{n}<<8", "{b}+{n}*256", "256*{n}+{b}")


def c_json_object(I, a, k, encoder):
    """json.JSONEncoder(...) and json.JSONDecoder(...): their one method is dumps and loads with these options."""
    opts = dict(k)
    if a:
        I.ctx.note_wild("arguments of a JSON encoder")
    if encoder:
        opts.setdefault("ensure_ascii", True)
        return ExtObj("jsonencoder", **{".encode": ABuiltin("encode", lambda I, b, kk: json_dumps(I, b, {**opts, **kk}))})
    return ExtObj("jsondecoder", **{".decode": ABuiltin("decode", lambda I, b, kk: json_loads(I, b, {**opts, **kk}))})


def c_reduce(I, a, k):
    src = M.bytes_iter(I, N(I, a[1]))
    f = N(I, a[0])
    if src is not None and len(a) > 2 and N(I, a[2]) == 0 and isinstance(f, AFunc) and isinstance(f.node, ast.Lambda) \
            and len(f.node.args.args) == 2:
        n, b = (x.arg for x in f.node.args.args)
        if ast.unparse(f.node.body).replace(" ", "").replace("(", "").replace(")", "") in [x.format(n=n, b=b) for x in BIG_ENDIAN]:
            return MM.from_bytes(I, [src, "big"], {})
    if src is not None:
        I.ctx.note_wild("reduce over unknown bytes")
    it = M.iterate(I, a[1])
    if len(a) > 2:
        acc = a[2]
    else:
        try:
            acc = next(it)
        except StopIteration:
            I.throw("TypeError", "reduce() of empty iterable with no initial value")
    for x in it:
        acc = I.call(a[0], [acc, x], {})
    return acc


def c_struct_unpack(I, a, k):
    fmt, x = N(I, a[0]), N(I, a[1])
    if isinstance(fmt, (str, bytes)) and isinstance(x, bytes):
        import struct

        try:
            return struct.unpack(fmt, x)
        except struct.error as e:
            throw_ext(I, "struct.error", str(e))
    if isinstance(x, Term):
        ps = M.parts(I, fmt)
        n = M.known_len(I, x)
        if isinstance(fmt, str) and n is not None and fmt.strip("<>!=@") == f"{n}B":
            return Term("bytesof", (x,), T_LIST)
        if ps and isinstance(ps[0], str) and ps[0] in "<>!=@":
            ps = ps[1:]
        if len(ps) == 2 and ps[1] == "B" and isinstance(ps[0], Term) and ps[0].op == "str":
            ln = ps[0].args[0]
            if ln is M.length(I, x):
                return Term("bytesof", (x,), T_LIST)
    return _wild(I, "struct.unpack")


def c_gather(I, a, k):
    def run():
        out, first = [], None
        keep = "return_exceptions" in k and M.truth(I, k["return_exceptions"])
        for x in a:
            try:
                out.append(I.await_(x))
            except PyExc as e:
                # the others go on
                out.append(e.obj)
                first = first or e
        if first is not None and not keep:
            raise first
        return AList(out)
    return ExtObj("future", run=run)


def c_wait(I, a, k):
    def run():
        done = list(M.iterate(I, a[0]))
        for x in done:
            try:
                I.await_(x)
            except PyExc:
                pass
        return (ASet(done), ASet([]))
    return ACoro(run, "wait")


def a_future(I, o, name):
    def result(I, a, k):
        if "value" in o.attrs or "exc" in o.attrs:
            return I.await_(o)
        I.ctx.note_wild("result() of a task that was not awaited")
        return I.await_(o)

    def exception(I, a, k):
        try:
            I.await_(o)
        except PyExc as e:
            return e.obj
        return None
    table = {"result": result, "exception": exception, "done": lambda I, a, k: "value" in o.attrs or "exc" in o.attrs,
             "cancelled": lambda I, a, k: False, "add_done_callback": lambda I, a, k: None,
             "cancel": lambda I, a, k: True, "set_name": lambda I, a, k: None, "get_name": lambda I, a, k: "task"}
    return method("future." + name, table[name]) if name in table else M.MISSING


def a_cm(I, o, name):
    if name in ("__enter__", "__aenter__"):
        if name == "__aenter__":
            return method(name, lambda I, a, k: ACoro(lambda: M.cm_enter(I, o, True), name))
        return method(name, lambda I, a, k: M.cm_enter(I, o, False))
    if name in ("__exit__", "__aexit__"):
        def leave(I, a, k):
            e = I.ctx.n(a[1])
            return M.cm_exit(I, o, PyExc(e, I.ctx.where()) if isinstance(e, AObj) else None, name == "__aexit__")
        if name == "__aexit__":
            return method(name, lambda I, a, k: ACoro(lambda: leave(I, a, k), name))
        return method(name, leave)
    return M.MISSING


def a_loop(I, o, name):
    if name == "run_in_executor":
        return method(name, lambda I, a, k: ACoro(lambda: I.call(a[1], list(a[2:]), {}), name))
    if name == "create_task":
        return method(name, c_task)
    if name in ("call_soon", "call_soon_threadsafe", "call_later", "call_at"):
        # called some time later; nobody awaits what it gives
        first = 1 if name in ("call_later", "call_at") else 0
        return method(name, lambda I, a, k: (I.call(a[first], list(a[first + 1:]), {}), ExtObj("handle"))[1])
    if name == "time":
        return method(name, lambda I, a, k: Term("sym", ("monotonic",), T_FLOAT))
    if name == "run_until_complete":
        return method(name, lambda I, a, k: I.await_(a[0]))
    return M.MISSING


ATTRS.update({"future": a_future, "ctxmgr": a_cm, "suppress": a_cm, "lock": a_cm, "nullcontext": a_cm, "loop": a_loop})


def c_namedtuple(I, a, k):
    name, fields = N(I, a[0]), I.ctx.n(a[1])
    if isinstance(fields, str):
        fields = AList(fields.replace(",", " ").split())
    fields = [N(I, f) for f in M.iterate(I, fields)]
    ns = {}
    if "defaults" in k and N(I, k["defaults"]) is not None:
        ds = list(M.iterate(I, k["defaults"]))
        ns.update(zip(fields[len(fields) - len(ds):], ds))
    ns["__annotations_order__"] = list(fields)
    return M.build_class(I, name, [M.ext_class(I, "typing.NamedTuple")], ns, None, None, {})


def c_typednamedtuple(I, a, k):
    ns = {"__annotations_order__": [N(I, list(M.iterate(I, f))[0]) for f in M.iterate(I, a[1])]}
    return M.build_class(I, N(I, a[0]), [M.ext_class(I, "typing.NamedTuple")], ns, None, None, {})


def c_wraps(I, a, k):
    src = I.ctx.n(a[0])

    def go(I, x, kk):
        f = I.ctx.n(x[0])
        if isinstance(f, AFunc) and isinstance(src, (AFunc, ABuiltin)):
            f.attrs["__name__"] = f.attrs["__qualname__"] = src.name if not isinstance(src, AFunc) else M.getattr_(I, src, "__name__")
            f.attrs["__wrapped__"] = src
        return x[0]
    return ABuiltin("wraps", go)


def c_normalize(I, a, k):
    import unicodedata

    s = N(I, a[1])
    if isinstance(s, str):
        return unicodedata.normalize(N(I, a[0]), s)
    if M.is_ascii(I, s):
        return s
    return Term("unicode-" + str(N(I, a[0])), (s,), T_STR)


def c_task(I, a, k):
    # nothing is known to have happened before the task is awaited
    return ExtObj("future", run=lambda: I.await_(a[0]))


def c_wait_for(I, a, k):
    return ACoro(lambda: I.await_(a[0]), "wait_for")


def c_abstract(I, a, k):
    f = a[0]
    g = f.fn if isinstance(f, AWrap) else f
    if isinstance(g, AFunc):
        g.attrs["__isabstract__"] = True
    return f


def c_field(I, a, k):
    d = {}
    for n in ("default", "default_factory", "init", "kw_only"):
        if n in k:
            d[n] = N(I, k[n])
    return ExtObj("field", **d)


def c_ctxmgr(I, a, k):
    fn = a[0]
    b = ABuiltin("contextmanager", lambda I, x, kk: ExtObj("ctxmgr", gen=I.call(fn, x, kk), again=lambda: I.call(fn, x, kk)))
    return b


def c_urlparse(six):
    def go(I, a, k):
        u = I.ctx.n(arg(a, k, 0, "url"))
        if isinstance(u, ExtObj) and u.kind == "url":
            u = u.attrs["url"]
        u = N(I, u)
        if u is None:
            u = ""
        if isinstance(u, str):
            try:
                _up.urlparse(u)
            except ValueError as e:
                I.throw("ValueError", str(e))
        elif isinstance(u, Term):
            if not u.meta.get("url") and not u.meta.get("urlok"):
                if I.ctx.choose("raises:urlparse", (u,), [False, True]):
                    I.throw("ValueError", "Invalid IPv6 URL")
        return ExtObj("urlparts", url=u, over={}, six=six)
    return go


def c_urlunparse(I, a, k):
    o = I.ctx.n(a[0])
    if isinstance(o, ExtObj) and o.kind == "urlparts":
        return unparse(I, o)
    return Term("urlunparse", (M.freeze(I, o),), T_STR)


def c_parse_qs(I, a, k):
    p = parse_qsl(I, a, k)
    if isinstance(p, Term):
        return _wild(I, "parse_qs", T_DICT)
    d = ADict()
    for kk, v in (M.iterate(I, x) for x in M.iterate(I, p)):
        f, old = M.dict_get(I, d, kk)
        if f:
            old.items.append(v)
        else:
            M.dict_set(I, d, kk, AList([v]))
    return d


def c_ismethod(I, a, k):
    v = I.ctx.n(a[0])
    return isinstance(v, ABound) and isinstance(v.fn, AFunc)


def c_isfunction(I, a, k):
    return isinstance(I.ctx.n(a[0]), AFunc)


def c_iscoro(I, a, k):
    return isinstance(I.ctx.n(a[0]), ACoro)


def c_iscorofn(I, a, k):
    v = I.ctx.n(a[0])
    v = v.fn if isinstance(v, ABound) else v
    return (isinstance(v, AFunc) and v.is_async and not v.is_gen) or (isinstance(v, ABuiltin) and bool(v.is_async))


def c_timegm(I, a, k):
    t = I.ctx.n(a[0])
    if isinstance(t, Term) and t.op == "tt":
        name, kind, val = t.args
        if kind == "naive" or name == "utctimetuple":
            return val
        return val
    if isinstance(t, Term) and t.op == "gmt":
        return t.args[0]
    return _wild(I, "timegm", T_INT)


def c_mktime(I, a, k):
    t = I.ctx.n(a[0])
    if isinstance(t, Term) and t.op == "tt":
        return M.add(I, t.args[2], TZ, -1)
    if isinstance(t, Term) and t.op == "gmt":
        return M.add(I, t.args[0], TZ, -1)
    return _wild(I, "mktime", T_FLOAT)


def given(x):
    """Does the value depend on a member of somebody's JSON text?"""
    if isinstance(x, Term):
        return x.op == "item" or any(given(y) for y in x.args)
    return isinstance(x, tuple) and any(given(y) for y in x)


def stamp(I, x):
    """A point in time given as a number: one that is not from the clock may be too large."""
    xv = N(I, x)
    if xv is None:
        return now(I)
    if isinstance(xv, Term) and not I.ctx.tags(xv) <= NUMERIC:
        if "obj" not in I.ctx.tags(xv) and not I.ctx.decide_type(xv, NUMERIC):
            I.throw("TypeError", "an integer is required")
    if given(xv):
        I.may_raise("fromtimestamp", (xv,), "OverflowError")
    return xv


def is_realtime(I, v):
    v = N(I, v)
    return isinstance(v, ExtRef) and v.path == "time.CLOCK_REALTIME"


def c_datetime(I, a, k):
    """A date and time that is written out in the source."""
    import datetime as _d
    vals = [N(I, x) for x in a]
    kw = {n: N(I, x) for n, x in k.items() if n != "tzinfo"}
    tz = N(I, k.get("tzinfo"))
    if len(vals) == 8:
        tz = vals.pop()
    if not all(type(x) is int for x in vals + list(kw.values())) or not (tz is None or is_utc(tz)):
        return _wild(I, "call of datetime.datetime")
    try:
        t = _d.datetime(*vals, **kw, tzinfo=_d.timezone.utc)
    except (TypeError, ValueError) as e:
        I.throw(type(e).__name__, str(e))
    return dt("naive" if tz is None else "aware", int(t.timestamp()))


def c_fromts(I, a, k):
    xv = stamp(I, arg(a, k, 0, "timestamp"))
    tz = arg(a, k, 1, "tz")
    return dt("aware", xv) if is_utc(tz) else dt("naive", M.add(I, xv, TZ))


def _nowv(I):
    return nowf(I)


CALLS = {
    "base64.urlsafe_b64encode": lambda I, a, k: b64_encode(I, a[0], "url"),
    "base64.b64encode": lambda I, a, k: b64_encode(I, a[0], b64_variant(I, a, k)),
    "base64.standard_b64encode": lambda I, a, k: b64_encode(I, a[0], "std"),
    "base64.urlsafe_b64decode": lambda I, a, k: b64_decode(I, a[0], "url"),
    "base64.b64decode": lambda I, a, k: b64_decode(
        I, a[0], b64_variant(I, a, k), bool(k.get("validate"))),
    "base64.standard_b64decode": lambda I, a, k: b64_decode(I, a[0], "std"),
    "binascii.a2b_base64": lambda I, a, k: b64_decode(I, a[0], "std"),
    "binascii.crc32": lambda I, a, k: checksum(I, "crc32", a), "zlib.crc32": lambda I, a, k: checksum(I, "crc32", a),
    "zlib.adler32": lambda I, a, k: checksum(I, "adler32", a),
    "binascii.hexlify": lambda I, a, k: MM.encode(I, Term("hex", (need_bytes(I, a[0]),), T_STR)),
    "binascii.unhexlify": lambda I, a, k: MM.fromhex(I, [a[0] if not M.is_byteslike(I, N(I, a[0])) else MM.decode(I, a[0])], k),
    "json.JSONEncoder": lambda I, a, k: c_json_object(I, a, k, True), "json.JSONDecoder": lambda I, a, k: c_json_object(I, a, k, False),
    "json.dumps": json_dumps, "json.loads": json_loads,
    "copy.deepcopy": lambda I, a, k: deepcopy(I, a[0]),
    "copy.copy": lambda I, a, k: shallow(I, a[0]),
    "functools.reduce": c_reduce,
    "functools.partial": lambda I, a, k: ExtObj("partial", fn=a[0], args=tuple(a[1:]), kwargs=dict(k)),
    "functools.partialmethod": lambda I, a, k: ExtObj("partialmethod", fn=a[0], args=tuple(a[1:]), kwargs=dict(k)),
    "functools.wraps": c_wraps,
    "collections.namedtuple": c_namedtuple, "typing.NamedTuple": c_typednamedtuple,
    "unicodedata.normalize": c_normalize,
    "importlib.import_module": lambda I, a, k: I.import_module(str(N(I, a[0]))),
    "asyncio.wait": c_wait, "asyncio.get_running_loop": lambda I, a, k: ExtObj("loop"),
    "asyncio.get_event_loop": lambda I, a, k: ExtObj("loop"),
    "dataclasses.astuple": lambda I, a, k: tuple(a[0].attrs.get(f) for f in a[0].cls.fields),
    "dataclasses.fields": lambda I, a, k: tuple(
        ExtObj("dcfield", name=f) for f in (a[0] if isinstance(a[0], AClass) else a[0].cls).fields),
    "dataclasses.is_dataclass": lambda I, a, k: isinstance(a[0], (AClass, AObj)) and bool(
        (a[0] if isinstance(a[0], AClass) else a[0].cls).dataclass),
    "functools.update_wrapper": lambda I, a, k: a[0],
    "functools.lru_cache": lambda I, a, k: decorator_or(I, a, k, lambda f, kk: ExtObj("lru", fn=f, memo=ADict())),
    "functools.cache": lambda I, a, k: ExtObj("lru", fn=a[0], memo=ADict()),
    "functools.cached_property": lambda I, a, k: AWrap("cached_property", a[0]),
    "functools.total_ordering": lambda I, a, k: a[0],
    "itertools.chain": lambda I, a, k: AGen((x for it in a for x in M.iterate(I, it)), name="chain"),
    "itertools.chain.from_iterable": lambda I, a, k: AGen((x for it in M.iterate(I, a[0]) for x in M.iterate(I, it)), name="chain"),
    "itertools.repeat": lambda I, a, k: AGen(iter([a[0]] * N(I, a[1])) if len(a) > 1 else iter([a[0]]), name="repeat"),
    "asyncio.gather": c_gather, "asyncio.create_task": c_task, "asyncio.ensure_future": c_task,
    "asyncio.wait_for": c_wait_for, "asyncio.shield": lambda I, a, k: a[0],
    "asyncio.sleep": lambda I, a, k: ACoro(lambda: None, "sleep"),
    "asyncio.Lock": lambda I, a, k: ExtObj("lock"), "threading.Lock": lambda I, a, k: ExtObj("lock"),
    "asyncio.iscoroutine": c_iscoro, "asyncio.iscoroutinefunction": c_iscorofn,
    "inspect.iscoroutine": c_iscoro, "inspect.isawaitable": c_iscoro, "inspect.iscoroutinefunction": c_iscorofn,
    "inspect.ismethod": c_ismethod, "inspect.isfunction": c_isfunction,
    "inspect.isclass": lambda I, a, k: isinstance(I.ctx.n(a[0]), AClass),
    "inspect.isroutine": lambda I, a, k: isinstance(I.ctx.n(a[0]), (AFunc, ABound, ABuiltin)),
    "inspect.isabstract": lambda I, a, k: False,
    "inspect.getmembers": lambda I, a, k: members(I, a[0], arg(a, k, 1, "predicate")),
    "inspect.cleandoc": lambda I, a, k: a[0],
    "dataclasses.dataclass": lambda I, a, k: decorator_or(I, a, k, lambda c, kk: mk_dataclass(c, kk or k)),
    "dataclasses.field": c_field,
    "dataclasses.replace": lambda I, a, k: _dc_replace(I, a, k),
    "dataclasses.asdict": lambda I, a, k: _asdict(I, a[0]),
    "abc.abstractmethod": c_abstract,
    "contextlib.suppress": lambda I, a, k: ExtObj("suppress", types=tuple(a)),
    "contextlib.contextmanager": c_ctxmgr, "contextlib.asynccontextmanager": c_ctxmgr,
    "contextlib.nullcontext": lambda I, a, k: ExtObj("nullcontext", value=a[0] if a else None),
    "time.time": lambda I, a, k: nowf(I),
    "time.time_ns": lambda I, a, k: M.binop(I, "Mult", now(I), 1000000000),
    "time.monotonic": lambda I, a, k: Term("sym", ("monotonic",), T_FLOAT),
    "time.perf_counter": lambda I, a, k: Term("sym", ("perf",), T_FLOAT),
    "time.gmtime": lambda I, a, k: Term("gmt", (now(I) if not a else stamp(I, a[0]),), T_OBJ),
    "time.localtime": lambda I, a, k: Term("gmt", (M.add(I, now(I) if not a else stamp(I, a[0]), TZ),), T_OBJ),
    "time.mktime": c_mktime, "calendar.timegm": c_timegm, "time.sleep": lambda I, a, k: None,
    "time.clock_gettime": lambda I, a, k: nowf(I) if is_realtime(I, a[0]) else _wild(I, "time.clock_gettime"),
    "datetime.datetime": c_datetime,
    "datetime.datetime.utcnow": lambda I, a, k: dt("naive", now(I)),
    "datetime.datetime.now": lambda I, a, k: dt("aware", now(I)) if is_utc(arg(a, k, 0, "tz")) else dt("naive", M.add(I, now(I), TZ)),
    "datetime.datetime.today": lambda I, a, k: dt("naive", M.add(I, now(I), TZ)),
    "datetime.datetime.utcfromtimestamp": lambda I, a, k: dt("naive", stamp(I, a[0])),
    "datetime.datetime.fromtimestamp": c_fromts,
    "datetime.date.today": lambda I, a, k: dt("date", floor_div(I, M.add(I, now(I), TZ), 86400)),
    "datetime.timedelta": lambda I, a, k: Term("td", (seconds_of(I, k, a),), T_OBJ),
    "datetime.timezone": lambda I, a, k: ExtObj("tz", off=0) if isinstance(a[0], Term) and a[0].op == "td" and a[0].args[0] == 0 else ExtObj("tz", off=None),
    "urllib.parse.quote": lambda I, a, k: quote(I, a[0], arg(a, k, 1, "safe", "/"), False),
    "urllib.parse.quote_plus": lambda I, a, k: quote(I, a[0], arg(a, k, 1, "safe", ""), True),
    "urllib.parse.unquote": lambda I, a, k: Term("unquote", (N(I, a[0]),), T_STR),
    "urllib.parse.unquote_plus": lambda I, a, k: Term("unquote+", (N(I, a[0]),), T_STR),
    "urllib.parse.urlencode": urlencode, "urllib.parse.parse_qsl": parse_qsl, "urllib.parse.parse_qs": c_parse_qs,
    "urllib.parse.urlparse": c_urlparse(True), "urllib.parse.urlsplit": c_urlparse(False),
    "urllib.parse.urlunparse": c_urlunparse, "urllib.parse.urlunsplit": c_urlunparse,
    "urllib.parse.urljoin": lambda I, a, k: Term("urljoin", (N(I, a[0]), N(I, a[1])), T_STR),
    "struct.unpack": c_struct_unpack,
    "hmac.compare_digest": lambda I, a, k: compare_digest(I, a[0], a[1]),
    "hmac.new": lambda I, a, k: _std_hmac(I, a, k),
    "hmac.digest": lambda I, a, k: Term("mac", (_hname(I, a[2]), need_bytes(I, a[0]), need_bytes(I, a[1])), T_BYTES),
    "os.urandom": lambda I, a, k: rand_fn(I, "urandom", a, k, True),
    "os.path.exists": lambda I, a, k: I.ctx.choose("file", (M._atom(I, N(I, a[0])),), ["missing", "file", "directory"]) != "missing",
    "os.path.isfile": lambda I, a, k: I.ctx.choose("file", (M._atom(I, N(I, a[0])),), ["missing", "file", "directory"]) == "file",
    "os.fspath": lambda I, a, k: a[0],
    "uuid.uuid4": lambda I, a, k: ExtObj("uuid", value=rand(I, T_STR, 36, 122, True, "0123456789abcdef-")),
    "uuid.uuid1": lambda I, a, k: ExtObj("uuid", value=rand(I, T_STR, 36, 14, False, "0123456789abcdef-")),
    "collections.defaultdict": lambda I, a, k: _defaultdict(I, a, k),
    "collections.OrderedDict": lambda I, a, k: MM.c_dict(I, a, k),
    "math.ceil": lambda I, a, k: _ceil(I, a[0]),
    "math.trunc": lambda I, a, k: MM.c_int(I, [a[0]], {}),
    "math.floor": lambda I, a, k: MM.c_int(I, [a[0]], {}),
    "string.Template": lambda I, a, k: _wild(I, "Template"),
    "NotImplemented": lambda I, a, k: I.throw("TypeError", "not callable"),
}


def _ceil(I, v):
    v = N(I, v)
    if isinstance(v, (int, float)):
        return math.ceil(v)
    if isinstance(v, Term) and v.op == "/" and isinstance(v.args[1], int):
        return Term("//", (M.add(I, v.args[0], v.args[1] - 1), v.args[1]), T_INT)
    if isinstance(v, Term) and v.op == "nowf":
        return M.add(I, MM.now_int(v), 1)
    return Term("ceil", (v,), T_INT)


def _hname(I, h):
    h = I.ctx.n(h)
    if isinstance(h, ExtRef):
        return h.path.rsplit(".", 1)[-1].upper()
    h = N(I, h)
    return h.upper() if isinstance(h, str) else "?"


def _std_hmac(I, a, k):
    msg = arg(a, k, 1, "msg")
    return ExtObj("hmac", key=need_bytes(I, arg(a, k, 0, "key")), algo=_hname(I, arg(a, k, 2, "digestmod")),
                  data=need_bytes(I, msg) if msg is not None else b"")


def _dc_replace(I, a, k):
    n = shallow(I, a[0])
    for x, v in k.items():
        n.attrs[x] = v
    return n


def _asdict(I, o):
    d = ADict()
    for f in o.cls.fields:
        M.dict_set(I, d, f, o.attrs.get(f))
    return d


def _defaultdict(I, a, k):
    cls = I.extclasses.get("collections.defaultdict")
    if cls is None:
        cls = AClass("defaultdict", [M.B["dict"]], {}, extname="collections.defaultdict")
        cls.phase = 0

        def missing(I, args, kw):
            o, key = args
            f = o.attrs.get("default_factory")
            if f is None:
                I.throw("KeyError", M._atom(I, key))
            v = I.call(f, [], {})
            M.dict_set(I, o.payload, key, v)
            return v
        b = ABuiltin("__missing__", missing)
        b.cls = "method"
        cls.attrs["__missing__"] = b
        I.extclasses["collections.defaultdict"] = cls
    o = AObj(cls, ADict())
    o.attrs["default_factory"] = a[0] if a else None
    if len(a) > 1:
        M.dict_merge(I, o.payload, a[1])
    return o
