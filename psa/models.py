"""Abstract semantics of Python's built-in types and operations."""

from __future__ import annotations

import ast
import builtins as _py

from .ctx import NUMERIC, tag_of_const
from .values import *
from .values import (T_ANY, T_BOOL, T_BYTES, T_DICT, T_FLOAT, T_INT, T_JSON, T_LIST,
                     T_NUM, T_OBJ, T_STR)

MISSING = object()
B: dict = {}
EXC: dict = {}


class Guarded:
    __slots__ = ("val", "guard")

    def __init__(self, val, guard):
        self.val, self.guard = val, guard


# ===================================================================== installation
def install(I):
    B.clear()
    EXC.clear()
    I.ctx = _boot_ctx()
    obj = AClass("object", [], {}, builtin=True, ctor=lambda I, a, k: AObj(B["object"]))
    B["object"] = obj
    for n in ("type", "int", "float", "str", "bytes", "bytearray", "list", "tuple", "dict", "set",
              "frozenset", "complex", "range", "memoryview", "slice"):
        B[n] = AClass(n, [obj], {}, builtin=True, ctor=CTORS.get(n))
    B["bool"] = AClass("bool", [B["int"]], {}, builtin=True, ctor=CTORS["bool"])
    for n in ("classmethod", "staticmethod", "property"):
        B[n] = AClass(n, [obj], {}, builtin=True, ctor=CTORS[n])
    from . import ext

    ext.install(I)


def _boot_ctx():
    from .ctx import Ctx, Scenario

    return Ctx(Scenario("boot"))


def exc_class(I, name):
    c = EXC.get(name)
    if c is None:
        py = getattr(_py, name, None)
        if py is None or not isinstance(py, type) or not issubclass(py, BaseException):
            return None
        if py is BaseException:
            c = AClass(name, [B["object"]], {}, builtin=False)
        else:
            c = AClass(name, [exc_class(I, b.__name__) for b in py.__bases__ if issubclass(b, BaseException)], {})
        EXC[name] = c
    return c


def builtin_name(I, name):
    if name in B:
        return B[name]
    c = exc_class(I, name)
    if c is not None:
        return c
    if name in FUNCS:
        return ABuiltin(name, FUNCS[name])
    if name == "NotImplemented":
        return ExtRef("NotImplemented")
    if name == "__name__":
        return "__module__"
    if name == "__debug__":
        return True
    if hasattr(_py, name):
        I.ctx.note_wild(f"builtin {name}")
        return ExtRef("builtins." + name)
    return MISSING


# ===================================================================== helpers
def unwrap(v):
    if isinstance(v, AObj) and isinstance(v.payload, (str, bytes, int, float, Term)):
        return v.payload
    return v


def N(I, v):
    return unwrap(I.ctx.n(unwrap(v)))


def is_strlike(I, v):
    if isinstance(v, str):
        return True
    return isinstance(v, Term) and I.ctx.tags(v) == T_STR


def is_byteslike(I, v):
    if isinstance(v, bytes):
        return True
    return isinstance(v, Term) and I.ctx.tags(v) == T_BYTES


def is_text(I, v):
    return isinstance(v, (str, bytes)) or (
        isinstance(v, Term) and I.ctx.tags(v) in (T_STR, T_BYTES)
    )


def is_num(I, v):
    if isinstance(v, (int, float)):
        return True
    return isinstance(v, Term) and bool(I.ctx.tags(v)) and I.ctx.tags(v) <= NUMERIC


# --------------------------------------------------------------------- text
def parts(I, v):
    v = N(I, v)
    if isinstance(v, (str, bytes)):
        return [v] if v else []
    if isinstance(v, Term) and v.op == "cat":
        out = []
        for p in v.args:
            q = I.ctx.n(p)
            out.extend(parts(I, q) if q is not p else [p])
        return out
    return [v]


def mk_cat(I, kind, ps):
    """Concatenation in normal form: flattened, adjacent constants merged."""
    out = []
    for p in ps:
        for q in parts(I, p):
            if out and isinstance(q, (str, bytes)) and isinstance(out[-1], (str, bytes)) and type(q) is type(out[-1]):
                out[-1] = out[-1] + q
            elif out and isinstance(q, Term) and q.op == "slice" and isinstance(out[-1], Term) and out[-1].op == "slice" and \
                    out[-1].args[0] is q.args[0] and q.args[1] not in (0, None) and out[-1].args[2] is q.args[1]:
                # two adjacent pieces of a text
                lo, hi = out[-1].args[1], q.args[2]
                out[-1] = q.args[0] if lo in (0, None) and hi is None else Term("slice", (q.args[0], lo, hi), q.ty)
            else:
                out.append(q)
    if not out:
        return "" if kind == "str" else b""
    if len(out) == 1:
        return out[0]
    return Term("cat", tuple(out), T_STR if kind == "str" else T_BYTES)


def cat(I, kind, ps):
    return mk_cat(I, kind, [str_(I, p) if kind == "str" else p for p in ps])


def known_len(I, v):
    v = N(I, v)
    if isinstance(v, (str, bytes)):
        return len(v)
    if isinstance(v, Term):
        if v.op == "cat":
            n = 0
            for p in v.args:
                m = known_len(I, p)
                if m is None:
                    return None
                n += m
            return n
        if v.op == "hash":
            return {"sha1": 20, "sha224": 28, "sha256": 32, "sha384": 48, "sha512": 64, "md5": 16}.get(v.args[0])
        if v.op == "tobytes" and isinstance(v.args[1], int):
            return v.args[1]
        if v.op == "slice" and isinstance(v.args[2], int) and isinstance(v.args[1], int):
            base = known_len(I, v.args[0])
            if base is not None and 0 <= v.args[1] <= v.args[2] <= base:
                return v.args[2] - v.args[1]
        if v.op == "rand":
            return v.meta.get("len")
        if v.op == "mac":
            return {"SHA1": 20, "SHA224": 28, "SHA256": 32, "SHA384": 48, "SHA512": 64}.get(v.args[0])
        if v.op == "b64":
            n = known_len(I, v.args[2])
            return None if n is None else 4 * ((n + 2) // 3) if v.args[1] else (4 * n + 2) // 3
        if v.op in ("enc", "dec") and isinstance(v.args[0], Term) and (
                v.args[0].op in ("b64", "hex", "qs") or v.args[0].meta.get("ascii")):
            return known_len(I, v.args[0])
        if "len" in v.meta:
            return v.meta["len"]
    return None


def length(I, v):
    v = I.ctx.n(v)
    if isinstance(v, AObj):
        m = find_method(I, v, "__len__")
        if m is not None:
            return I.call(m, [], {})
        v = I.ctx.n(v.payload) if v.payload is not None else v
    if isinstance(v, (str, bytes, tuple)):
        return len(v)
    if isinstance(v, AList):
        return len(v.items)
    if isinstance(v, ASet):
        return len(distinct(I, v))
    if isinstance(v, ADict) or isinstance(v, AView):
        d = v if isinstance(v, ADict) else dict_payload(I, v.d)
        if not d.sources:
            n = 0
            for e in d.entries.values():
                if e.guard is None or guard_holds(I, e.guard):
                    n += 1
            return n
        n = sum(1 for _ in iter_dict(I, d))
        return n
    if isinstance(v, Term):
        tags = I.ctx.tags(v)
        if tags & {"list", "dict"} and not tags & {"str", "bytes", "obj"}:
            if tags & {"none", "bool", "int", "float"}:
                if not I.ctx.decide_type(v, frozenset({"list", "dict", "tuple", "set"})):
                    I.throw("TypeError", "object has no len()")
            if v.op == "map":
                return length(I, v.args[1])
            return length(I, force(I, v))
        if tags & {"none", "bool", "int", "float"} and tags & {"str", "bytes", "list", "dict"}:
            if not I.ctx.decide_type(v, frozenset({"str", "bytes", "list", "dict", "tuple", "set"})):
                I.throw("TypeError", "object has no len()")
            return length(I, v)
        if not tags & {"str", "bytes", "list", "dict", "tuple", "set", "obj"}:
            I.throw("TypeError", "object has no len()")
        k = known_len(I, v)
        if k is not None:
            return k
        if v.op == "cat":
            tot = 0
            for p in parts(I, v):
                tot = add(I, tot, length(I, p))
            return tot
        if v.op in ("enc",) and v.args[0].meta.get("ascii"):
            return length(I, v.args[0])
        if v.op == "dec" and v.args[0].meta.get("ascii"):
            return length(I, v.args[0])
        return Term("len", (v,), T_INT)
    if isinstance(v, ExtObj) and v.kind == "range":
        return len(v.attrs["r"])
    I.throw("TypeError", "object has no len()")


def str_(I, v):
    v = N(I, v)
    if isinstance(v, str):
        return v
    if isinstance(v, (int, float, type(None))):
        return str(v)
    if isinstance(v, bytes):
        return str(v)
    if isinstance(v, Term):
        if I.ctx.tags(v) == T_STR:
            return v
        return Term("str", (v,), T_STR)
    if isinstance(v, AObj):
        m = find_method(I, v, "__str__") or find_method(I, v, "__repr__")
        if m is not None:
            return I.call(m, [], {})
        if v.cls.issub(exc_class(I, "BaseException")) and isinstance(v.payload, tuple):
            if not v.payload:
                return ""
            if len(v.payload) == 1:
                return str_(I, v.payload[0])
        return Term("str", (v,), T_STR)
    if isinstance(v, ExtObj) and v.kind == "url":
        return v.attrs["url"]
    if isinstance(v, ExtObj) and v.kind == "uuid":
        return v.attrs["value"]
    if isinstance(v, (ADict, AList, tuple, ASet)):
        return Term("str", (freeze(I, v),), T_STR)
    return Term("str", (v,), T_STR)


def repr_(I, v):
    v = N(I, v)
    if isinstance(v, NATIVE):
        return repr(v)
    return Term("repr", (freeze(I, v),), T_STR)


def format_(I, v, spec):
    v = N(I, v)
    spec = N(I, spec)
    if isinstance(v, NATIVE) and isinstance(spec, str):
        try:
            return format(v, spec)
        except (ValueError, TypeError) as e:
            I.throw(type(e).__name__, str(e))
    if spec == "":
        return str_(I, v)
    if isinstance(v, Term) and v.op == "byte" and spec in ("02x", "0>2x"):
        return Term("hexbyte", (v.args[0],), T_STR)
    return Term("format", (freeze(I, v), spec), T_STR)


def freeze(I, v):
    """An immutable, hashable picture of a container."""
    v = I.ctx.n(v)
    if isinstance(v, AObj) and v.payload is not None and not isinstance(v.payload, tuple):
        v = I.ctx.n(v.payload)
    if isinstance(v, NATIVE) or isinstance(v, Term):
        return v
    if isinstance(v, AList):
        return Term("list", tuple(freeze(I, x) for x in v.items), T_LIST)
    if isinstance(v, tuple):
        return Term("tuple", tuple(freeze(I, x) for x in v), frozenset({"tuple"}))
    if isinstance(v, ASet):
        return Term("set", tuple(freeze(I, x) for x in v.items), frozenset({"set"}))
    if isinstance(v, ADict):
        items = tuple((freeze(I, k), freeze(I, x)) for k, x in iter_dict(I, v))
        # the members the analysis has not met stay behind their source
        gone = tuple(sorted((k for k in v.removed if isinstance(k, tuple)), key=repr))
        rest = tuple((Term("srckey", (i, gone), T_STR), s) for i, s in enumerate(v.sources)
                     if I.ctx.facts.get(("nonempty", s)) is not False)
        return Term("dict", items + rest, T_DICT)
    return v


def thaw(I, t):
    t = I.ctx.n(t)
    if isinstance(t, Term):
        if t.op in ("list", "tuple"):
            return AList([thaw(I, x) for x in t.args])
        if t.op == "dict":
            d = ADict()
            for k, v in t.args:
                if isinstance(k, Term) and k.op == "srckey":
                    d.sources.append(v)
                    d.removed |= set(k.args[1])
                    continue
                dict_set(I, d, k, thaw(I, v))
            return d
    return t


def contains_atom(I, a, x):
    """Does the text atom `a` contain the constant `x`?"""
    if isinstance(a, (str, bytes)):
        return x in a
    if x in a.meta.get("nosep", ()):
        return False
    if a.op == "b64":
        b = x if isinstance(x, bytes) else x.encode()
        alpha = set(b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789")
        alpha |= set(b"-_") if a.args[0] == "url" else set(b"+/")
        if a.args[1]:
            alpha |= set(b"=")
        if any(c not in alpha for c in b):
            return False
    if a.op == "pem":
        which, mat, fmt, _ = a.args
        y = x if isinstance(x, str) else x.decode("latin-1")
        head = {"SubjectPublicKeyInfo": "PUBLIC KEY", "PKCS1": "RSA PUBLIC KEY", "PKCS8": "PRIVATE KEY"}.get(
            fmt, ("EC" if mat[0] == "ec" else "RSA") + " PRIVATE KEY")
        text = f"-----BEGIN {head}-----\n-----END {head}-----\n"
        if y in text:
            return True
        if "-----BEGIN" in y or y in ("PRIVATE", "PUBLIC", "PRIVATE KEY", "PUBLIC KEY", "ENCRYPTED"):
            return False
    if a.op in ("dec", "enc"):
        inner = a.args[0]
        y = x.encode() if isinstance(x, str) else x.decode("latin-1")
        if isinstance(inner, Term):
            return contains_atom(I, inner, y)
    if a.op == "hex":
        y = x if isinstance(x, str) else x.decode("latin-1")
        if any(c not in "0123456789abcdef" for c in y):
            return False
    if a.op == "rand" and a.meta.get("alphabet") is not None:
        if any(c not in a.meta["alphabet"] for c in (x if isinstance(x, str) else x.decode("latin-1"))):
            return False
    return I.ctx.choose("contains", (a, x), [True, False])


def substr(I, c, x):
    """x in c for text."""
    c, x = N(I, c), N(I, x)
    if isinstance(c, (str, bytes)) and isinstance(x, (str, bytes)):
        if type(c) is not type(x):
            I.throw("TypeError", "'in <string>' requires string as left operand")
        return x in c
    if I.ctx.known_eq(c, x):
        return True
    if isinstance(x, (str, bytes)):
        if not x:
            return True
        ps = parts(I, c)
        if any(isinstance(p, (str, bytes)) and x in p for p in ps):
            return True
        if len(x) == 1 or len(ps) == 1:
            for p in ps:
                if isinstance(p, Term) and contains_atom(I, p, x):
                    return True
            return False
        # a longer needle could straddle parts
        if all(isinstance(p, (str, bytes)) or x[:1] in p.meta.get("nosep", ()) or any(ch_in_nosep(p, x)) for p in ps):
            pass
        return I.ctx.choose("contains", (c, x), [True, False])
    ps = parts(I, c)
    xp = parts(I, x)
    for i in range(len(ps) - len(xp) + 1):
        if all(_same(I, a, b) for a, b in zip(ps[i:i + len(xp)], xp)):
            return True
    if not xp:
        return True
    return I.ctx.choose("contains", (c, x), [True, False])


def ch_in_nosep(p, x):
    return [x in p.meta.get("nosep", ())]


def _same(I, a, b):
    return I.ctx.known_eq(a, b) is True


def text_eq(I, a, b):
    pa, pb = parts(I, a), parts(I, b)
    # cancel common prefixes and suffixes
    for rev in (False, True):
        while pa and pb:
            x, y = (pa[-1], pb[-1]) if rev else (pa[0], pb[0])
            if isinstance(x, (str, bytes)) and isinstance(y, (str, bytes)):
                if type(x) is not type(y):
                    return False
                n = 0
                xs, ys = (x[::-1], y[::-1]) if rev else (x, y)
                while n < len(xs) and n < len(ys) and xs[n] == ys[n]:
                    n += 1
                if n < len(xs) and n < len(ys):
                    return False
                rx, ry = xs[n:], ys[n:]
                rx, ry = (rx[::-1], ry[::-1]) if rev else (rx, ry)
                if rev:
                    pa = pa[:-1] + ([rx] if rx else [])
                    pb = pb[:-1] + ([ry] if ry else [])
                else:
                    pa = ([rx] if rx else []) + pa[1:]
                    pb = ([ry] if ry else []) + pb[1:]
                continue
            if I.ctx.known_eq(x, y):
                if rev:
                    pa, pb = pa[:-1], pb[:-1]
                else:
                    pa, pb = pa[1:], pb[1:]
                continue
            break
    if not pa and not pb:
        return True
    if not pa or not pb:
        rest = pa or pb
        for p in rest:
            if isinstance(p, (str, bytes)):
                return False
            if truth(I, p):
                return False
        return True
    kind = "bytes" if I.ctx.tags(pa[0]) == T_BYTES else "str"
    if len(pa) == len(pb) and len(pa) > 1:
        seps = [(x, y) for x, y in zip(pa, pb) if isinstance(x, (str, bytes)) or isinstance(y, (str, bytes))]
        if seps and all(isinstance(x, (str, bytes)) and x == y for x, y in seps):
            ok = True
            for p in pa + pb:
                if isinstance(p, Term) and not all(s[0] in p.meta.get("nosep", ()) for s in seps):
                    ok = False
            if ok:
                return all(text_eq(I, x, y) for x, y in zip(pa, pb) if isinstance(x, Term))
    x = mk_cat(I, kind, pa)
    y = mk_cat(I, kind, pb)
    if isinstance(x, Term) and isinstance(y, Term) and x.op == y.op and x.op in INJECTIVE:
        if x.args[1:] == y.args[1:] or (x.op in ("b64", "hash") and x.args[:-1] == y.args[:-1]):
            i = -1 if x.op in ("b64", "hash") else 0
            return text_eq(I, x.args[i], y.args[i])
    # text can be moved between its encoded and decoded form
    if isinstance(x, Term) and x.op in ("enc", "dec") and isinstance(y, (str, bytes)):
        try:
            y2 = y.decode("utf-8") if x.op == "enc" else y.encode("utf-8")
            return text_eq(I, x.args[0], y2)
        except UnicodeDecodeError:
            return False
    if isinstance(y, Term) and y.op in ("enc", "dec") and isinstance(x, (str, bytes)):
        return text_eq(I, y, x)
    # constant against text with a known length
    for p, q in ((x, y), (y, x)):
        if isinstance(q, (str, bytes)):
            n = known_len(I, p)
            if n is not None and n != len(q):
                return False
            if isinstance(p, Term) and p.op == "cat":
                if sum(len(z) for z in p.args if isinstance(z, (str, bytes))) > len(q):
                    return False
                first, last = p.args[0], p.args[-1]
                if isinstance(first, (str, bytes)) and not q.startswith(first):
                    return False
                if isinstance(last, (str, bytes)) and not q.endswith(last):
                    return False
            if isinstance(p, Term) and p.op not in ("cat",):
                for s in p.meta.get("nosep", ()):
                    if type(s) is type(q) and s in q:
                        return False
                if not q and p.meta.get("nonempty"):
                    return False
                if not q:
                    return not truth(I, p)
    return I.ctx.eq_atoms(x, y)


INJECTIVE = {"enc", "dec", "b64", "hash", "hex"}


# ===================================================================== truth
def truth(I, v):
    c = I.ctx
    v = c.n(v)
    if isinstance(v, (bool, int, float, str, bytes, type(None))):
        return bool(v)
    if isinstance(v, (tuple,)):
        return len(v) > 0
    if isinstance(v, (AList, ASet)):
        return len(v.items) > 0
    if isinstance(v, ADict):
        return dict_truth(I, v)
    if isinstance(v, AView):
        return dict_truth(I, dict_payload(I, v.d))
    if isinstance(v, AObj):
        m = find_method(I, v, "__bool__")
        if m is not None:
            return truth(I, I.call(m, [], {}))
        m = find_method(I, v, "__len__")
        if m is not None:
            return truth(I, I.call(m, [], {}))
        if v.payload is not None and not v.cls.issub(exc_class(I, "BaseException")):
            return truth(I, v.payload)
        return True
    if isinstance(v, Term):
        return term_truth(I, v)
    if isinstance(v, ExtObj) and v.kind == "range":
        return bool(len(v.attrs["r"]))
    return True


def term_truth(I, v):
    c = I.ctx
    tags = c.tags(v)
    k = ("truthy", v)
    if k in c.facts:
        return c.facts[k]
    if tags == frozenset({"none"}):
        return False
    if tags <= {"str", "bytes"}:
        if v.meta.get("nonempty"):
            return True
        if v.op == "cat":
            if any(isinstance(p, (str, bytes)) and p for p in v.args):
                return True
            return any(truth(I, p) for p in v.args)
        if v.op in ("enc", "dec", "b64", "b64d", "hex", "str"):
            if v.op == "str":
                return True
            return truth(I, v.args[-1] if v.op == "b64" else v.args[0])
        if v.op in ("hash", "mac", "sig", "rand", "pem", "der!", "dersig", "der"):
            return True
        if v.op == "tobytes" and isinstance(v.args[0], Term) and v.args[0].meta.get("positive"):
            return True
        n = length(I, v)
        if isinstance(n, int):
            return n > 0
        return c.decide_sign(c.lin_of(n), {1})
    if tags == T_BOOL:
        return c.choose("truthy", (v,), [True, False])
    if tags <= NUMERIC:
        r = not c.decide_sign(c.lin_of(v), {0})
        if not r:
            c.union(v, 0)
        return r
    if tags == T_OBJ:
        if v.op in ("td",):
            return not c.decide_sign(c.lin_of(v.args[0]), {0})
        return True
    if v.op in ("pairs", "map"):
        return True if v.op == "pairs" else truth(I, v.args[1])
    r = c.choose("truthy", (v,), [True, False])
    if r:
        c.types[v] = tags - {"none"}
    return r


# ===================================================================== force JSON containers
def force(I, v):
    """The container a term denotes, once its type is known to be a container."""
    c = I.ctx
    e = c.expand.get(v)
    if e is not None:
        return e
    tags = c.tags(v)
    if len(tags) > 1:
        if "dict" in tags and c.decide_type(v, T_DICT):
            tags = c.tags(v)
        elif "list" in c.tags(v) and c.decide_type(v, frozenset({"list", "tuple", "set"})):
            tags = c.tags(v)
        else:
            return v
    if tags == T_DICT:
        src = Term("jsonobj", (v,), T_DICT)
        src.meta.setdefault("mk", lambda key, v=v: json_item(v, key))
        src.meta.setdefault("universe", ())
        d = ADict(sources=[src])
        t = c.facts.get(("truthy", v))
        if t is not None:
            c.facts[("nonempty", src)] = t
        c.expand[v] = d
        return d
    if tags & {"list", "tuple", "set"}:
        t = c.facts.get(("truthy", v))
        opts = [0, 1, 2] if t is None else ([1, 2] if t else [0])
        if v.meta.get("elems") is not None:
            items = list(v.meta["elems"])
        else:
            n = c.choose("nelems", (v,), opts)
            items = [Term("elem", (v, i), v.meta.get("elemty", T_JSON)) for i in range(n)]
        l = AList(items)
        c.expand[v] = l
        return l
    return v


def json_item(base, key):
    return Term("item", (base, key), T_JSON)


# ===================================================================== equality / identity
def equal(I, a, b):
    c = I.ctx
    a, b = c.n(a), c.n(b)
    if a is b:
        return True
    for x, y in ((a, b), (b, a)):
        if isinstance(x, AObj):
            m = find_method(I, x, "__eq__")
            if m is not None:
                r = I.call(m, [y], {})
                if not (isinstance(r, ExtRef) and r.path == "NotImplemented"):
                    return truth(I, r)
    if isinstance(a, AObj) and isinstance(b, AObj):
        if a.payload is None or b.payload is None:
            if a.cls is b.cls and a.cls.dataclass is not None and a.cls.dataclass.get("eq", True):
                return all(equal(I, a.attrs.get(f), b.attrs.get(f)) for f in a.cls.fields)
            return False
        if a.cls.issub(exc_class(I, "BaseException")):
            return False
    if isinstance(a, AObj) and a.payload is not None and not a.cls.is_enum:
        return equal(I, a.payload, b)
    if isinstance(b, AObj) and b.payload is not None and not b.cls.is_enum:
        return equal(I, a, b.payload)
    if isinstance(a, AObj) and a.cls.is_enum and a.payload is not None:
        return equal(I, a.payload, b)
    if isinstance(b, AObj) and b.cls.is_enum and b.payload is not None:
        return equal(I, a, b.payload)
    if isinstance(a, NATIVE) and isinstance(b, NATIVE):
        return a == b
    if isinstance(a, ATypeOf) or isinstance(b, ATypeOf):
        if isinstance(b, ATypeOf):
            a, b = b, a
        return type_is(I, a.term, b)
    if isinstance(a, AView):
        a = make_set(I, list(iterate(I, a))) if a.kind == "keys" else a
    if isinstance(b, AView):
        b = make_set(I, list(iterate(I, b))) if b.kind == "keys" else b
    if isinstance(a, (tuple, AList)) and isinstance(b, (tuple, AList)):
        if isinstance(a, tuple) != isinstance(b, tuple):
            return False
        x = a if isinstance(a, tuple) else a.items
        y = b if isinstance(b, tuple) else b.items
        return len(x) == len(y) and all(equal(I, p, q) for p, q in zip(list(x), list(y)))
    if isinstance(a, ASet) and isinstance(b, ASet):
        return all(contains(I, b, x) for x in a.items) and all(contains(I, a, x) for x in b.items)
    if isinstance(a, ADict) and isinstance(b, ADict):
        ka = [(k, v) for k, v in iter_dict(I, a)]
        kb = [(k, v) for k, v in iter_dict(I, b)]
        if len(ka) != len(kb):
            return False
        for k, v in ka:
            f, w = dict_get(I, b, k)
            if not f or not equal(I, v, w):
                return False
        return True
    if isinstance(a, Term) or isinstance(b, Term):
        return eq_term(I, a, b)
    if isinstance(a, ABound) and isinstance(b, ABound):
        return a.fn is b.fn and a.self_ is b.self_
    return False


def eq_term(I, a, b):
    c = I.ctx
    if not isinstance(a, Term):
        a, b = b, a
    if not isinstance(b, Term) and not isinstance(b, NATIVE):
        if isinstance(b, (AList, ADict, tuple, ASet)):
            want = tag_of_const(b) if not isinstance(b, ASet) else frozenset({"set"})
            tags = c.tags(a)
            if a.op in ("list", "dict", "tuple"):
                return equal(I, thaw(I, a), b)
            if not tags & want:
                return False
            if "obj" in tags or isinstance(b, (tuple, ASet)):
                return c.choose("eqc", (a, freeze(I, b)), [True, False])
            if not c.decide_type(a, want):
                return False
            return equal(I, force(I, a), b)
        if "obj" in c.tags(a) and isinstance(b, (AObj, ExtObj)):
            return c.choose("eqo", (a, b), [True, False])
        return False
    if b is None:
        return c.decide_type(a, frozenset({"none"}))
    ta, tb = c.tags(a), c.tags(b)
    if is_dt(a) or is_dt(b):
        if is_dt(a) and is_dt(b) and a.op == b.op:
            if a.op == "dt" and a.args[0] != b.args[0]:
                return False
            return c.decide_sign(c.lin_sub(c.lin_of(a.args[-1]), c.lin_of(b.args[-1])), {0})
        return False
    if ta <= NUMERIC and tb <= NUMERIC and not (ta == T_BOOL and tb == T_BOOL):
        r = c.decide_sign(c.lin_sub(c.lin_of(a), c.lin_of(b)), {0})
        if r and a.op != "lin" and isinstance(b, NATIVE):
            c.union(a, b)
        return r
    if isinstance(b, (int, float)) and not isinstance(b, bool):
        if not ta & NUMERIC:
            return False
        if not c.decide_type(a, NUMERIC):
            return False
        return eq_term(I, a, b)
    if isinstance(b, bool):
        if not ta & NUMERIC:
            return False
        if ta == T_BOOL:
            return truth(I, a) == b
        return c.eq_atoms(a, b)
    if ta in (T_STR, T_BYTES) and tb in (T_STR, T_BYTES):
        if ta != tb:
            return False
        return text_eq(I, a, b)
    if ta in (T_STR, T_BYTES) or tb in (T_STR, T_BYTES):
        x, y = (a, b) if ta in (T_STR, T_BYTES) else (b, a)
        # y has several possible types
        want = c.tags(x)
        if not c.tags(y) & want:
            return False
        k = c.known_eq(x, y)
        if k is not None:
            return k
        if isinstance(x, Term) and (x.op != "sym" or True):
            if isinstance(y, Term) and len(c.tags(y)) > 1 and not isinstance(x, NATIVE):
                if not c.decide_type(y, want):
                    return False
                return text_eq(I, x, c.n(y))
    if a.op in ("list", "dict", "tuple", "set") and isinstance(b, Term) and a.op == b.op:
        return equal(I, thaw(I, a), thaw(I, b))
    if isinstance(b, str) and ("truthy", a) in c.facts and not c.facts[("truthy", a)] and b:
        return False
    return c.eq_atoms(a, b)


def is_dt(v):
    return isinstance(v, Term) and v.op in ("dt", "td")


def is_(I, a, b):
    c = I.ctx
    a, b = c.n(a), c.n(b)
    if a is b:
        return True
    for x, y in ((a, b), (b, a)):
        if y is None:
            if isinstance(x, Term):
                return c.decide_type(x, frozenset({"none"}))
            return False
        if y is True or y is False:
            if isinstance(x, Term):
                if not c.decide_type(x, T_BOOL):
                    return False
                return truth(I, x) == y
            return False
    if isinstance(a, ATypeOf) or isinstance(b, ATypeOf):
        return equal(I, a, b)
    if isinstance(a, NATIVE) and isinstance(b, NATIVE):
        return type(a) is type(b) and a == b
    if isinstance(a, Term) and isinstance(b, Term):
        return c.known_eq(a, b) is True or (
            bool(c.tags(a) & c.tags(b)) and c.choose("is", (a, b), [True, False])
        )
    if isinstance(a, ABound) and isinstance(b, ABound):
        return False
    return False


def type_is(I, t, cls):
    tag = CLASS_TAG.get(getattr(cls, "name", None)) if isinstance(cls, AClass) and cls.builtin else None
    if isinstance(cls, ATypeOf):
        return I.ctx.choose("sametype", (t, cls.term), [True, False])
    if cls is None or tag is None:
        if isinstance(cls, AClass) and "obj" in I.ctx.tags(t):
            return I.ctx.choose("typeis", (t, cls), [True, False])
        return False
    return I.ctx.decide_type(t, frozenset({tag}))


CLASS_TAG = {"int": "int", "bool": "bool", "float": "float", "str": "str", "bytes": "bytes",
             "list": "list", "dict": "dict", "tuple": "tuple", "set": "set"}
CLASS_TAGS = {"int": {"int", "bool"}, "bool": {"bool"}, "float": {"float"}, "str": {"str"},
              "bytes": {"bytes"}, "list": {"list"}, "dict": {"dict"}, "tuple": {"tuple"},
              "set": {"set"}, "object": set(ALL_TAGS), "frozenset": set(), "complex": set(),
              "bytearray": set(), "type": set(), "range": set()}
ABC_TAGS = {
    "collections.abc.Mapping": {"dict"}, "collections.abc.MutableMapping": {"dict"},
    "typing.Mapping": {"dict"}, "typing.Dict": {"dict"}, "typing.List": {"list"},
    "collections.abc.Sequence": {"list", "tuple", "str", "bytes"},
    "collections.abc.MutableSequence": {"list"},
    "collections.abc.Iterable": {"list", "tuple", "str", "bytes", "dict", "set"},
    "collections.abc.Collection": {"list", "tuple", "str", "bytes", "dict", "set"},
    "collections.abc.Container": {"list", "tuple", "str", "bytes", "dict", "set"},
    "collections.abc.Sized": {"list", "tuple", "str", "bytes", "dict", "set"},
    "collections.abc.Hashable": {"none", "bool", "int", "float", "str", "bytes", "tuple"},
    "collections.abc.Set": {"set"},
    "numbers.Integral": {"int", "bool"}, "numbers.Number": {"int", "bool", "float"},
    "numbers.Real": {"int", "bool", "float"},
}


def native_class(v):
    if v is None:
        return None
    return B.get(type(v).__name__)


def type_of(I, v):
    v = I.ctx.n(v)
    if isinstance(v, AObj):
        return v.cls
    if isinstance(v, AClass):
        return B["type"]
    if v is None:
        return ExtRef("types.NoneType")
    if isinstance(v, NATIVE):
        return B[type(v).__name__]
    if isinstance(v, tuple):
        return B["tuple"]
    if isinstance(v, AList):
        return B["list"]
    if isinstance(v, ADict):
        return B["dict"]
    if isinstance(v, ASet):
        return B["frozenset" if v.frozen else "set"]
    if isinstance(v, Term):
        tags = I.ctx.tags(v)
        if len(tags) == 1:
            t = next(iter(tags))
            if t == "none":
                return ExtRef("types.NoneType")
            if t in B:
                return B[t]
        return ATypeOf(v)
    if isinstance(v, ExtObj):
        from . import ext

        return ext.class_of_extobj(I, v)
    return ExtRef("types.FunctionType")


def isinstance_(I, v, cls):
    c = I.ctx
    v = c.n(v)
    cls = c.n(cls)
    if isinstance(cls, (tuple,)):
        if isinstance(v, Term):
            # one question for the whole tuple keeps the partition coarse
            tags = set()
            simple = True
            for k in cls:
                s = class_tags(I, k)
                if s is None:
                    simple = False
                else:
                    tags |= s
            if simple:
                return c.decide_type(v, frozenset(tags))
        return any(isinstance_(I, v, k) for k in cls)
    if cls is None or (isinstance(cls, ExtRef) and cls.path == "types.NoneType"):
        return is_(I, v, None)
    if isinstance(v, Term):
        s = class_tags(I, cls)
        if s is not None:
            return c.decide_type(v, frozenset(s))
        if isinstance(cls, ATypeOf):
            return c.choose("isinst", (v, cls.term), [True, False])
        if "obj" in c.tags(v):
            from . import ext

            r = ext.isinstance_term(I, v, cls)
            if r is not None:
                return r
            return c.choose("isinst", (v, cls), [True, False])
        return False
    if isinstance(cls, ExtRef):
        s = ABC_TAGS.get(cls.path)
        if s is not None:
            if isinstance(v, AObj) and v.payload is not None:
                v = v.payload
            if isinstance(v, (ASet,)):
                return "set" in s
            return bool(tag_of_const(v) & s)
        if cls.path in ("typing.Callable", "collections.abc.Callable"):
            return callable_(I, v)
        if cls.path in ("collections.abc.Awaitable", "collections.abc.Coroutine", "typing.Awaitable"):
            return isinstance(v, ACoro)
        if isinstance(v, ExtObj):
            from . import ext

            return ext.extobj_isinstance(I, v, cls.path)
        k = as_class(I, cls)
        if isinstance(v, AObj) and k is not None:
            return v.cls.issub(k)
        return False
    if isinstance(cls, AClass):
        if cls.name == "object" and cls.builtin:
            return True
        if isinstance(v, ExtObj):
            from . import ext

            if cls.extname:
                return ext.extobj_isinstance(I, v, cls.extname)
            if cls.builtin:
                return False
            return False
        t = type_of(I, v)
        if isinstance(t, AClass):
            return t.issub(cls)
        return False
    I.throw("TypeError", "isinstance() arg 2 must be a type or tuple of types")


def class_tags(I, cls):
    cls = I.ctx.n(cls)
    if isinstance(cls, AClass) and cls.builtin and cls.name in CLASS_TAGS:
        return CLASS_TAGS[cls.name]
    if isinstance(cls, ExtRef):
        if cls.path == "types.NoneType":
            return {"none"}
        return ABC_TAGS.get(cls.path)
    if cls is None:
        return {"none"}
    return None


# ===================================================================== ordering
SIGNS = {"Lt": {-1}, "LtE": {-1, 0}, "Gt": {1}, "GtE": {0, 1}}


def order(I, op, a, b):
    c = I.ctx
    a, b = N(I, a), N(I, b)
    for x, y, o in ((a, b, op), (b, a, {"Lt": "Gt", "Gt": "Lt", "LtE": "GtE", "GtE": "LtE"}[op])):
        if isinstance(x, AObj):
            m = find_method(I, x, {"Lt": "__lt__", "LtE": "__le__", "Gt": "__gt__", "GtE": "__ge__"}[o])
            if m is not None:
                return truth(I, I.call(m, [y], {}))
    if isinstance(a, AView):
        a = make_set(I, list(iterate(I, a)))
    if isinstance(b, AView):
        b = make_set(I, list(iterate(I, b)))
    if isinstance(a, ASet) and isinstance(b, ASet):
        if op == "LtE":
            return subset(I, a, b)
        if op == "GtE":
            return subset(I, b, a)
        if op == "Lt":
            return subset(I, a, b) and not subset(I, b, a)
        return subset(I, b, a) and not subset(I, a, b)
    if isinstance(a, (tuple, AList)) and type(a) is type(b):
        xs, ys = (a, b) if isinstance(a, tuple) else (a.items, b.items)
        for x, y in zip(xs, ys):
            if not equal(I, x, y):
                return order(I, op, x, y)
        return _pyorder(op, len(xs), len(ys))
    if isinstance(a, NATIVE) and isinstance(b, NATIVE):
        try:
            return {"Lt": a.__lt__, "LtE": a.__le__, "Gt": a.__gt__, "GtE": a.__ge__}[op](b) if False else _pyorder(op, a, b)
        except TypeError:
            I.throw("TypeError", f"'{op}' not supported")
    if is_dt(a) or is_dt(b):
        if not (is_dt(a) and is_dt(b)) or a.op != b.op:
            if isinstance(a, Term) and isinstance(b, Term) and ("obj" in c.tags(a) and "obj" in c.tags(b)):
                return c.choose("order:" + op, (a, b), [True, False])
            I.throw("TypeError", "can't compare datetime to other types")
        if a.op == "dt" and a.args[0] != b.args[0]:
            I.throw("TypeError", "can't compare offset-naive and offset-aware datetimes")
        return c.decide_sign(c.lin_sub(c.lin_of(a.args[-1]), c.lin_of(b.args[-1])), SIGNS[op])
    for x in (a, b):
        if isinstance(x, Term):
            tags = c.tags(x)
            other = b if x is a else a
            otags = c.tags(other)
            if otags <= NUMERIC and not tags <= NUMERIC:
                if "obj" in tags:
                    continue
                if not c.decide_type(x, NUMERIC):
                    I.throw("TypeError", "ordering not supported between these types")
    a, b = N(I, a), N(I, b)
    if is_num(I, a) and is_num(I, b):
        return c.decide_sign(c.lin_sub(c.lin_of(a), c.lin_of(b)), SIGNS[op])
    ta, tb = c.tags(a), c.tags(b)
    if not ta & tb:
        I.throw("TypeError", "ordering not supported between these types")
    if ta == tb and len(ta) == 1 and (isinstance(a, (Term,) + NATIVE) and isinstance(b, (Term,) + NATIVE)):
        if op in ("Gt", "LtE"):
            r = c.choose("order:Gt", (a, b), [True, False])
            return r if op == "Gt" else not r
        r = c.choose("order:Lt", (a, b), [True, False])
        return r if op == "Lt" else not r
    return c.choose("order:" + op, (_atom(I, a), _atom(I, b)), [True, False])


def _atom(I, v):
    return v if isinstance(v, NATIVE + (Term,)) else freeze(I, v)


def _pyorder(op, a, b):
    return {"Lt": lambda: a < b, "LtE": lambda: a <= b, "Gt": lambda: a > b, "GtE": lambda: a >= b}[op]()


# ===================================================================== containment
def contains(I, c, x):
    c0 = I.ctx.n(c)
    x = I.ctx.n(x)
    c = c0
    if isinstance(c, AObj):
        m = find_method(I, c, "__contains__")
        if m is not None:
            return truth(I, I.call(m, [x], {}))
        if c.payload is not None:
            return contains(I, c.payload, x)
        m = find_method(I, c, "__iter__")
        if m is not None:
            return any(equal(I, x, i) for i in iterate(I, c))
        I.throw("TypeError", f"argument of type '{c.cls.name}' is not iterable")
    if isinstance(c, (tuple, AList, ASet)):
        items = list(c if isinstance(c, tuple) else c.items)
        if isinstance(c, ASet):
            check_hashable(I, x)
        # identical operands first: no question needs to be asked
        for i in items:
            if I.ctx.n(i) is x or _quick_same(I, i, x):
                return True
        for i in items:
            if equal(I, x, i):
                return True
        return False
    if isinstance(c, ADict):
        check_hashable(I, x)
        return dict_get(I, c, x)[0]
    if isinstance(c, AView):
        d = dict_payload(I, c.d)
        if c.kind == "keys":
            check_hashable(I, x)
            return dict_get(I, d, x)[0]
        return any(equal(I, x, i) for i in iterate(I, c))
    if isinstance(c, AClass) and c.is_enum:
        return any(equal(I, x, m) for m in enum_members(c))
    if isinstance(c, ExtObj) and c.kind == "range":
        x = N(I, x)
        if isinstance(x, int):
            return x in c.attrs["r"]
        r = c.attrs["r"]
        if is_num(I, x) and r.step == 1:
            return order(I, "GtE", x, r.start) and order(I, "Lt", x, r.stop)
    if isinstance(c, (AGen, ExtObj)):
        if isinstance(c, ExtObj) and c.kind not in ("range",):
            I.ctx.note_wild(f"in {c.kind}")
            return I.ctx.choose("contains?", (_atom(I, x), c.kind), [True, False])
        return any(equal(I, x, i) for i in iterate(I, c))
    if isinstance(c, (str, bytes)):
        x = N(I, x)
        if isinstance(c, bytes) and isinstance(x, int):
            return x in c
        if isinstance(x, (str, bytes)) or is_text(I, x):
            if isinstance(c, str) != (is_strlike(I, x)):
                I.throw("TypeError", "in <string> requires string as left operand")
            return substr(I, c, x)
        if isinstance(x, Term):
            want = T_STR if isinstance(c, str) else T_BYTES
            if not I.ctx.decide_type(x, want):
                I.throw("TypeError", "in <string> requires string as left operand")
            return substr(I, c, x)
        I.throw("TypeError", "in <string> requires string as left operand")
    if isinstance(c, Term):
        tags = I.ctx.tags(c)
        if tags <= {"str", "bytes"}:
            x = N(I, x)
            if isinstance(x, Term) and not I.ctx.tags(x) <= {"str", "bytes"}:
                if not I.ctx.decide_type(x, tags):
                    I.throw("TypeError", "in <string> requires string as left operand")
            elif not isinstance(x, (str, bytes, Term)):
                I.throw("TypeError", "in <string> requires string as left operand")
            return substr(I, c, x)
        if "obj" in tags:
            I.ctx.note_wild(f"in {show(c)}")
            return I.ctx.choose("contains?", (c, _atom(I, x)), [True, False])
        if not tags & {"str", "bytes", "list", "dict", "tuple", "set"} or not I.ctx.decide_type(
            c, frozenset({"str", "bytes", "list", "dict", "tuple", "set"})
        ):
            I.throw("TypeError", "argument is not iterable")
        tags = I.ctx.tags(c)
        if tags & {"str", "bytes"} and I.ctx.decide_type(c, frozenset({"str", "bytes"})):
            return contains(I, c, x)
        return contains(I, force(I, c), x)
    I.throw("TypeError", "argument is not iterable")


def _quick_same(I, a, b):
    a, b = N(I, a), N(I, b)
    if isinstance(a, NATIVE) and isinstance(b, NATIVE):
        return type(a) is type(b) and a == b
    if isinstance(a, (Term,) + NATIVE) and isinstance(b, (Term,) + NATIVE):
        return I.ctx.known_eq(a, b) is True
    return a is b


def check_hashable(I, x):
    x = I.ctx.n(x)
    if isinstance(x, (AList, ADict)) or (isinstance(x, ASet) and not x.frozen):
        I.throw("TypeError", "unhashable type")
    if isinstance(x, AObj) and isinstance(x.payload, (ADict, AList)):
        I.throw("TypeError", "unhashable type")
    if isinstance(x, Term):
        tags = I.ctx.tags(x)
        bad = tags & {"list", "dict", "set"}
        if bad and "obj" not in tags:
            if I.ctx.decide_type(x, frozenset({"list", "dict", "set"})):
                I.throw("TypeError", "unhashable type")
    if isinstance(x, tuple):
        for y in x:
            check_hashable(I, y)


# ===================================================================== sets
def dedup(I, items):
    out = []
    for x in items:
        if not any(_quick_same(I, x, y) for y in out):
            out.append(x)
    return out


def make_set(I, items, frozen=False):
    for x in items:
        check_hashable(I, x)
    return ASet(dedup(I, items), frozen)


def distinct(I, s):
    """Items of a set with distinctness decided (needed for len)."""
    out = []
    for x in s.items:
        if not any(equal(I, x, y) for y in out):
            out.append(x)
    return out


def as_set_items(I, v):
    v = I.ctx.n(v)
    if isinstance(v, ASet):
        return v.items
    return list(iterate(I, v))


def subset(I, a, b):
    return all(contains(I, b, x) for x in as_set_items(I, a))


def set_op(I, name, a, b):
    xs = list(as_set_items(I, a))
    if not isinstance(b, ASet):
        b = make_set(I, as_set_items(I, b))
    if name in ("union", "__or__"):
        out = list(xs) + list(b.items)
    elif name in ("intersection",):
        out = [x for x in xs if contains(I, b, x)]
    elif name == "difference":
        out = [x for x in xs if not contains(I, b, x)]
    else:
        sa = ASet(xs)
        out = [x for x in xs if not contains(I, b, x)] + [y for y in b.items if not contains(I, sa, y)]
    return ASet(dedup(I, out), getattr(a, "frozen", False))


# ===================================================================== dicts
def present(I, src, key):
    c = I.ctx
    if c.facts.get(("nonempty", src)) is False:
        return False
    r = c.choose("present", (src, key), [True, False])
    if r:
        c.facts[("nonempty", src)] = True
    return r


def guard_holds(I, g):
    return present(I, g[0], g[1])


def dict_payload(I, v):
    v = I.ctx.n(v)
    if isinstance(v, AObj) and v.payload is not None:
        v = I.ctx.n(v.payload)
    if isinstance(v, AView):
        return dict_payload(I, v.d)
    if isinstance(v, ADict):
        return v
    if isinstance(v, Term):
        tags = I.ctx.tags(v)
        if v.op == "dict":
            return thaw(I, v)
        if "dict" in tags and "obj" not in tags:
            if I.ctx.decide_type(v, T_DICT):
                return force(I, v)
            return None
        if tags & {"obj"}:
            return v
        return None
    if isinstance(v, ExtObj) and v.kind == "urlparts":
        return None
    return None


def dict_truth(I, d):
    if isinstance(d, Term):
        return truth(I, d)
    for e in d.entries.values():
        if e.guard is None:
            return True
    c = I.ctx
    for e in d.entries.values():
        if c.facts.get(("present", e.guard[0], ckey(e.guard[1]))) is True:
            return True
    for s in d.sources:
        for k in s.meta.get("universe", ()):
            if ckey(k) in d.removed:
                continue
            if c.facts.get(("present", s, ckey(k))) is True:
                return True
    for e in d.entries.values():
        if guard_holds(I, e.guard):
            return True
    for s in reversed(d.sources):
        if c.choose("nonempty", (s,), [True, False]):
            return True
    return False


def dict_get(I, d, k):
    """(found, value)"""
    c = I.ctx
    k = N(I, k)
    if isinstance(d, Term):
        c.note_wild("lookup in an unknown mapping")
        return True, Term("item", (d, _atom(I, k)))
    if isinstance(k, AObj) or not isinstance(k, NATIVE + (Term, tuple)):
        kk = ckey(k)
        e = d.entries.get(kk)
        if e is not None:
            return True, e.val
        if isinstance(k, AObj):
            for e in d.entries.values():
                if isinstance(e.key, AObj) and find_method(I, k, "__eq__") and equal(I, e.key, k):
                    return True, e.val
        return False, None
    kk = _dkey(I, k)
    e = d.entries.get(kk)
    if e is not None:
        if e.guard is None or guard_holds(I, e.guard):
            return True, e.val
    if isinstance(k, Term):
        for kk2, e in list(d.entries.items()):
            if kk2 == kk:
                continue
            if equal(I, k, e.key):
                if e.guard is None or guard_holds(I, e.guard):
                    return True, e.val
                return False, None
    elif isinstance(k, NATIVE):
        for kk2, e in list(d.entries.items()):
            if kk2 != kk and isinstance(e.key, Term):
                if equal(I, e.key, k):
                    if e.guard is None or guard_holds(I, e.guard):
                        return True, e.val
                    return False, None
    if kk in d.removed:
        return False, None
    for s in reversed(d.sources):
        if present(I, s, k):
            return True, s.meta["mk"](k)
    return False, None


def _dkey(I, k):
    if isinstance(k, tuple):
        return ("t",) + tuple(_dkey(I, I.ctx.n(x)) for x in k)
    return ckey(k)


def dict_set(I, d, k, v, guard=None):
    k0 = I.ctx.n(k)
    k = N(I, k)
    check_hashable(I, k0)
    if isinstance(d, Term):
        return
    kk = _dkey(I, k) if isinstance(k, NATIVE + (Term, tuple)) else ckey(k)
    if kk not in d.entries:
        for kk2, e in list(d.entries.items()):
            if isinstance(e.key, Term) or isinstance(k, Term):
                if isinstance(e.key, (Term,) + NATIVE) and I.ctx.known_eq(e.key, k):
                    d.entries[kk2] = Entry(e.key, v, guard)
                    return
    d.entries[kk] = Entry(k0 if isinstance(k0, AObj) else k, v, guard)


def dict_del(I, d, k):
    k = N(I, k)
    kk = _dkey(I, k) if isinstance(k, NATIVE + (Term, tuple)) else ckey(k)
    d.entries.pop(kk, None)
    if isinstance(k, Term):
        for kk2, e in list(d.entries.items()):
            if isinstance(e.key, NATIVE + (Term,)) and I.ctx.known_eq(e.key, k):
                d.entries.pop(kk2)
    d.removed.add(kk)


def dict_copy(I, d):
    n = ADict()
    n.entries = {k: Entry(e.key, e.val, e.guard) for k, e in d.entries.items()}
    n.sources = list(d.sources)
    n.removed = set(d.removed)
    return n


def pairs_src(I, v):
    """The open source denoted by an opaque list of pairs (parse_qsl)."""
    if isinstance(v, Term) and v.op == "pairs":
        return v.meta["src"]
    return None


def dict_merge(I, d, other):
    """d.update(other) without the mutation event."""
    other0 = I.ctx.n(other)
    src = pairs_src(I, other0)
    if src is not None:
        o = ADict(sources=[src])
    else:
        o = dict_payload(I, other0) if not isinstance(other0, (AList, tuple, AGen, ASet)) else None
        if o is None and isinstance(other0, AObj) and find_method(I, other0, "keys") is not None:
            o = ADict()
            for k in iterate(I, I.call(find_method(I, other0, "keys"), [], {})):
                dict_set(I, o, k, getitem(I, other0, k))
    if isinstance(o, Term):
        I.ctx.note_wild("merge of an unknown mapping")
        return
    if o is None and isinstance(other0, (AGen, AView)):
        r = gitems(I, other0)
        if r is not None and all(isinstance(x, tuple) and len(x) == 2 for x, _ in r[0]):
            o = ADict()
            for (k, v), g in r[0]:
                dict_set(I, o, k, v, guard=g)
            if r[1] is not None:
                o.sources, o.removed = list(r[1].sources), set(r[1].removed)
    if o is None:
        if isinstance(other0, (AList, tuple, AGen, ASet, AView)):
            for pair in list(iterate(I, other0)):
                kv = list(iterate(I, pair))
                if len(kv) != 2:
                    I.throw("ValueError", "dictionary update sequence element has wrong length")
                dict_set(I, d, kv[0], kv[1])
            return
        if isinstance(other0, Term) and "obj" not in I.ctx.tags(other0):
            I.throw("TypeError", "object is not iterable")
        if other0 is None or isinstance(other0, NATIVE):
            if isinstance(other0, (str, bytes)) and not other0:
                return
            I.throw("TypeError" if not isinstance(other0, (str, bytes)) else "ValueError", "object is not a mapping")
        I.ctx.note_wild("merge of an unknown mapping")
        return
    if o.sources:
        for s in o.sources:
            for kk, e in list(d.entries.items()):
                if kk in o.removed or kk in o.entries:
                    continue
                if present(I, s, e.key):
                    d.entries.pop(kk)
                    d.removed.discard(kk)
        for kk in list(d.removed):
            if kk not in o.removed:
                d.removed.discard(kk)
        keep_removed = set(o.removed)
        if keep_removed and d.sources:
            # keys removed from the newer source still come from the older ones
            for kk in keep_removed:
                if isinstance(kk, tuple) and kk[0] == "c" and kk not in d.entries:
                    f, v = dict_get(I, d, kk[2])
                    if f:
                        d.entries[kk] = Entry(kk[2], v)
        d.removed |= keep_removed
        d.sources.extend(s for s in o.sources)
    for kk, e in list(o.entries.items()):
        if e.guard is not None and (kk in d.entries):
            if guard_holds(I, e.guard):
                d.entries[kk] = Entry(e.key, e.val)
        else:
            dict_set(I, d, e.key, e.val, guard=e.guard)


def dict_update(I, d, other, kwargs=None):
    I.ctx.touch(d, "update")
    if other is not None:
        dict_merge(I, d, other)
    for k, v in (kwargs or {}).items():
        if isinstance(v, Guarded):
            dict_set(I, d, k, v.val, guard=v.guard)
        else:
            dict_set(I, d, k, v)


def dict_guarded_items(I, d):
    facts = I.ctx.facts
    for kk, e in list(d.entries.items()):
        if e.guard is not None:
            f = facts.get(("present", e.guard[0], ckey(e.guard[1])))
            if f is False or facts.get(("nonempty", e.guard[0])) is False:
                continue
            if f is True:
                yield e.key, e.val, None
                continue
        yield e.key, e.val, e.guard
    seen = set(d.entries)
    multi = len(d.sources) > 1
    keys = []
    for s in d.sources:
        for k in s.meta.get("universe", ()):
            kk = ckey(k)
            if kk not in seen and kk not in d.removed:
                seen.add(kk)
                keys.append(k)
        # keys the analysis has already met, universe or not
        for f in list(I.ctx.facts):
            if f[0] == "present" and f[1] is s and isinstance(f[2], tuple) and f[2][0] == "c":
                if f[2] not in seen and f[2] not in d.removed:
                    seen.add(f[2])
                    keys.append(f[2][2])
    for k in keys:
        if multi:
            f, v = dict_get(I, d, k)
            if f:
                yield k, v, None
        else:
            s = d.sources[0]
            f = facts.get(("present", s, ckey(k)))
            if f is False or facts.get(("nonempty", s)) is False:
                continue
            yield k, s.meta["mk"](k), None if f else (s, k)


def open_loop(I, d):
    for s in d.sources:
        if not s.meta.get("universe") and not s.meta.get("closed") and I.ctx.facts.get(("nonempty", s)) is not False:
            I.ctx.note_wild("iteration over a mapping with unknown keys")
    return iter_dict(I, d)


def iter_dict(I, d):
    for k, v, g in dict_guarded_items(I, d):
        if g is None or guard_holds(I, g):
            yield k, v


def gitems(I, v):
    """(items with guards, mapping the items are all entries of or None) of an iterable over a partly known mapping."""
    v = I.ctx.n(v)
    if isinstance(v, AGen):
        return v.gfn() if v.gfn is not None else None
    src = guarded_view(I, v)
    if src is None:
        return None
    d, kind = src
    return ([((k, x) if kind == "items" else k, g) for k, x, g in dict_guarded_items(I, d)], d if kind == "items" else None)


def gfilter(I, v, pred):
    """The guarded items of v that satisfy pred, as a function to be called at most once, or None."""
    v = I.ctx.n(v)
    if isinstance(v, AGen):
        if v.gfn is None:
            return None
    elif guarded_view(I, v) is None:
        return None

    def f():
        items, d = gitems(I, v)
        keep = [(x, g) for x, g in items if pred(x)]
        return keep, d if len(keep) == len(items) else None
    return f


def join_map(I, m):
    from . import methods
    return methods.join(I, "", m)


def int_from_bytes(I, b):
    from . import methods
    return methods.from_bytes(I, [b, "big"], {})


def guarded_view(I, v):
    kind = "keys"
    if isinstance(v, Term):
        src = pairs_src(I, v)
        return (ADict(sources=[src]), "items") if src is not None else None
    if isinstance(v, AView):
        kind = v.kind
        v = v.d
    d = v
    if isinstance(d, AObj):
        d = d.payload
    if isinstance(d, ADict) and kind in ("items", "keys"):
        if d.sources or any(e.guard is not None for e in d.entries.values()):
            return (d, kind)
    return None


def guarded_dictcomp(I, e, src, cf, out):
    d, kind = src
    g = e.generators[0]
    dropped = False
    for k, v, guard in list(dict_guarded_items(I, d)):
        I.assign(g.target, (k, v) if kind == "items" else k, cf)
        if not all(I.truth(I.eval(c, cf)) for c in g.ifs):
            dropped = True
            continue
        dict_set(I, out, I.eval(e.key, cf), I.eval(e.value, cf), guard=guard)
    ident = False
    if kind == "items" and isinstance(g.target, ast.Tuple) and len(g.target.elts) == 2:
        a, b = g.target.elts
        if (isinstance(a, ast.Name) and isinstance(b, ast.Name) and isinstance(e.key, ast.Name)
                and isinstance(e.value, ast.Name) and e.key.id == a.id and e.value.id == b.id):
            ident = True
    if ident and not dropped:
        out.sources = list(d.sources)
        out.removed = set(d.removed)
    return out


# ===================================================================== items
def slice_bounds(s, n):
    lo, hi, st = s.attrs["lo"], s.attrs["hi"], s.attrs["step"]
    return slice(lo, hi, st)


def getitem(I, o, k):
    c = I.ctx
    o, k = c.n(o), c.n(k)
    if isinstance(o, AObj):
        m = find_method(I, o, "__getitem__")
        if m is not None:
            return I.call(m, [k], {})
        if o.payload is not None:
            d = c.n(o.payload)
            if isinstance(d, ADict):
                f, v = dict_get(I, d, k)
                if f:
                    return v
                m = find_method(I, o, "__missing__")
                if m is not None:
                    return I.call(m, [k], {})
                I.throw("KeyError", _atom(I, k))
            return getitem(I, o.payload, k)
        I.throw("TypeError", "object is not subscriptable")
    if isinstance(o, ADict):
        check_hashable(I, k)
        f, v = dict_get(I, o, k)
        if f:
            return v
        I.throw("KeyError", _atom(I, k))
    if isinstance(o, AClass):
        if o.is_enum:
            kk = N(I, k)
            for m in enum_members(o):
                if equal(I, m.attrs["name"], kk):
                    return m
            I.throw("KeyError", _atom(I, k))
        return o
    if isinstance(o, ExtRef):
        return o
    if isinstance(k, ExtObj) and k.kind == "slice":
        lo, hi, st = (N(I, k.attrs[x]) for x in ("lo", "hi", "step"))
        return get_slice(I, o, lo, hi, st)
    if isinstance(o, (AList, tuple)):
        items = o if isinstance(o, tuple) else o.items
        k = N(I, k)
        if isinstance(k, (int, bool)):
            if -len(items) <= k < len(items):
                return items[k]
            I.throw("IndexError", "list index out of range")
        if isinstance(k, Term) and is_num(I, k):
            c.note_wild("unknown index")
            return Term("item", (freeze(I, o), k))
        I.throw("TypeError", "list indices must be integers or slices")
    if isinstance(o, (str, bytes)):
        k = N(I, k)
        if isinstance(k, int):
            if -len(o) <= k < len(o):
                return o[k]
            I.throw("IndexError", "string index out of range")
        if isinstance(k, Term):
            return Term("item", (o, k), T_STR if isinstance(o, str) else T_INT)
        I.throw("TypeError", "string indices must be integers")
    if isinstance(o, Term):
        tags = c.tags(o)
        if o.op in ("list", "dict", "tuple"):
            return getitem(I, thaw(I, o), k)
        if "obj" in tags:
            c.note_wild(f"subscript of {show(o)}")
            return Term("item", (o, _atom(I, k)))
        if tags <= {"str", "bytes"}:
            k = N(I, k)
            if not is_num(I, k):
                I.throw("TypeError", "string indices must be integers")
            n = known_len(I, o)
            if n is None:
                if not (isinstance(k, int) and o.meta.get("nonempty") and k in (0, -1)):
                    I.may_raise("index", (o, k), "IndexError")
            elif isinstance(k, int) and not -n <= k < n:
                I.throw("IndexError", "index out of range")
            if isinstance(k, int) and k == 0 and parts(I, o) and isinstance(parts(I, o)[0], (str, bytes)):
                return parts(I, o)[0][0]
            return Term("slice", (o, k, add(I, k, 1)), T_STR) if tags == T_STR else Term("item", (o, k), T_INT)
        conts = frozenset({"list", "dict", "tuple", "str", "bytes"})
        if not tags & conts or not c.decide_type(o, conts):
            I.throw("TypeError", "object is not subscriptable")
        if c.tags(o) <= {"str", "bytes"} or (c.tags(o) & {"str"} and c.decide_type(o, T_STR)):
            return getitem(I, o, k)
        return getitem(I, force(I, o), k)
    if isinstance(o, ExtObj):
        from . import ext

        return ext.extobj_getitem(I, o, k)
    if isinstance(o, ASet) or isinstance(o, AGen) or isinstance(o, AView):
        I.throw("TypeError", "object is not subscriptable")
    if isinstance(o, (AFunc, ABuiltin, ABound)):
        return o
    I.throw("TypeError", "object is not subscriptable")


def get_slice(I, o, lo, hi, st):
    if isinstance(o, (AList, tuple)) and all(x is None or isinstance(x, int) for x in (lo, hi, st)):
        r = (o if isinstance(o, tuple) else o.items)[lo:hi:st]
        return tuple(r) if isinstance(o, tuple) else AList(r)
    if isinstance(o, (str, bytes)) and all(x is None or isinstance(x, int) for x in (lo, hi, st)):
        return o[lo:hi:st]
    if isinstance(o, Term) and I.ctx.tags(o) <= {"str", "bytes"} and st in (None, 1):
        ps = parts(I, o)
        kind = "bytes" if I.ctx.tags(o) == T_BYTES else "str"
        lo2 = 0 if lo is None else lo
        # cut at the boundary between parts with known lengths
        if isinstance(lo2, int) and lo2 >= 0 and (hi is None or (isinstance(hi, int) and hi >= 0)):
            offs = [0]
            for p in ps:
                n = known_len(I, p)
                if n is None or offs[-1] is None:
                    offs.append(None)
                else:
                    offs.append(offs[-1] + n)
            if hi is None and lo2 in offs:
                return mk_cat(I, kind, ps[offs.index(lo2):])
            if hi is not None and lo2 in offs and hi in offs:
                return mk_cat(I, kind, ps[offs.index(lo2): offs.index(hi)])
            if hi is not None and offs[-1] is not None and hi >= offs[-1] and lo2 in offs:
                return mk_cat(I, kind, ps[offs.index(lo2):])
            # a constant prefix can be dropped
            if ps and isinstance(ps[0], (str, bytes)) and lo2 and lo2 <= len(ps[0]) and hi is None:
                return mk_cat(I, kind, [ps[0][lo2:]] + ps[1:])
        if lo2 == 0 and (hi is None or isinstance(hi, Term) and hi.op == "len" and hi.args[0] is o):
            return o
        return Term("slice", (o, lo2, hi), T_BYTES if kind == "bytes" else T_STR)
    if isinstance(o, Term) and I.ctx.tags(o) <= {"str", "bytes"} and st == -1 and lo is None and hi is None:
        if o.op == "reversed":
            return o.args[0]
        t = Term("reversed", (o,), I.ctx.tags(o))
        t.meta.update({k: o.meta[k] for k in ("nonempty", "ascii", "nosep") if k in o.meta})
        return t
    if isinstance(o, Term):
        tags = I.ctx.tags(o)
        if "list" in tags and "obj" not in tags and I.ctx.decide_type(o, T_LIST):
            return get_slice(I, force(I, o), lo, hi, st)
        if "obj" not in tags and not I.ctx.tags(o) & {"str", "bytes", "list", "tuple"}:
            I.throw("TypeError", "object is not subscriptable")
        I.ctx.note_wild("slice of unknown")
        return Term("slice", (o, lo, hi), tags)
    if isinstance(o, AList):
        I.ctx.note_wild("unknown slice bounds")
        return AList(o.items)
    I.throw("TypeError", "object is not subscriptable")


def setitem(I, o, k, v):
    c = I.ctx
    o = c.n(o)
    if isinstance(o, AObj):
        m = find_method(I, o, "__setitem__")
        if m is not None:
            I.call(m, [k, v], {})
            return
        if o.payload is not None:
            return setitem(I, o.payload, k, v)
        I.throw("TypeError", "object does not support item assignment")
    if isinstance(o, ADict):
        c.touch(o, "item assignment")
        dict_set(I, o, k, v)
        return
    if isinstance(o, AList):
        k = N(I, k)
        c.touch(o, "item assignment")
        if isinstance(k, int) and -len(o.items) <= k < len(o.items):
            o.items[k] = v
            return
        if isinstance(k, ExtObj):
            o.items[slice(*(N(I, k.attrs[x]) for x in ("lo", "hi", "step")))] = list(iterate(I, v))
            return
        I.throw("IndexError", "list assignment index out of range")
    if isinstance(o, Term):
        if "obj" in c.tags(o) or "dict" in c.tags(o):
            d = dict_payload(I, o)
            if isinstance(d, ADict):
                return setitem(I, d, k, v)
            c.note_wild("item assignment on unknown")
            return
    if isinstance(o, ExtObj):
        if o.kind in ("mapping", "environ"):
            return
        c.note_wild("item assignment on external")
        return
    I.throw("TypeError", "object does not support item assignment")


def delitem(I, o, k):
    c = I.ctx
    o = c.n(o)
    if isinstance(o, AObj):
        m = find_method(I, o, "__delitem__")
        if m is not None:
            I.call(m, [k], {})
            return
        return delitem(I, o.payload, k)
    if isinstance(o, ADict):
        f, _ = dict_get(I, o, k)
        if not f:
            I.throw("KeyError", _atom(I, k))
        c.touch(o, "del")
        dict_del(I, o, k)
        return
    if isinstance(o, AList):
        k = N(I, k)
        c.touch(o, "del")
        if isinstance(k, int) and -len(o.items) <= k < len(o.items):
            del o.items[k]
            return
        I.throw("IndexError", "list index out of range")
    if isinstance(o, Term):
        c.note_wild("del on unknown")
        return
    I.throw("TypeError", "object doesn't support item deletion")


# ===================================================================== iteration
def known_seq(I, v):
    return isinstance(v, Term) and (v.op in ("list", "tuple", "dict", "pairs") or I.ctx.tags(v) <= {"list", "tuple"}
                                    and (v in I.ctx.expand or True))


def bytes_iter(I, v):
    """The bytes an iteration runs over, if they are opaque."""
    if isinstance(v, Term):
        if v.op == "bytesof":
            return v.args[0]
        if I.ctx.tags(v) == T_BYTES and not isinstance(I.ctx.n(v), bytes):
            return v
        if v.op == "map" and False:
            return None
    return None


def iterate(I, v):
    c = I.ctx
    v = c.n(v)
    if isinstance(v, tuple):
        yield from v
        return
    if isinstance(v, AList):
        i = 0
        while i < len(v.items):
            yield v.items[i]
            i += 1
        return
    if isinstance(v, ASet):
        yield from list(v.items)
        return
    if isinstance(v, ADict):
        for k, _ in open_loop(I, v):
            yield k
        return
    if isinstance(v, AView):
        d = dict_payload(I, v.d)
        for k, x in open_loop(I, d):
            yield k if v.kind == "keys" else x if v.kind == "values" else (k, x)
        return
    if isinstance(v, AGen):
        while True:
            try:
                x = next(v.it)
            except StopIteration:
                return
            yield x
    if isinstance(v, (str, bytes)):
        yield from v
        return
    if isinstance(v, ExtObj):
        if v.kind == "range":
            yield from v.attrs["r"]
            return
        from . import ext

        yield from ext.extobj_iter(I, v)
        return
    if isinstance(v, AObj):
        m = find_method(I, v, "__iter__") or find_method(I, v, "__aiter__")
        if m is not None:
            r = I.call(m, [], {})
            if r is v:
                nx = find_method(I, v, "__next__") or find_method(I, v, "__anext__")
                while True:
                    try:
                        x = I.call(nx, [], {})
                        if isinstance(x, ACoro):
                            x = I.await_(x)
                    except PyExc as e:
                        if e.obj.cls.name in ("StopIteration", "StopAsyncIteration"):
                            return
                        raise
                    yield x
            yield from iterate(I, r)
            return
        if v.payload is not None:
            yield from iterate(I, v.payload)
            return
        I.throw("TypeError", f"'{v.cls.name}' object is not iterable")
    if isinstance(v, AClass) and v.is_enum:
        yield from enum_members(v)
        return
    if isinstance(v, Term):
        if v.op in ("list", "tuple"):
            yield from (thaw(I, x) for x in v.args)
            return
        if v.op == "dict":
            yield from iterate(I, thaw(I, v))
            return
        src = pairs_src(I, v)
        if src is not None:
            for k, x in open_loop(I, ADict(sources=[src])):
                yield (k, x)
            return
        tags = c.tags(v)
        its = frozenset({"list", "tuple", "dict", "set", "str", "bytes"})
        if "obj" in tags:
            c.note_wild(f"iteration over {show(v)}")
            n = c.choose("nelems", (v,), [0, 1, 2])
            for i in range(n):
                yield Term("elem", (v, i))
            return
        if not tags & its or not c.decide_type(v, its):
            I.throw("TypeError", "object is not iterable")
        tags = c.tags(v)
        if tags & {"str", "bytes"} and c.decide_type(v, frozenset({"str", "bytes"})):
            n = 0 if not truth(I, v) else c.choose("nchars", (v,), [1, 2])
            for i in range(n):
                yield Term("slice", (v, i, i + 1), T_STR) if c.tags(v) == T_STR else Term("item", (v, i), T_INT)
            return
        yield from iterate(I, force(I, v))
        return
    if isinstance(v, ACoro):
        I.throw("TypeError", "'coroutine' object is not iterable")
    I.throw("TypeError", "object is not iterable")


# ===================================================================== attributes
def find_method(I, o, name):
    """User-defined method `name` of an object, bound; None otherwise."""
    if not isinstance(o, AObj):
        return None
    c, v = o.cls.lookup(name)
    if v is None:
        return None
    return bind_attr(I, v, o, o.cls)


def bind_attr(I, v, obj, cls):
    if isinstance(v, AFunc):
        return ABound(v, obj)
    if isinstance(v, ABuiltin) and getattr(v, "cls", None) == "method":
        return ABound(v, obj)
    if isinstance(v, AWrap):
        if v.kind == "classmethod":
            return ABound(v.fn, cls)
        if v.kind == "staticmethod":
            return v.fn
        if v.kind in ("property", "cached_property"):
            return I.call(v.fn, [obj], {})
    if isinstance(v, ExtObj) and v.kind == "partialmethod":
        return ABuiltin("partialmethod", lambda I, a, k: I.call(
            bind_attr(I, v.attrs["fn"], obj, cls), list(v.attrs["args"]) + list(a), {**v.attrs["kwargs"], **k}))
    if isinstance(v, AObj) and v.cls.lookup("__get__")[0] is not None:
        return I.call(find_method(I, v, "__get__"), [obj, cls], {})
    if isinstance(v, ExtObj) and v.kind == "lru":
        return ABound(ABuiltin("lru", lambda I, a, k, v=v: I.models.call_extobj(I, v, a, k)), obj)
    return v


def hasattr_(I, o, name):
    name = N(I, name)
    o = I.ctx.n(o)
    if isinstance(name, Term):
        if isinstance(o, (AObj, AClass)):
            cls = o.cls if isinstance(o, AObj) else o
            names = set()
            for k in cls.mro:
                names.update(k.attrs)
            if isinstance(o, AObj):
                names.update(o.attrs)
            for n in sorted(names):
                if name.op == "cat":
                    pre = name.args[0]
                    if isinstance(pre, str) and not n.startswith(pre):
                        continue
                if equal(I, name, n):
                    return True
            return False
        return I.ctx.choose("hasattr", (_atom(I, o), name), [True, False])
    try:
        getattr_(I, o, name)
        return True
    except PyExc as e:
        if e.obj.cls.issub(exc_class(I, "AttributeError")):
            return False
        raise


def getattr_(I, o, name):
    c = I.ctx
    o = c.n(o)
    name = N(I, name)
    if isinstance(name, Term):
        if isinstance(o, (AObj, AClass)):
            cls = o.cls if isinstance(o, AObj) else o
            names = set()
            for k in cls.mro:
                names.update(k.attrs)
            if isinstance(o, AObj):
                names.update(o.attrs)
            for n in sorted(names):
                if name.op == "cat" and isinstance(name.args[0], str) and not n.startswith(name.args[0]):
                    continue
                if equal(I, name, n):
                    return getattr_(I, o, n)
            I.throw("AttributeError", name)
        if isinstance(o, ExtRef):
            return Term("extattr", (o.path, name), T_OBJ)
        c.note_wild("getattr with an unknown name")
        return Term("attr", (_atom(I, o), name))
    if isinstance(o, AObj):
        return obj_attr(I, o, name)
    if isinstance(o, AClass):
        return class_attr(I, o, name)
    if isinstance(o, ASuper):
        return super_attr(I, o, name)
    if isinstance(o, AModule):
        if name in o.attrs:
            return o.attrs[name]
        q = f"{o.name}.{name}"
        if q in I.program.asts and q in I.modules:
            return I.modules[q]
        if name == "__dict__":
            d = ADict()
            for k, v in o.attrs.items():
                dict_set(I, d, k, v)
            return d
        I.throw("AttributeError", f"module {o.name!r} has no attribute {name!r}")
    if isinstance(o, ExtRef):
        return ext_const(I, ExtRef(f"{o.path}.{name}"))
    if isinstance(o, ExtObj):
        from . import ext

        return ext.extobj_attr(I, o, name)
    if isinstance(o, AWrap):
        if name in ("setter", "getter", "deleter"):
            def setter(I, a, k, o=o):
                return AWrap("property", o.fn, a[0] if name == "setter" else o.fset)
            return ABuiltin("property.setter", setter)
        if name in ("fget", "__func__", "__wrapped__"):
            return o.fn
        if isinstance(o.fn, AFunc):
            return getattr_(I, o.fn, name)
    if isinstance(o, ABound):
        if name == "__self__":
            return o.self_
        if name == "__func__":
            return o.fn
        return getattr_(I, o.fn, name)
    if isinstance(o, AFunc):
        if name in ("__name__", "__qualname__") and name in o.attrs:
            return o.attrs[name]
        if name in ("__name__",):
            return o.name
        if name == "__qualname__":
            return o.qual
        if name == "__module__":
            return o.module.name
        if name == "__doc__":
            return ast.get_docstring(o.node) if not isinstance(o.node, ast.Lambda) else None
        if name == "__dict__":
            d = ADict()
            for k, v in o.attrs.items():
                dict_set(I, d, k, v)
            return d
        if name in o.attrs:
            return o.attrs[name]
        if name == "__isabstractmethod__":
            I.throw("AttributeError", name)
        I.throw("AttributeError", name)
    if isinstance(o, ABuiltin):
        if name in ("__name__", "__qualname__"):
            return o.name
        I.throw("AttributeError", name)
    if name == "__class__":
        return type_of(I, o)
    if isinstance(o, AGen):
        if name in ("__aiter__", "__iter__"):
            return ABuiltin(name, lambda I, a, k: o)
        if name in ("__anext__", "__next__"):
            return ABuiltin(name, lambda I, a, k: FUNCS["next"](I, [o], {}))
        if name in ("aclose", "close"):
            return ABuiltin(name, lambda I, a, k: ACoro(lambda: None, "aclose") if o.is_async else None)
        if name in ("send", "asend"):
            def send(I, a, k):
                try:
                    return o.it.send(a[0])
                except StopIteration as s:
                    I.throw("StopAsyncIteration" if o.is_async else "StopIteration", s.value)
            if name == "asend":
                return ABuiltin(name, lambda I, a, k: ACoro(lambda: send(I, a, k), "asend"))
            return ABuiltin(name, send)
        if name in ("throw", "athrow"):
            I.ctx.note_wild("throw() into a generator")
            return Term("attr", (Term("generator", (), T_OBJ), name))
    if isinstance(o, ATypeOf):
        if name == "__name__":
            return Term("typename", (o.term,), T_STR)
    if isinstance(o, ACoro):
        if name in ("close", "send", "throw"):
            return ABuiltin(name, lambda I, a, k: None)
        I.throw("AttributeError", f"'coroutine' object has no attribute {name!r}")
    m = value_method(I, o, name)
    if m is not MISSING:
        return m
    if isinstance(o, Term):
        tags = c.tags(o)
        if "obj" in tags:
            c.note_wild(f"attribute {name} of {show(o)}")
            return Term("attr", (o, name))
    if isinstance(o, int) and name in ("real", "numerator"):
        return o
    I.throw("AttributeError", f"'{type(o).__name__}' object has no attribute {name!r}")


def obj_attr(I, o, name):
    cls = o.cls
    c, v = cls.lookup(name)
    if isinstance(v, AWrap) and v.kind == "property":
        return I.call(v.fn, [o], {})
    if isinstance(v, AObj) and v.cls.lookup("__get__")[0] is not None and v.cls.lookup("__set__")[0] is not None:
        return I.call(find_method(I, v, "__get__"), [o, cls], {})
    if name in o.attrs:
        return o.attrs[name]
    if c is not None:
        if isinstance(v, AWrap) and v.kind == "cached_property":
            r = I.call(v.fn, [o], {})
            I.ctx.touch(o, f"cached_property {name}")
            o.attrs[name] = r
            return r
        return bind_attr(I, v, o, cls)
    if name == "__class__":
        return cls
    if cls.dataclass is not None and cls.dataclass.get("namedtuple"):
        if name == "_replace":
            return ABuiltin(name, lambda I, a, k: instantiate(I, cls, [], {**{f: o.attrs[f] for f in cls.fields}, **k}))
        if name == "_asdict":
            def asdict(I, a, k):
                d = ADict()
                for f in cls.fields:
                    dict_set(I, d, f, o.attrs[f])
                return d
            return ABuiltin(name, asdict)
        if name in ("_fields", "_make"):
            return class_attr(I, cls, name)
    if cls.dataclass is not None and name in ("__dataclass_fields__", "__match_args__"):
        return class_attr(I, cls, name)
    if name == "__dict__":
        d = ADict()
        for k, x in o.attrs.items():
            dict_set(I, d, k, x)
        return d
    if name == "__doc__":
        return None
    if name in ("__module__",):
        return cls.module.name if cls.module else None
    if cls.issub(exc_class(I, "BaseException")):
        if name == "args":
            return o.payload if isinstance(o.payload, tuple) else ()
        if name == "exceptions" and cls.issub(exc_class(I, "BaseExceptionGroup")):
            return tuple(iterate(I, o.payload[1]))
        if name == "message" and cls.issub(exc_class(I, "BaseExceptionGroup")):
            return o.payload[0]
        if name == "__context__" and o.attrs.get("__cause__") is not None:
            return o.attrs["__cause__"]
        if name in ("__cause__", "__context__", "__traceback__", "__notes__"):
            return None
        if name == "value" and cls.issub(exc_class(I, "StopIteration")):
            return o.payload[0] if o.payload else None
        if name == "with_traceback":
            return ABuiltin(name, lambda I, a, k: o)
        if name == "add_note":
            return ABuiltin(name, lambda I, a, k: None)
        if cls.extname or any(k.extname for k in cls.mro):
            return Term("attr", (o, name))
    if o.payload is not None:
        m = value_method(I, o.payload, name, wrapper=o)
        if m is not MISSING:
            return m
    m = find_method(I, o, "__getattr__")
    if m is not None:
        return I.call(m, [name], {})
    if name in OBJECT_METHODS:
        return ABuiltin("object." + name, lambda I, a, k: OBJECT_METHODS[name](I, o, a, k))
    for k in cls.mro:
        if k.extname and k.extname not in KNOWN_EMPTY_BASES:
            I.ctx.note_wild(f"attribute {name} inherited from {k.extname}")
            return Term("attr", (o, name))
    I.throw("AttributeError", f"'{cls.name}' object has no attribute {name!r}")


KNOWN_EMPTY_BASES = {"abc.ABC", "typing.Generic", "typing.Protocol", "enum.Enum", "enum.IntEnum", "typing.NamedTuple"}


def _obj_setattr(I, o, a, k):
    setattr_raw(I, o, N(I, a[0]), a[1])


OBJECT_METHODS = {
    "__init__": lambda I, o, a, k: None,
    "__setattr__": _obj_setattr,
    "__repr__": lambda I, o, a, k: Term("repr", (o,), T_STR),
    "__str__": lambda I, o, a, k: Term("str", (o,), T_STR),
    "__eq__": lambda I, o, a, k: o is a[0],
    "__hash__": lambda I, o, a, k: Term("hash", (o,), T_INT),
    "__init_subclass__": lambda I, o, a, k: None,
    "__getattribute__": lambda I, o, a, k: getattr_(I, o, a[0]),
    "__format__": lambda I, o, a, k: str_(I, o),
}


def class_attr(I, cls, name):
    c, v = cls.lookup(name)
    if c is not None:
        if isinstance(v, AWrap):
            if v.kind == "classmethod":
                return ABound(v.fn, cls)
            if v.kind == "staticmethod":
                return v.fn
            return v
        if isinstance(v, AObj) and v.cls.lookup("__get__")[0] is not None:
            return I.call(find_method(I, v, "__get__"), [None, cls], {})
        return v
    if cls.meta is not None:
        c, v = cls.meta.lookup(name)
        if c is not None:
            if isinstance(v, AWrap) and v.kind == "property":
                return I.call(v.fn, [cls], {})
            return bind_attr(I, v, cls, cls.meta)
    if name in ("__name__", "__qualname__"):
        return cls.name
    if name == "__module__":
        return cls.module.name if cls.module else "builtins"
    if name == "__doc__":
        return None
    if name == "__mro__":
        return tuple(cls.mro)
    if name == "mro":
        return ABuiltin("mro", lambda I, a, k: AList(cls.mro))
    if name == "__bases__":
        return tuple(cls.bases)
    if name == "__subclasses__":
        return ABuiltin("__subclasses__", lambda I, a, k: AList(cls.subs))
    if name == "__class__":
        return cls.meta or B["type"]
    if cls.dataclass is not None and cls.dataclass.get("namedtuple"):
        if name == "_fields":
            return tuple(cls.fields)
        if name == "_make":
            return ABuiltin(name, lambda I, a, k: instantiate(I, cls, list(iterate(I, a[0])), {}))
    if cls.dataclass is not None and name == "__dataclass_fields__":
        d = ADict()
        for f in cls.fields:
            dict_set(I, d, f, ExtObj("dcfield", name=f))
        return d
    if name == "__match_args__" and cls.dataclass is not None:
        return tuple(cls.fields)
    if name == "__dict__":
        d = ADict()
        for k, x in cls.attrs.items():
            dict_set(I, d, k, x)
        return d
    if name == "__annotations__":
        return ADict()
    if name == "__members__" and cls.is_enum:
        d = ADict()
        for m in enum_members(cls):
            dict_set(I, d, m.attrs["name"], m)
        return d
    if name == "_member_map_" and cls.is_enum:
        return class_attr(I, cls, "__members__")
    for k in cls.mro:
        if k.builtin:
            if (k.name, name) in STATIC:
                return ABuiltin(f"{k.name}.{name}", lambda I, a, kw, f=STATIC[(k.name, name)], cls=cls: f(I, a, kw))
            if name in TYPE_METHODS.get(k.name, ()) or (k.name in TYPE_METHODS and name.startswith("__") and name in DUNDERS):
                return ABuiltin(f"{k.name}.{name}", lambda I, a, kw, k=k: unbound(I, k, name, a, kw))
    if name == "__new__":
        return ABuiltin("__new__", lambda I, a, k: new_object(I, a[0], a[1:], k))
    if name in OBJECT_METHODS:
        return ABuiltin("object." + name, lambda I, a, k: OBJECT_METHODS[name](I, a[0], a[1:], k))
    for k in cls.mro:
        if k.extname and k.extname not in KNOWN_EMPTY_BASES:
            I.ctx.note_wild(f"class attribute {name} of {k.extname}")
            return Term("attr", (cls, name))
    I.throw("AttributeError", f"type object {cls.name!r} has no attribute {name!r}")


DUNDERS = {"__init__", "__setitem__", "__getitem__", "__contains__", "__len__", "__iter__", "__delitem__", "__eq__"}


def unbound(I, k, name, a, kw):
    if not a:
        I.throw("TypeError", f"unbound method {k.name}.{name}() needs an argument")
    o = I.ctx.n(a[0])
    return base_method(I, k, o, name)(I, a[1:], kw)


def base_method(I, k, o, name):
    """Method `name` of builtin base `k` applied to `o` ignoring overrides."""
    def go(I, a, kw):
        tgt = o.payload if isinstance(o, AObj) and o.payload is not None else o
        if name == "__init__":
            if k.name == "dict" and isinstance(o, AObj):
                if o.payload is None:
                    o.payload = ADict()
                I.ctx.touch(o, "dict.__init__")
                dict_update(I, o.payload, a[0] if a else None, kw)
            elif k.name == "list" and isinstance(o, AObj):
                o.payload = AList(list(iterate(I, a[0])) if a else [])
            return None
        if name == "__setitem__":
            I.ctx.touch(tgt, "item assignment")
            if isinstance(tgt, ADict):
                dict_set(I, tgt, a[0], a[1])
            else:
                setitem(I, tgt, a[0], a[1])
            return None
        if name == "__getitem__":
            return getitem(I, tgt, a[0])
        if name == "__delitem__":
            return delitem(I, tgt, a[0])
        if name == "__contains__":
            return contains(I, tgt, a[0])
        if name == "__len__":
            return length(I, tgt)
        if name == "__iter__":
            return AGen(iterate(I, tgt))
        if name == "__eq__":
            return equal(I, tgt, a[0])
        if name == "__repr__" or name == "__str__":
            return str_(I, tgt)
        m = value_method(I, tgt, name)
        if m is MISSING:
            I.throw("AttributeError", name)
        return I.call(m, a, kw)
    return go


def super_attr(I, s, name):
    o = s.obj
    if isinstance(o, AClass) and o.meta is not None and s.cls in o.meta.mro:
        start = o.meta
    elif isinstance(o, AClass):
        start = o
    else:
        start = o.cls
    if s.cls not in start.mro:
        I.throw("TypeError", "super(type, obj): obj must be an instance or subtype of type")
    after = start.mro[start.mro.index(s.cls) + 1:]
    for k in after:
        if name in k.attrs:
            v = k.attrs[name]
            if isinstance(o, AClass):
                if isinstance(v, AWrap) and v.kind == "classmethod":
                    return ABound(v.fn, o)
                if isinstance(v, AWrap) and v.kind == "staticmethod":
                    return v.fn
                return v
            if name == "__new__":
                return v.fn if isinstance(v, AWrap) else v
            return bind_attr(I, v, o, o.cls)
        if k.builtin and k.name != "object":
            if name == "__new__":
                return ABuiltin("__new__", lambda I, a, kw, k=k: new_object(I, a[0], a[1:], kw))
            if name in TYPE_METHODS.get(k.name, ()) or name in DUNDERS:
                return ABuiltin(f"{k.name}.{name}", lambda I, a, kw, k=k: base_method(I, k, o, name)(I, a, kw))
        if k is exc_class(I, "BaseException"):
            if name == "__init__":
                def init(I, a, kw):
                    o.payload = tuple(a)
                return ABuiltin("Exception.__init__", init)
            if name in ("__str__", "__repr__"):
                return ABuiltin(name, lambda I, a, kw: str_(I, o.payload[0]) if o.payload and len(o.payload) == 1 else Term("str", (o,), T_STR))
    if name == "__new__":
        return ABuiltin("object.__new__", lambda I, a, kw: new_object(I, a[0], a[1:], kw))
    if name == "__init__":
        return ABuiltin("object.__init__", lambda I, a, kw: None)
    if name == "__call__" and isinstance(o, AClass) and B["type"] in after:
        return ABuiltin("type.__call__", lambda I, a, kw: instantiate(I, o, a, kw, meta_done=True))
    if name in OBJECT_METHODS:
        return ABuiltin("object." + name, lambda I, a, kw: OBJECT_METHODS[name](I, o, a, kw))
    for k in after:
        if k.extname and k.extname not in KNOWN_EMPTY_BASES:
            I.ctx.note_wild(f"super().{name} of {k.extname}")
            return Term("attr", (k, name))
    I.throw("AttributeError", f"'super' object has no attribute {name!r}")


def setattr_raw(I, o, name, v):
    I.ctx.touch(o, f".{name}")
    o.attrs[name] = v


def setattr_(I, o, name, v):
    c = I.ctx
    o = c.n(o)
    name = N(I, name)
    if isinstance(o, AObj):
        k, d = o.cls.lookup(name)
        if isinstance(d, AWrap) and d.kind == "property":
            if d.fset is None:
                I.throw("AttributeError", f"can't set attribute {name!r}")
            I.call(d.fset, [o, v], {})
            return
        if isinstance(d, AObj) and d.cls.lookup("__set__")[0] is not None:
            I.call(find_method(I, d, "__set__"), [o, v], {})
            return
        m = find_method(I, o, "__setattr__")
        if m is not None:
            I.call(m, [name, v], {})
            return
        if o.cls.dataclass and o.cls.dataclass.get("frozen") and o.label != "init":
            I.throw("AttributeError", f"cannot assign to field {name!r}")
        setattr_raw(I, o, name, v)
        return
    if isinstance(o, (AClass, AModule, AFunc)):
        if isinstance(o, AClass) and o.builtin:
            I.throw("TypeError", "cannot set attributes of built-in type")
        c.touch(o, f".{name}")
        o.attrs[name] = v
        return
    if isinstance(o, ExtObj):
        c.touch(o, f".{name}")
        o.attrs["." + name] = v
        return
    if isinstance(o, ABound) and isinstance(o.fn, AFunc):
        I.throw("AttributeError", "'method' object has no attribute")
    if isinstance(o, Term) or isinstance(o, ExtRef):
        c.note_wild(f"attribute assignment on {show(o)}")
        return
    I.throw("AttributeError", f"object has no attribute {name!r}")


# ===================================================================== classes
def as_class(I, v):
    v = I.ctx.n(v)
    if isinstance(v, AClass):
        return v
    if isinstance(v, ExtRef):
        return ext_class(I, v.path, make=True)
    if isinstance(v, (Term, ATypeOf)):
        I.ctx.note_wild("unknown base class")
        return B["object"]
    if isinstance(v, ExtObj):
        return None
    return None


def ext_class(I, path, make=False):
    from . import ext

    c = I.extclasses.get(path)
    if c is not None:
        return c
    bases = ext.EXC_BASES.get(path)
    if bases is not None:
        c = AClass(path.rsplit(".", 1)[1], [ext_class(I, b) if "." in b else exc_class(I, b) for b in bases], {}, extname=path)
    elif path in ("enum.Enum", "enum.IntEnum", "enum.StrEnum", "enum.Flag"):
        bs = {"enum.IntEnum": [B["int"]], "enum.StrEnum": [B["str"]]}.get(path, [B["object"]])
        c = AClass(path.rsplit(".", 1)[1], bs, {}, extname="enum.Enum")
        c.is_enum = True
    elif path in ("abc.ABC", "abc.ABCMeta"):
        c = AClass("ABC", [B["object"]], {}, extname="abc.ABC")
        c.is_abc = True
    elif path in ("typing.NamedTuple",):
        c = AClass("NamedTuple", [B["object"]], {}, extname=path)
    elif path in ("typing.TypedDict",):
        return B["dict"]
    elif path in ("typing.Dict", "collections.OrderedDict", "collections.UserDict"):
        return B["dict"]
    elif path in ("typing.Generic", "typing.Protocol"):
        c = AClass(path.rsplit(".", 1)[1], [B["object"]], {}, extname=path)
    elif make:
        c = AClass(path.rsplit(".", 1)[-1], [B["object"]], {}, extname=path)
    else:
        return None
    c.phase = 0
    I.extclasses[path] = c
    return c


def enum_members(cls):
    return [v for v in cls.attrs.values() if isinstance(v, AObj) and v.cls is cls and v.label == "enum"]


def build_class(I, name, bases, ns, module, node, kws, plain=False):
    if not bases:
        bases = [B["object"]]
    mc = kws.get("metaclass")
    mc = I.ctx.n(mc) if mc is not None else next((b.meta for b in bases if b.meta is not None), None)
    if isinstance(mc, AFunc) and not plain:
        d = ADict()
        for k, v in ns.items():
            dict_set(I, d, k, v)
        return I.call(mc, [name, tuple(bases), d], {})
    if isinstance(mc, AClass) and mc.issub(B["type"]) and not plain:
        rest = {a: b for a, b in kws.items() if a != "metaclass"}
        c, new = mc.lookup("__new__")
        if c is not None:
            d = ADict()
            for k, v in ns.items():
                dict_set(I, d, k, v)
            I.building.append((module, node, kws))
            try:
                cls = I.call(new.fn if isinstance(new, AWrap) else new, [mc, name, tuple(bases), d], rest)
            finally:
                I.building.pop()
        else:
            cls = build_class(I, name, bases, ns, module, node, kws, plain=True)
        if isinstance(cls, AClass):
            cls.meta = mc
            c, init = mc.lookup("__init__")
            if c is not None:
                d = ADict()
                for k, v in ns.items():
                    dict_set(I, d, k, v)
                I.call(init, [cls, name, tuple(bases), d], rest)
        return cls
    anns = ns.pop("__annotations_order__", [])
    cls = AClass(name, bases, ns, module)
    cls.node = node
    if isinstance(mc, AClass):
        cls.meta = mc
    if isinstance(mc, ExtRef) and mc.path == "abc.ABCMeta":
        cls.is_abc = True
    if node is not None and isinstance(node, ast.ClassDef):
        static = {s.target.id for s in node.body if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name)
                  and "ClassVar" in ast.unparse(s.annotation)}
        anns = [f for f in anns if f not in static]
    cls.fields = [f for b in reversed(cls.mro[1:]) if b.fields for f in b.fields]
    cls.fields = list(dict.fromkeys(cls.fields + anns))
    if any(k.extname == "typing.NamedTuple" for k in cls.mro):
        cls.dataclass = {"namedtuple": True}
    for v in list(ns.values()):
        _own(v, cls)
    if cls.is_enum:
        order_ = [k for k in ns if not k.startswith("_")]
        is_str = any(b.builtin and b.name in ("str", "int") for b in cls.mro)
        for k in order_:
            v = ns[k]
            if isinstance(v, (AFunc, AWrap, AClass, ABuiltin)):
                continue
            for prev in enum_members(cls):
                if isinstance(v, NATIVE) and isinstance(prev.attrs["value"], NATIVE) and prev.attrs["value"] == v:
                    ns[k] = prev
                    break
            else:
                m = AObj(cls)
                m.label = "enum"
                if isinstance(v, ExtObj) and v.kind == "enum.auto":
                    v = len(enum_members(cls)) + 1
                m.attrs["name"] = k
                m.attrs["value"] = v
                if is_str:
                    m.payload = v
                ns[k] = m
    for k, v in list(ns.items()):
        if isinstance(v, AObj) and not (cls.is_enum and v.label == "enum") and v.cls.lookup("__set_name__")[0] is not None:
            I.call(find_method(I, v, "__set_name__"), [cls, k], {})
    if "__init_subclass__" not in ns:
        for k in cls.mro[1:]:
            f = k.attrs.get("__init_subclass__")
            if f is not None:
                fn = f.fn if isinstance(f, AWrap) else f
                kw = {a: b for a, b in kws.items() if a != "metaclass"}
                I.call(fn, [cls], kw)
                break
    return cls


def _own(v, cls):
    if isinstance(v, AFunc):
        v.attrs.setdefault("__defcls__", cls)
    elif isinstance(v, AWrap):
        _own(v.fn, cls)
        if v.fset is not None:
            _own(v.fset, cls)
    elif isinstance(v, ExtObj) and "fn" in v.attrs:
        _own(v.attrs["fn"], cls)
    elif isinstance(v, ABuiltin):
        w = getattr(v.fn, "__wrapped_afunc__", None)
        if w is not None:
            _own(w, cls)


def is_abstract(v):
    f = v.fn if isinstance(v, AWrap) else v
    return isinstance(f, AFunc) and f.attrs.get("__isabstract__")


def new_object(I, cls, args, kwargs):
    cls = I.ctx.n(cls)
    if not isinstance(cls, AClass):
        I.throw("TypeError", f"object.__new__(X): X is not a type object ({show(cls)[:40]})")
    if cls.issub(B["type"]) and len(args) == 3:
        name, bases, d = args
        module, node, kws = I.building[-1] if I.building else (None, None, {})
        ns = {k: v for k, v in iter_dict(I, dict_payload(I, d))}
        return build_class(I, N(I, name), [c for c in (as_class(I, b) for b in iterate(I, bases)) if c is not None],
                           ns, module, node, {**kws, "metaclass": cls}, plain=True)
    for k in cls.mro:
        if k.builtin:
            if k.name == "dict":
                return AObj(cls, ADict())
            if k.name == "list":
                return AObj(cls, AList())
            if k.name == "str":
                return AObj(cls, str_(I, args[0]) if args else "")
            if k.name in ("int", "float"):
                return AObj(cls, args[0] if args else 0)
            if k.name == "bytes":
                return AObj(cls, args[0] if args else b"")
            if k.name == "tuple":
                o = AObj(cls)
                o.payload = tuple(iterate(I, args[0])) if args else ()
                return o
            if k.name in ("set", "frozenset"):
                return AObj(cls, make_set(I, list(iterate(I, args[0])) if args else []))
        if k is exc_class(I, "BaseException"):
            o = AObj(cls)
            o.payload = tuple(args)
            return o
    return AObj(cls)


def instantiate(I, cls, args, kwargs, guards=None, meta_done=False):
    if cls.builtin:
        if cls.ctor is None:
            I.ctx.note_wild(f"builtin type {cls.name}()")
            return Term("new:" + cls.name, ())
        for k in list(guards or ()):
            kwargs[k] = Guarded(kwargs[k], guards[k])
        return cls.ctor(I, list(args), kwargs)
    if cls.meta is not None and not meta_done:
        c, call = cls.meta.lookup("__call__")
        if c is not None:
            return I.call(call, [cls] + list(args), kwargs, guards)
    if cls.issub(B["type"]) and len(args) == 3:
        ns = {k: v for k, v in iter_dict(I, dict_payload(I, args[2]))}
        return build_class(I, N(I, args[0]), [c for c in (as_class(I, b) for b in iterate(I, args[1])) if c is not None],
                           ns, None, None, {**kwargs, "metaclass": cls})
    if cls.is_enum and len(args) == 2 and not enum_members(cls):
        names = I.ctx.n(args[1])
        if isinstance(names, str):
            names = AList(names.replace(",", " ").split())
        ns, d = {}, dict_payload(I, names) if not isinstance(names, (AList, tuple)) else None
        if d is not None:
            ns = {k: v for k, v in iter_dict(I, d)}
        else:
            for i, x in enumerate(iterate(I, names)):
                x = I.ctx.n(x)
                k, v = (x, i + 1) if isinstance(x, str) else tuple(iterate(I, x))
                ns[N(I, k)] = v
        return build_class(I, N(I, args[0]), [cls], ns, None, None, {})
    if cls.is_enum:
        v = args[0] if args else None
        for m in enum_members(cls):
            if m is v or equal(I, m.attrs["value"], v):
                return m
        mm = cls.lookup("_missing_")[1]
        if mm is not None:
            r = I.call(bind_attr(I, mm, None, cls), [v], {})
            if r is not None:
                return r
        I.throw("ValueError", f"not a valid {cls.name}")
    if cls.is_abc:
        for k in cls.mro:
            for n, v in k.attrs.items():
                if is_abstract(v):
                    _, impl = cls.lookup(n)
                    if is_abstract(impl):
                        I.throw("TypeError", f"Can't instantiate abstract class {cls.name} with abstract method {n}")
    c, new = cls.lookup("__new__")
    if c is not None:
        fn = new.fn if isinstance(new, AWrap) else new
        o = I.call(fn, [cls] + list(args), kwargs, guards)
        if not (isinstance(o, AObj) and o.cls.issub(cls)):
            return o
    else:
        has_init = cls.lookup("__init__")[0] is not None
        payload_args = args
        o = new_object(I, cls, [] if has_init and any(k.builtin and k.name in ("dict", "list") for k in cls.mro) else payload_args, kwargs)
    ci, init = cls.lookup("__init__")
    if ci is not None:
        r = I.call(bind_attr(I, init, o, cls), list(args), kwargs, guards)
        if isinstance(r, ACoro):
            I.throw("TypeError", "__init__() should return None")
        return o
    if cls.dataclass is not None:
        dataclass_init(I, cls, o, args, kwargs)
        return o
    for k in cls.mro:
        if k.builtin and k.name == "dict":
            gk = {n: (Guarded(v, guards[n]) if guards and n in guards else v) for n, v in kwargs.items()}
            if args:
                dict_merge(I, o.payload, args[0])
            for n, v in gk.items():
                if isinstance(v, Guarded):
                    dict_set(I, o.payload, n, v.val, guard=v.guard)
                else:
                    dict_set(I, o.payload, n, v)
            return o
        if k.builtin and k.name == "list":
            if args:
                o.payload.items = list(iterate(I, args[0]))
            return o
        if k.builtin and k.name in ("str", "int", "float", "bytes", "tuple", "set", "frozenset"):
            return o
        if k is exc_class(I, "BaseException"):
            if kwargs and not any(x.extname for x in cls.mro):
                I.throw("TypeError", f"{cls.name}() takes no keyword arguments")
            return o
        if k.extname and k.extname not in KNOWN_EMPTY_BASES:
            I.ctx.note_wild(f"constructor of {k.extname}")
            return o
    if (args or kwargs) and c is None:
        I.throw("TypeError", f"{cls.name}() takes no arguments")
    return o


def dataclass_init(I, cls, o, args, kwargs):
    vals = list(args)
    kwargs = dict(kwargs)
    def opt(f, name):
        d = cls.lookup(f)[1]
        return d.attrs.get(name) if isinstance(d, ExtObj) and d.kind == "field" else None
    given = [f for f in cls.fields if opt(f, "init") is not False]
    pos = [] if cls.dataclass.get("kw_only") is True else [f for f in given if opt(f, "kw_only") is not True]
    if len(vals) > len(pos):
        I.throw("TypeError", f"{cls.name}() takes {len(pos)} arguments")
    old = o.label
    for f in cls.fields:
        if f in pos[:len(vals)]:
            if f in kwargs:
                I.throw("TypeError", f"{cls.name}() got multiple values for argument {f!r}")
            v = vals[pos.index(f)]
        elif f in kwargs and f in given:
            v = kwargs.pop(f)
        else:
            c, d = cls.lookup(f)
            if c is None:
                I.throw("TypeError", f"{cls.name}() missing argument {f!r}")
            if isinstance(d, ExtObj) and d.kind == "field":
                if "default_factory" in d.attrs:
                    d = I.call(d.attrs["default_factory"], [], {})
                elif "default" in d.attrs:
                    d = d.attrs["default"]
                elif f not in given:
                    continue
                else:
                    I.throw("TypeError", f"{cls.name}() missing argument {f!r}")
            v = d
        o.attrs[f] = v
    if kwargs:
        I.throw("TypeError", f"{cls.name}() got an unexpected keyword argument")
    if cls.dataclass.get("namedtuple"):
        o.payload = tuple(o.attrs[f] for f in cls.fields)
    p = cls.lookup("__post_init__")
    if p[0] is not None:
        o.label = "init"
        I.call(ABound(p[1], o), [], {})
        o.label = old


# ===================================================================== arithmetic
def mk_lin(I, items, c, ty):
    items = tuple(sorted(((t, k) for t, k in items.items() if k), key=lambda x: x[0].uid))
    if not items:
        return c
    if len(items) == 1 and items[0][1] == 1 and c == 0:
        return items[0][0]
    return Term("lin", (items, c), ty)


def raw_lin(I, v):
    v = N(I, v)
    if isinstance(v, (int, float)):
        return {}, v
    if v.op == "lin":
        return dict(v.args[0]), v.args[1]
    return {v: 1}, 0


def add(I, a, b, k=1):
    a, b = N(I, a), N(I, b)
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a + k * b
    x, c = raw_lin(I, a)
    y, d = raw_lin(I, b)
    x = dict(x)
    for t, m in y.items():
        x[t] = x.get(t, 0) + k * m
    fl = any(isinstance(v, float) or (isinstance(v, Term) and "float" in I.ctx.tags(v)) for v in (a, b))
    return mk_lin(I, x, c + k * d, T_FLOAT if fl else T_INT)


OPN = {"Add": "+", "Sub": "-", "Mult": "*", "Div": "/", "FloorDiv": "//", "Mod": "%", "Pow": "**",
       "BitAnd": "&", "BitOr": "|", "BitXor": "^", "LShift": "<<", "RShift": ">>", "MatMult": "@"}
DUNDER_OP = {"Add": "__add__", "Sub": "__sub__", "Mult": "__mul__", "BitOr": "__or__", "BitAnd": "__and__", "Mod": "__mod__", "Div": "__truediv__"}


def binop(I, op, a, b):
    c = I.ctx
    name = type(op).__name__ if not isinstance(op, str) else op
    a0, b0 = c.n(a), c.n(b)
    for x, y in ((a0, b0),):
        if isinstance(x, AObj) and name in DUNDER_OP:
            m = find_method(I, x, DUNDER_OP[name])
            if m is not None:
                return I.call(m, [y], {})
    if isinstance(b0, AObj) and name in DUNDER_OP:
        m = find_method(I, b0, DUNDER_OP[name].replace("__", "__r", 1))
        if m is not None:
            return I.call(m, [a0], {})
    if isinstance(a0, AObj) and a0.payload is not None and not isinstance(a0.payload, tuple):
        a0 = c.n(a0.payload)
    if isinstance(b0, AObj) and b0.payload is not None and not isinstance(b0.payload, tuple):
        b0 = c.n(b0.payload)
    a, b = a0, b0
    # types: X | Y
    if name == "BitOr":
        if isinstance(a, (AClass, ExtRef)) or isinstance(b, (AClass, ExtRef)):
            def flat(x):
                return x if isinstance(x, tuple) else (x,)
            return flat(a) + flat(b)
        if isinstance(a, tuple) and all(isinstance(x, (AClass, ExtRef)) or x is None for x in a):
            return a + (b,)
    if isinstance(a, NATIVE) and isinstance(b, NATIVE):
        if name == "Mod" and isinstance(a, (str, bytes)):
            pass
        try:
            return {
                "Add": lambda: a + b, "Sub": lambda: a - b, "Mult": lambda: a * b,
                "Div": lambda: a / b, "FloorDiv": lambda: a // b, "Mod": lambda: a % b,
                "Pow": lambda: a ** b, "BitAnd": lambda: a & b, "BitOr": lambda: a | b,
                "BitXor": lambda: a ^ b, "LShift": lambda: a << b, "RShift": lambda: a >> b,
            }[name]()
        except (TypeError, ZeroDivisionError, ValueError, OverflowError) as e:
            I.throw(type(e).__name__, str(e))
    if name == "Mod" and (isinstance(a, (str, bytes))):
        return percent(I, a, b)
    if isinstance(a, (AView,)):
        a = make_set(I, list(iterate(I, a)))
    if isinstance(b, (AView,)) and isinstance(a, ASet):
        b = make_set(I, list(iterate(I, b)))
    if isinstance(a, ASet) or isinstance(b, ASet):
        if isinstance(a, ASet) and isinstance(b, ASet):
            k = {"BitOr": "union", "BitAnd": "intersection", "Sub": "difference", "BitXor": "symmetric_difference"}.get(name)
            if k:
                return set_op(I, k, a, b)
        I.throw("TypeError", "unsupported operand type(s)")
    if isinstance(a, ADict) and isinstance(b, ADict) and name == "BitOr":
        d = dict_copy(I, a)
        dict_merge(I, d, b)
        return d
    if isinstance(a, AList) and isinstance(b, AList) and name == "Add":
        return AList(a.items + b.items)
    if isinstance(a, tuple) and isinstance(b, tuple) and name == "Add":
        return a + b
    if isinstance(a, (AList, tuple)) and name == "Mult":
        if isinstance(b, int):
            return AList(a.items * b) if isinstance(a, AList) else a * b
    if isinstance(a, AList) and isinstance(b, Term) and name == "Add" and "list" in c.tags(b):
        if not c.decide_type(b, T_LIST):
            I.throw("TypeError", "can only concatenate list")
        return AList(a.items + list(iterate(I, b)))
    if is_dt(a) or is_dt(b):
        return dt_op(I, name, a, b)
    ta, tb = c.tags(a), c.tags(b)
    # decide ambiguous operand types
    for x, t, o in ((a, ta, tb), (b, tb, ta)):
        if isinstance(x, Term) and len(t) > 1 and "obj" not in t and not t <= NUMERIC:
            if o <= NUMERIC and name in ("Add", "Sub", "Div", "FloorDiv"):
                if not c.decide_type(x, NUMERIC):
                    I.throw("TypeError", "unsupported operand type(s)")
            elif o in (T_STR, T_BYTES) and name == "Add":
                if not c.decide_type(x, o):
                    I.throw("TypeError", "can only concatenate str")
    a, b = N(I, a), N(I, b)
    ta, tb = c.tags(a), c.tags(b)
    if ta in (T_STR, T_BYTES) and name == "Add":
        if tb == ta:
            return mk_cat(I, "str" if ta == T_STR else "bytes", [a, b])
        if "obj" not in tb:
            I.throw("TypeError", "can only concatenate str")
    if name == "Mult" and (ta in (T_STR, T_BYTES) or tb in (T_STR, T_BYTES)):
        s, n = (a, b) if ta in (T_STR, T_BYTES) else (b, a)
        if isinstance(n, int):
            return mk_cat(I, "str" if c.tags(s) == T_STR else "bytes", [s] * max(0, min(n, 200)))
        return Term("rep", (s, n), c.tags(s))
    if name == "Mod" and ta == T_STR:
        return Term("%", (a, freeze(I, b)), T_STR)
    if ta <= NUMERIC and tb <= NUMERIC:
        if name in ("Add", "Sub"):
            return add(I, a, b, 1 if name == "Add" else -1)
        if name == "Mult" and (isinstance(a, (int, float)) or isinstance(b, (int, float))):
            k, t = (a, b) if isinstance(a, (int, float)) else (b, a)
            items, cc = raw_lin(I, t)
            return mk_lin(I, {x: m * k for x, m in items.items()}, cc * k,
                          T_FLOAT if isinstance(k, float) or "float" in c.tags(t) else T_INT)
        if name == "Mod":
            if isinstance(a, Term) and a.op == "lin" and isinstance(b, int) and b:
                # reduce the constant: (x + c) % b
                items, cc = raw_lin(I, a)
                a = mk_lin(I, items, cc % b, T_INT)
            return Term("mod", (a, b), T_INT)
        if name == "RShift" and type(b) is int and b >= 0:
            return binop(I, "FloorDiv", a, 1 << b)
        if name == "LShift" and type(b) is int and b >= 0:
            return binop(I, "Mult", a, 1 << b)
        if name == "BitAnd" and type(b) is int and b > 0 and b & (b + 1) == 0:
            return binop(I, "Mod", a, b + 1)
        if name in ("RShift", "LShift", "BitAnd", "BitOr", "BitXor", "Pow"):
            c.note_wild("operation on the bits of unknown numbers")
        ty = T_FLOAT if name == "Div" or T_FLOAT in (ta, tb) else T_INT
        if name in ("Div", "FloorDiv") and isinstance(a, Term) and type(b) is int and b == 1:
            if name == "Div" or ta == T_INT or a.op == "nowf":
                return a
        if name in ("Div", "FloorDiv") and isinstance(a, Term) and a.op == "lin" and isinstance(b, (int, float)) and b == b // 1 and b > 1:
            items, cc = raw_lin(I, a)
            ks = list(items.values()) + [cc]
            if all(isinstance(k, int) and k % int(b) == 0 for k in ks):
                return mk_lin(I, {x: m // int(b) for x, m in items.items()}, cc // int(b), ty)
        return Term(OPN[name], (a, b), ty)
    if "obj" in ta or "obj" in tb:
        c.note_wild(f"operator {name} on unknown values")
        return Term(OPN[name], (_atom(I, a), _atom(I, b)))
    I.throw("TypeError", f"unsupported operand type(s) for {OPN[name]}")


def dt_op(I, name, a, b):
    if is_dt(a) and is_dt(b):
        if a.op == "dt" and b.op == "dt" and name == "Sub":
            if a.args[0] != b.args[0]:
                I.throw("TypeError", "can't subtract offset-naive and offset-aware datetimes")
            d = add(I, a.args[1], b.args[1], -1)
            return Term("td", (d if a.args[0] != "date" else binop(I, "Mult", d, 86400),), T_OBJ)
        if a.op == "dt" and b.op == "td" and a.args[0] == "date":
            return Term("dt", ("date", add(I, a.args[1], binop(I, "FloorDiv", b.args[0], 86400), 1 if name == "Add" else -1)), T_OBJ)
        if a.op == "dt" and b.op == "td":
            return Term("dt", (a.args[0], add(I, a.args[1], b.args[0], 1 if name == "Add" else -1)), T_OBJ)
        if a.op == "td" and b.op == "dt" and name == "Add":
            return dt_op(I, name, b, a)
        if a.op == "td" and b.op == "td" and name in ("Div", "FloorDiv"):
            return binop(I, name, a.args[0], b.args[0])
        if a.op == "td" and b.op == "td" and name in ("Add", "Sub"):
            return Term("td", (add(I, a.args[0], b.args[0], 1 if name == "Add" else -1),), T_OBJ)
    I.ctx.note_wild("datetime arithmetic")
    return Term(OPN[name], (_atom(I, a), _atom(I, b)))


def percent(I, fmt, b):
    args = list(b) if isinstance(b, tuple) else [b]
    if isinstance(fmt, bytes):
        pieces = fmt.replace(b"%b", b"%s").split(b"%s")
        vals = [N(I, x) for x in args]
        if any(b"%" in p for p in pieces) or any(I.ctx.tags(v) != T_BYTES for v in vals):
            I.ctx.note_wild("bytes %")
            return Term("%", (fmt, freeze(I, b)), T_BYTES)
        if len(pieces) != len(vals) + 1:
            I.throw("TypeError", "wrong number of arguments for format string")
        out = [pieces[0]]
        for v, p in zip(vals, pieces[1:]):
            out += [v, p]
        return mk_cat(I, "bytes", [x for x in out if not (isinstance(x, bytes) and not x)])
    out = []
    i = 0
    buf = ""
    while i < len(fmt):
        ch = fmt[i]
        if ch == "%":
            if fmt[i + 1: i + 2] == "%":
                buf += "%"
                i += 2
                continue
            j, key = i + 1, None
            if fmt[j: j + 1] == "(" and ")" in fmt[j:]:
                key = fmt[j + 1: fmt.index(")", j)]
                j = fmt.index(")", j) + 1
            first = j
            while j < len(fmt) and not fmt[j].isalpha():
                j += 1
            spec = fmt[first: j]
            conv = fmt[j: j + 1]
            if key is not None:
                v = getitem(I, b, key)
            else:
                if not args:
                    I.throw("TypeError", "not enough arguments for format string")
                v = args.pop(0)
            if buf:
                out.append(buf)
                buf = ""
            v = N(I, v)
            if conv == "s" and not spec:
                out.append(str_(I, v))
            elif conv == "x" and spec == "02" and isinstance(v, Term) and v.op == "byte":
                out.append(Term("hexbyte", (v.args[0],), T_STR))
            elif isinstance(v, NATIVE):
                try:
                    out.append(("%" + spec + conv) % v)
                except (TypeError, ValueError) as e:
                    I.throw(type(e).__name__, str(e))
            else:
                out.append(Term("format", (freeze(I, v), spec + conv), T_STR) if conv != "d" else str_(I, v))
            i = j + 1
        else:
            buf += ch
            i += 1
    if buf:
        out.append(buf)
    return mk_cat(I, "str", out)


def unary(I, op, v):
    v = N(I, v)
    if isinstance(v, (int, float)):
        if isinstance(op, ast.USub):
            return -v
        if isinstance(op, ast.UAdd):
            return +v
        return ~v
    if isinstance(v, Term) and I.ctx.tags(v) <= NUMERIC:
        if isinstance(op, ast.USub):
            items, c = raw_lin(I, v)
            return mk_lin(I, {t: -k for t, k in items.items()}, -c, I.ctx.tags(v))
        return Term(type(op).__name__, (v,), T_INT)
    if isinstance(v, Term):
        if v.op == "td":
            return Term("td", (unary(I, op, v.args[0]),), T_OBJ)
        if "obj" in I.ctx.tags(v):
            return Term(type(op).__name__, (v,))
    I.throw("TypeError", "bad operand type for unary operator")


# ===================================================================== context managers
def cm_enter(I, cm, is_async):
    cm = I.ctx.n(cm)
    if isinstance(cm, AObj):
        m = find_method(I, cm, "__aenter__" if is_async else "__enter__")
        if m is None:
            I.throw("TypeError", "object does not support the context manager protocol")
        r = I.call(m, [], {})
        return I.await_(r) if is_async else r
    if isinstance(cm, ExtObj):
        if cm.kind == "ctxmgr":
            try:
                return next(cm.attrs["gen"].it)
            except StopIteration:
                I.throw("RuntimeError", "generator didn't yield")
        from . import ext

        return ext.cm_enter(I, cm)
    if isinstance(cm, Term):
        I.ctx.note_wild("with on unknown")
        return Term("enter", (cm,))
    I.throw("TypeError", "object does not support the context manager protocol")


def cm_exit(I, cm, exc, is_async):
    cm = I.ctx.n(cm)
    if isinstance(cm, AObj):
        m = find_method(I, cm, "__aexit__" if is_async else "__exit__")
        args = [exc.obj.cls, exc.obj, None] if exc else [None, None, None]
        r = I.call(m, args, {})
        if is_async:
            r = I.await_(r)
        return exc is not None and truth(I, r)
    if isinstance(cm, ExtObj):
        if cm.kind == "suppress":
            return exc is not None and any(I.match_exc(exc.obj, t) for t in cm.attrs["types"])
        if cm.kind == "ctxmgr":
            g = cm.attrs["gen"].it
            if exc is None:
                try:
                    next(g)
                except StopIteration:
                    pass
                return False
            try:
                g.throw(exc)
            except StopIteration:
                return True
            except PyExc as e:
                if e.obj is exc.obj:
                    return False
                raise
            return False
    return False


def ext_const(I, ref):
    if not isinstance(ref, ExtRef):
        return ref
    from . import ext

    return ext.const(I, ref)


def call_ext(I, path, args, kwargs):
    from . import ext

    return ext.call(I, path, args, kwargs)


def call_extobj(I, o, args, kwargs):
    from . import ext

    return ext.call_obj(I, o, args, kwargs)


def callable_(I, v):
    v = I.ctx.n(v)
    if isinstance(v, (AFunc, ABound, ABuiltin, AClass)):
        return True
    if isinstance(v, AObj):
        return v.cls.lookup("__call__")[0] is not None
    if isinstance(v, ExtRef):
        return True
    if isinstance(v, ExtObj):
        return v.kind in ("partial", "lru")
    if isinstance(v, Term):
        return "obj" in I.ctx.tags(v) and I.ctx.choose("callable", (v,), [True, False])
    return False


from .methods import CTORS, FUNCS, STATIC, TYPE_METHODS, value_method  # noqa: E402,F401
