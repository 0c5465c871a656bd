"""Built-in functions, constructors and methods of the built-in types."""

from __future__ import annotations

import ast

from . import models as M
from .ctx import NUMERIC, tag_of_const
from .values import *
from .values import (T_ANY, T_BOOL, T_BYTES, T_DICT, T_FLOAT, T_INT, T_JSON, T_LIST,
                     T_NUM, T_OBJ, T_STR)

MISSING = None  # set by models at import time


def _n(I, v):
    return M.N(I, v)


def lift(v):
    """A Python result as an abstract value."""
    if isinstance(v, list):
        return AList([lift(x) for x in v])
    if isinstance(v, tuple):
        return tuple(lift(x) for x in v)
    if isinstance(v, dict):
        d = ADict()
        for k, x in v.items():
            d.entries[ckey(k)] = Entry(k, lift(x))
        return d
    if isinstance(v, (set, frozenset)):
        return ASet([lift(x) for x in sorted(v, key=repr)], isinstance(v, frozenset))
    return v


def native_call(I, f, *args, **kw):
    try:
        return lift(f(*args, **kw))
    except Exception as e:  # the exception the interpreter itself would raise
        n = type(e).__name__
        if M.exc_class(I, n) is None:
            n = "ValueError"
        I.throw(n, str(e))


def all_native(args, kw):
    return all(isinstance(a, NATIVE) for a in args) and all(isinstance(a, NATIVE) for a in kw.values())


# ===================================================================== text
def is_ascii(I, v, decide=True, depth=0):
    """Is the text ASCII only?  None when unknown and not asked to decide."""
    v = _n(I, v)
    if isinstance(v, (str, bytes)):
        return v.isascii()
    if not isinstance(v, Term):
        return True
    if v.meta.get("ascii") or v.op in ("b64", "hex", "hexbyte", "quote", "qs"):
        return True
    if v.op == "rand" and v.meta.get("alphabet") is not None:
        return v.meta["alphabet"].isascii()
    if v.op in ("enc", "dec"):
        return is_ascii(I, v.args[0], decide, depth)
    if v.op == "cat":
        out = True
        for p in v.args:
            r = is_ascii(I, p, decide, depth)
            if r is False:
                return False
            if r is None:
                out = None
        return out
    if v.op == "json" and not v.meta.get("raw"):
        return True
    if v.op == "str" and isinstance(v.args[0], Term) and v.args[0].ty <= NUMERIC:
        return True
    if v.op in ("slice", "part", "nopad", "strip", "lower", "upper"):
        # (a text may be known to consist of its own parts)
        if depth < 6 and is_ascii(I, v.args[0], False, depth + 1) is True:
            return True
    k = ("ascii", v)
    if k in I.ctx.facts:
        return I.ctx.facts[k]
    if I.ctx.facts.get(("utf8", v)) is False:
        return False
    if not decide:
        return None
    return I.ctx.choose("ascii", (v,), [True, False])


def encode(I, s, enc="utf-8", errors="strict"):
    s = _n(I, s)
    enc = _n(I, enc)
    if isinstance(enc, Term):
        enc = codec(I, enc)
        if isinstance(enc, Term):
            if errors == "strict":
                I.may_raise("codec", (s, enc), "UnicodeEncodeError", "can't encode")
            return Term("encx", (s, enc, errors), T_BYTES)
    if isinstance(s, str):
        return native_call(I, s.encode, enc, errors if isinstance(errors, str) else "strict")
    known_codec(I, enc)
    enc = str(enc).lower().replace("_", "-")
    out = []
    for p in M.parts(I, s):
        if isinstance(p, str):
            out.append(native_call(I, p.encode, enc, errors))
            continue
        if enc in ("ascii", "us-ascii", "latin-1", "latin1", "iso-8859-1"):
            if is_ascii(I, p) is not True:
                if enc in ("ascii", "us-ascii"):
                    if errors == "strict":
                        I.throw("UnicodeEncodeError", "'ascii' codec can't encode")
                    out.append(Term("encx", (p, enc, errors), T_BYTES))
                    continue
                if I.ctx.choose("latin1", (p,), [True, False]):
                    out.append(Term("encl", (p,), T_BYTES))
                    continue
                I.throw("UnicodeEncodeError", "'latin-1' codec can't encode")
        elif enc not in ("utf-8", "utf8"):
            if errors == "strict" and not enc.startswith(("utf-16", "utf-32")):
                I.may_raise("codec", (p, enc), "UnicodeError")
            out.append(Term("encx", (p, enc, errors), T_BYTES))
            continue
        elif I.ctx.scenario.surrogates and errors == "strict" and p.op not in ("dec", "b64", "hex", "str") and is_ascii(I, p, False) is not True:
            if I.ctx.choose("surrogates", (p,), [False, True]):
                I.throw("UnicodeEncodeError", "'utf-8' codec can't encode: surrogates not allowed")
        out.append(p.args[0] if p.op == "dec" else Term("enc", (p,), T_BYTES))
    return M.mk_cat(I, "bytes", out)


def known_codec(I, enc):
    if isinstance(enc, str):
        import codecs
        try:
            codecs.lookup(enc)
        except (LookupError, ValueError) as e:
            I.throw(type(e).__name__, str(e))


def codec(I, enc):
    """The name of a codec that is not known: there may be none of that name."""
    if not I.ctx.choose("codec", (enc,), [True, False]):
        I.throw("LookupError", "unknown encoding")
    if I.ctx.choose("eq", (enc, "utf-8"), [True, False]):
        return "utf-8"
    return enc


def decode(I, s, enc="utf-8", errors="strict"):
    s = _n(I, s)
    enc = _n(I, enc)
    if isinstance(enc, Term):
        enc = codec(I, enc)
        if isinstance(enc, Term):
            if errors == "strict":
                I.may_raise("codec", (s, enc), "UnicodeDecodeError", "can't decode")
            return Term("decx", (s, enc, errors), T_STR)
    if isinstance(s, bytes):
        return native_call(I, s.decode, enc, errors)
    known_codec(I, enc)
    enc = str(enc).lower().replace("_", "-")
    out = []
    for p in M.parts(I, s):
        if isinstance(p, bytes):
            out.append(native_call(I, p.decode, enc, errors))
            continue
        if enc in ("ascii", "us-ascii"):
            if is_ascii(I, p) is not True:
                if errors == "strict":
                    I.throw("UnicodeDecodeError", "'ascii' codec can't decode")
                out.append(Term("decx", (p, enc, errors), T_STR))
                continue
        elif enc in ("utf-8", "utf8"):
            if p.op != "enc" and is_ascii(I, p, False) is not True:
                if not I.ctx.choose("utf8", (p,), [True, False]):
                    if errors == "strict":
                        I.throw("UnicodeDecodeError", "'utf-8' codec can't decode")
                    out.append(Term("decx", (p, enc, errors), T_STR))
                    continue
        else:
            if errors == "strict" and enc not in ("latin-1", "latin1", "iso-8859-1"):
                I.may_raise("codec", (p, enc), "UnicodeDecodeError", "can't decode")
            out.append(Term("decx", (p, enc, errors), T_STR))
            continue
        out.append(p.args[0] if p.op == "enc" else Term("dec", (p,), T_STR))
    return M.mk_cat(I, "str", out)


def split(I, s, sep, maxsplit=-1, right=False):
    """Pieces of text around a constant separator."""
    c = I.ctx
    s, sep = _n(I, s), _n(I, sep)
    kind = "bytes" if c.tags(s) == T_BYTES else "str"
    if isinstance(s, (str, bytes)) and (sep is None or isinstance(sep, (str, bytes))):
        return native_call(I, s.rsplit if right else s.split, sep, maxsplit)
    if sep is None:
        t = s
        ps = M.parts(I, s)
        if not right and ps and all(isinstance(p, (str, bytes)) or " " in p.meta.get("nosep", ()) and (
                p.meta.get("nonempty") or p.op == "word") for p in ps):
            return AList(words(I, kind, ps, maxsplit))
        n = c.choose("nwords", (t,), [1, 0, 2])
        ws = []
        for i in range(n):
            w = Term("word", (t, i), c.tags(t))
            w.meta["nonempty"] = True
            w.meta["nosep"] = (" ", b" ")
            if t.meta.get("ascii"):
                w.meta["ascii"] = True
            ws.append(w)
        return AList(ws)
    if not isinstance(sep, (str, bytes)):
        if isinstance(sep, Term) and isinstance(s, (Term, str, bytes)):
            c.note_wild("split by an unknown separator")
            return Term("split", (s, sep), T_LIST)
        I.throw("TypeError", "must be str or None")
    if isinstance(sep, bytes) != (kind == "bytes"):
        I.throw("TypeError", "a separator of the other text type")
    if not sep:
        I.throw("ValueError", "empty separator")
    # expand opaque atoms until every separator is explicit
    toks = []  # pieces: list of lists of parts
    atoms = M.parts(I, s)
    flat = []
    if maxsplit is not None and isinstance(maxsplit, int) and maxsplit >= 0:
        # what lies behind the last split stays as it is
        todo, found = list(atoms), 0
        while todo and found < maxsplit:
            a = todo.pop(-1 if right else 0)
            bits = explode(I, a, sep)
            found += sum(b.count(sep) for b in bits if isinstance(b, (str, bytes)))
            flat = bits + flat if right else flat + bits
        whole = todo
    else:
        whole = []
        for a in atoms:
            flat.extend(explode(I, a, sep))
    pieces = [[]]
    for a in flat:
        if isinstance(a, (str, bytes)):
            bits = a.split(sep)
            for i, b in enumerate(bits):
                if i:
                    pieces.append([])
                if b:
                    pieces[-1].append(b)
        else:
            pieces[-1].append(a)
    if whole:
        if right:
            pieces[0] = whole + pieces[0]
        else:
            pieces[-1] = pieces[-1] + whole
    n = len(pieces) - 1
    if maxsplit is not None and isinstance(maxsplit, int) and 0 <= maxsplit < n:
        def glue(ps):
            out = []
            for i, p in enumerate(ps):
                if i:
                    out.append(sep)
                out.extend(p)
            return out
        if right:
            k = len(pieces) - maxsplit
            pieces = [glue(pieces[:k])] + pieces[k:]
        else:
            pieces = pieces[:maxsplit] + [glue(pieces[maxsplit:])]
    return AList([M.mk_cat(I, kind, p) for p in pieces])


def words(I, kind, ps, maxsplit):
    """str.split() of a concatenation of constants and of texts without white space."""
    pieces, open_ = [], False
    for i, p in enumerate(ps):
        if not isinstance(p, (str, bytes)):
            if not open_:
                pieces.append([])
                open_ = True
            pieces[-1].append(p)
            continue
        rest = p
        while rest:
            k = 0
            while k < len(rest) and rest[k:k + 1].isspace():
                k += 1
            if k:
                rest, open_ = rest[k:], False
                continue
            if not open_:
                if isinstance(maxsplit, int) and 0 <= maxsplit == len(pieces):
                    tail = [rest] + list(ps[i + 1:])
                    if isinstance(tail[-1], (str, bytes)):
                        tail[-1] = tail[-1].rstrip()
                    return [M.mk_cat(I, kind, x) for x in pieces] + [M.mk_cat(I, kind, tail)]
                pieces.append([])
                open_ = True
            while k < len(rest) and not rest[k:k + 1].isspace():
                k += 1
            pieces[-1].append(rest[:k])
            rest = rest[k:]
    if isinstance(maxsplit, int) and 0 <= maxsplit < len(pieces) - 1:
        # the last piece keeps its white space: only told apart from constants above
        head, tail = pieces[:maxsplit], pieces[maxsplit:]
        glued = []
        for i, x in enumerate(tail):
            if i:
                glued.append(" " if kind == "str" else b" ")
            glued.extend(x)
        pieces = head + [glued]
    return [M.mk_cat(I, kind, x) for x in pieces]


def has_sep(I, a, sep):
    """Known containment of a separator, without deciding."""
    if isinstance(a, (str, bytes)):
        return sep in a
    k = I.ctx.facts.get(("contains", a, ckey(sep)))
    return k


def explode(I, a, sep, limit=3):
    """An atom as parts in which `sep` occurs only inside constants."""
    c = I.ctx
    if isinstance(a, (str, bytes)):
        return [a]
    e = c.expand.get(a)
    if e is not None:
        return [x for p in M.parts(I, a) for x in explode(I, p, sep)]
    if not M.contains_atom(I, a, sep):
        return [a]
    if a.op in ("enc", "dec"):
        inner = a.args[0]
        y = sep.encode() if isinstance(sep, str) else sep.decode("latin-1")
        out = []
        for p in explode(I, inner, y):
            if isinstance(p, (str, bytes)):
                out.append(p.encode() if isinstance(p, str) else p.decode("latin-1"))
            else:
                out.append(Term(a.op, (p,), a.ty))
        return out
    n = c.choose("nsep", (a, sep), [2, 1, 3][:limit])
    out = []
    for i in range(n + 1):
        if i:
            out.append(sep)
        p = Term("part", (a, sep, i, n), a.ty)
        ns = tuple(a.meta.get("nosep", ())) + (sep,)
        p.meta["nosep"] = ns
        if a.meta.get("ascii"):
            p.meta["ascii"] = True
        if c.facts.get(("ascii", a)) is not None:
            if c.facts[("ascii", a)]:
                c.facts[("ascii", p)] = True
        out.append(p)
    whole = M.mk_cat(I, "bytes" if c.tags(a) == T_BYTES else "str", out)
    c.expand[a] = whole
    if isinstance(whole, Term):
        c.union(a, whole)  # what is known to equal the text equals its pieces
    return out


def partition(I, s, sep, right=False):
    r = split(I, s, sep, 1, right)
    if isinstance(r, Term):
        return (Term("item", (r, 0), T_STR), sep, Term("item", (r, 1), T_STR))
    empty = b"" if isinstance(_n(I, sep), bytes) else ""
    if len(r.items) == 1:
        return (empty, empty, r.items[0]) if right else (r.items[0], empty, empty)
    return (r.items[0], sep, r.items[1])


def join(I, sep, it):
    c = I.ctx
    it = c.n(it)
    kind = "bytes" if c.tags(_n(I, sep)) == T_BYTES else "str"
    if isinstance(it, AGen) or True:
        if isinstance(it, Term) and it.op == "map":
            elt, src = it.args
            if isinstance(elt, Term) and elt.op == "hexbyte" and elt.args[0] is src and sep == "":
                return Term("hex", (src,), T_STR)
            return Term("join", (sep, it), T_STR if kind == "str" else T_BYTES)
    out = []
    for i, x in enumerate(list(M.iterate(I, it))):
        x = _n(I, x)
        want = T_STR if kind == "str" else T_BYTES
        if not isinstance(x, (str, bytes, Term)) or isinstance(x, (str, bytes)) and isinstance(x, str) != (kind == "str"):
            I.throw("TypeError", "sequence item: wrong type found")
        if isinstance(x, Term) and c.tags(x) != want:
            if "obj" in c.tags(x):
                c.note_wild("join of unknown")
            elif not c.decide_type(x, want):
                I.throw("TypeError", "sequence item: wrong type found")
        if i:
            out.append(sep)
        out.append(x)
    return M.mk_cat(I, kind, out)


def strip(I, s, chars, side):
    c = I.ctx
    s = _n(I, s)
    chars = _n(I, chars) if chars is not None else None
    kind = "bytes" if c.tags(s) == T_BYTES else "str"
    if isinstance(s, (str, bytes)) and (chars is None or isinstance(chars, (str, bytes))):
        f = {"both": s.strip, "left": s.lstrip, "right": s.rstrip}[side]
        return native_call(I, f, chars)
    if chars is not None and not isinstance(chars, (str, bytes)):
        return Term("strip", (s, chars, side), c.tags(s))
    if chars is not None and isinstance(chars, bytes) != (kind == "bytes"):
        I.throw("TypeError", "a separator of the other text type")
    ps = M.parts(I, s)

    def trim(ps, right):
        ps = list(ps)
        while ps:
            i = -1 if right else 0
            p = ps[i]
            if isinstance(p, (str, bytes)):
                q = (p.rstrip(chars) if right else p.lstrip(chars))
                if q == p:
                    break
                if q:
                    ps[i] = q
                    break
                ps.pop(i)
                continue
            b64 = strip_b64(p, chars, right)
            if b64 is not None:
                ps[i] = b64
                break
            if clean(I, p, chars, right):
                break
            # undetermined
            ps[i] = Term("strip", (p, chars, "right" if right else "left"), c.tags(p))
            if is_ascii(I, p, False):
                ps[i].meta["ascii"] = True
            if p.meta.get("nosep"):
                ps[i].meta["nosep"] = p.meta["nosep"]
            break
        return ps

    if side in ("both", "right"):
        ps = trim(ps, True)
    if side in ("both", "left"):
        ps = trim(ps, False)
    return M.mk_cat(I, kind, ps)


def strip_b64(p, chars, right):
    """base64 text without its padding."""
    if isinstance(p, Term) and p.op == "b64" and chars in ("=", b"="):
        if not right:
            return p
        return Term("b64", (p.args[0], False, p.args[2]), p.ty)
    if isinstance(p, Term) and p.op in ("dec", "enc") and isinstance(p.args[0], Term) and p.args[0].op == "b64":
        r = strip_b64(p.args[0], chars, right)
        if r is not None:
            return Term(p.op, (r,), p.ty)
    return None


def clean(I, p, chars, right):
    """Is the atom known not to start/end with one of the characters?"""
    if not isinstance(p, Term):
        return False
    q = p
    while q.op in ("enc", "dec") and isinstance(q.args[0], Term):
        q = q.args[0]
    alpha = None
    if q.op == "b64" or q.op == "hex" or (q.op == "rand" and q.meta.get("alphabet")):
        cs = " \t\r\n\f\v" if chars is None else (chars if isinstance(chars, str) else chars.decode("latin-1"))
        if q.op == "rand":
            alpha = set(q.meta["alphabet"])
        elif q.op == "hex":
            alpha = set("0123456789abcdef")
        else:
            alpha = set("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_+/")
            if q.args[1]:
                alpha.add("=")
        return not (alpha & set(cs))
    if chars is None:
        return " " in p.meta.get("nosep", ()) or b" " in p.meta.get("nosep", ())
    one = [chars[i:i + 1] for i in range(len(chars))]
    return all(x in p.meta.get("nosep", ()) for x in one)


def affix(I, s, x, end):
    c = I.ctx
    s = _n(I, s)
    x = c.n(x)
    if isinstance(x, tuple):
        return any(affix(I, s, y, end) for y in x)
    x = _n(I, x)
    if isinstance(s, (str, bytes)) and isinstance(x, (str, bytes)):
        if type(s) is not type(x):
            I.throw("TypeError", "startswith/endswith: wrong type")
        return s.endswith(x) if end else s.startswith(x)
    if isinstance(x, Term) and c.tags(x) != c.tags(s):
        if not c.decide_type(x, c.tags(s)):
            I.throw("TypeError", "startswith/endswith: wrong type")
    if isinstance(x, (str, bytes)) and not x:
        return True
    ps, xs = M.parts(I, s), M.parts(I, x)
    if end:
        ps, xs = ps[::-1], xs[::-1]
    while ps and xs:
        p, q = ps[0], xs[0]
        if isinstance(p, (str, bytes)) and isinstance(q, (str, bytes)):
            if type(p) is not type(q):
                I.throw("TypeError", "startswith/endswith: wrong type")
            n = min(len(p), len(q))
            a, b = (p[len(p) - n:], q[len(q) - n:]) if end else (p[:n], q[:n])
            if a != b:
                return False
            p2, q2 = (p[:len(p) - n], q[:len(q) - n]) if end else (p[n:], q[n:])
            ps = ([p2] if p2 else []) + ps[1:]
            xs = ([q2] if q2 else []) + xs[1:]
            continue
        if c.known_eq(p, q):
            ps, xs = ps[1:], xs[1:]
            continue
        break
    if not xs:
        return True
    if not ps:
        return all(not M.truth(I, q) for q in xs)
    if isinstance(xs[0], (str, bytes)) and isinstance(ps[0], Term):
        ch = xs[0][-1:] if end else xs[0][:1]
        if ps[0].meta.get("nonempty") and ch in ps[0].meta.get("nosep", ()):
            return False
        n = M.known_len(I, s)
        if n is not None and n < len(xs[0]):
            return False
    rest = M.mk_cat(I, "bytes" if c.tags(s) == T_BYTES else "str", ps[::-1] if end else ps)
    rx = M.mk_cat(I, "bytes" if c.tags(s) == T_BYTES else "str", xs[::-1] if end else xs)
    r = c.choose("endswith" if end else "startswith", (rest, rx), [True, False])
    if r and isinstance(rest, Term) and rest.op not in ("cat",) and isinstance(rx, (str, bytes)) and rest not in c.expand:
        tail = Term("affix", (rest, rx, end), rest.ty)
        for m in ("ascii",):
            if rest.meta.get(m):
                tail.meta[m] = rest.meta[m]
        c.expand[rest] = M.mk_cat(I, "bytes" if c.tags(s) == T_BYTES else "str", [tail, rx] if end else [rx, tail])
    return r


def replace(I, s, a, b):
    s, a, b = _n(I, s), _n(I, a), _n(I, b)
    if all(isinstance(x, (str, bytes)) for x in (s, a, b)):
        return native_call(I, s.replace, a, b)
    kind = "bytes" if I.ctx.tags(s) == T_BYTES else "str"
    if isinstance(a, (str, bytes)) and a:
        ps = M.parts(I, s)
        if len(a) == 1 or len(ps) == 1:
            out = []
            for p in ps:
                if isinstance(p, (str, bytes)):
                    bits = p.split(a)
                    for i, q in enumerate(bits):
                        if i:
                            out.append(b)
                        if q:
                            out.append(q)
                elif a in p.meta.get("nosep", ()) or has_sep(I, p, a) is False:
                    out.append(p)
                elif p.op in ("b64",) and a in ("=", b"=") and b in ("", b""):
                    out.append(strip_b64(p, a, True))
                elif p.op in ("dec", "enc") and isinstance(p.args[0], Term) and p.args[0].op == "b64" and a in ("=", b"=") and b in ("", b""):
                    out.append(strip_b64(p, a, True))
                else:
                    out.append(Term("replace", (p, a, b), I.ctx.tags(p)))
            return M.mk_cat(I, kind, out)
    return Term("replace", (s, a, b), I.ctx.tags(s))


def case(I, s, op):
    s = _n(I, s)
    if isinstance(s, (str, bytes)):
        return getattr(s, op)()
    if op in ("title", "capitalize", "swapcase"):
        return Term(op, (s,), I.ctx.tags(s))
    ps = M.parts(I, s)
    if len(ps) > 1:
        return M.mk_cat(I, "bytes" if I.ctx.tags(s) == T_BYTES else "str", [case(I, p, op) for p in ps])
    if s.op == op or (op in ("lower", "casefold") and s.op == "hex"):
        return s
    if op == "casefold":
        op = "lower"
    return Term(op, (s,), I.ctx.tags(s))


def predicate(name):
    def go(I, s, a, k):
        s = _n(I, s)
        if isinstance(s, (str, bytes)):
            return getattr(s, name)()
        if name == "isascii":
            return is_ascii(I, s)
        if name in ("isdigit", "isnumeric", "isdecimal", "isalnum", "isalpha", "isspace", "isprintable"):
            if name != "isprintable" and not M.truth(I, s):
                return False
        return I.ctx.choose(name, (s,), [True, False])
    return go


def str_format(I, s, a, k):
    s = _n(I, s)
    if not isinstance(s, str):
        return Term("format", (s,) + tuple(M.freeze(I, x) for x in a), T_STR)
    import string

    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(s):
        if lit:
            out.append(lit)
        if field is None:
            continue
        if field == "" or field.isdigit():
            i = auto if field == "" else int(field)
            auto += 1
            if i >= len(a):
                I.throw("IndexError", "Replacement index out of range")
            v = a[i]
        else:
            name = field.split(".")[0].split("[")[0]
            if name.isdigit():
                v = a[int(name)]
            elif name in k:
                v = k[name]
            else:
                I.throw("KeyError", name)
            rest = field[len(name):]
            while rest:
                import re as _re

                m = _re.match(r"\.(\w+)|\[([^\]]*)\]", rest)
                if m is None:
                    break
                v = I.getattr(v, m.group(1)) if m.group(1) else I.getitem(v, int(m.group(2)) if m.group(2).isdigit() else m.group(2))
                rest = rest[m.end():]
            if rest:
                I.ctx.note_wild("format field access")
                v = Term("attr", (M._atom(I, v), rest))
        out.append(M.format_(I, v, spec) if spec else (M.repr_(I, v) if conv == "r" else M.str_(I, v)))
    return M.mk_cat(I, "str", out)


def count(I, s, x):
    s, x = _n(I, s), _n(I, x)
    if isinstance(s, (str, bytes)) and isinstance(x, (str, bytes)):
        return s.count(x)
    if isinstance(x, (str, bytes)) and x:
        flat = [q for p in M.parts(I, s) for q in explode(I, p, x)]
        return sum(p.count(x) for p in flat if isinstance(p, (str, bytes)))
    return Term("count", (s, x), T_INT)


def find(I, s, x, a, right=False, must=False):
    s, x = _n(I, s), _n(I, x)
    if isinstance(s, (str, bytes)) and isinstance(x, (str, bytes)) and all(isinstance(y, int) for y in a):
        f = s.rfind if right else s.find
        r = f(x, *a)
        if r < 0 and must:
            I.throw("ValueError", "substring not found")
        return r
    if M.substr(I, s, x):
        return Term("find", (s, x, right), T_INT)
    if must:
        I.throw("ValueError", "substring not found")
    return -1


def removefix(I, s, x, end):
    if affix(I, s, x, end):
        s, x = _n(I, s), _n(I, x)
        if isinstance(s, (str, bytes)) and isinstance(x, (str, bytes)):
            return s[: len(s) - len(x)] if end else s[len(x):]
        n = M.length(I, x)
        if isinstance(n, int):
            ps = M.parts(I, s)
            if end:
                if isinstance(ps[-1], (str, bytes)) and len(ps[-1]) >= n:
                    return M.mk_cat(I, "str" if I.ctx.tags(s) == T_STR else "bytes", ps[:-1] + [ps[-1][: len(ps[-1]) - n]])
                return Term("slice", (s, 0, -n), I.ctx.tags(s))
            return M.get_slice(I, s, n, None, None)
        ps, xs = M.parts(I, s), M.parts(I, x)
        return M.mk_cat(I, "str" if I.ctx.tags(s) == T_STR else "bytes", ps[len(xs):] if not end else ps[: len(ps) - len(xs)])
    return s


def _arg(a, k, i, name, default=None):
    if i < len(a):
        return a[i]
    return k.get(name, default)


def pad(name):
    def go(I, s, a, k):
        s = _n(I, s)
        if isinstance(s, (str, bytes)) and all_native([_n(I, x) for x in a], {}):
            return native_call(I, getattr(s, name), *[_n(I, x) for x in a])
        return Term(name, (s,) + tuple(_n(I, x) for x in a), I.ctx.tags(s))
    return go


def translate(I, s, t):
    s, t = _n(I, s), _n(I, t)
    if isinstance(t, Term) and t.op == "maketrans" and all(isinstance(x, str) for x in t.args):
        return s.translate(str.maketrans(*t.args))
    if isinstance(t, Term) and t.op == "maketrans" and t.args in ((b"+/", b"-_"), (b"-_", b"+/")) and isinstance(s, Term) and s.op == "b64" \
            and s.args[0] == ("std" if t.args[0] == b"+/" else "url"):
        r = Term("b64", ("url" if s.args[0] == "std" else "std",) + s.args[1:], s.ty)
        r.meta.update(s.meta)
        return r
    return Term("translate", (s, M.freeze(I, t)), I.ctx.tags(s) if isinstance(s, Term) else T_STR)


TEXT = {
    "split": lambda I, s, a, k: split(I, s, _arg(a, k, 0, "sep"), _n(I, _arg(a, k, 1, "maxsplit", -1))),
    "rsplit": lambda I, s, a, k: split(I, s, _arg(a, k, 0, "sep"), _n(I, _arg(a, k, 1, "maxsplit", -1)), True),
    "partition": lambda I, s, a, k: partition(I, s, a[0]),
    "rpartition": lambda I, s, a, k: partition(I, s, a[0], True),
    "join": lambda I, s, a, k: join(I, _n(I, s), a[0]),
    "strip": lambda I, s, a, k: strip(I, s, a[0] if a else None, "both"),
    "lstrip": lambda I, s, a, k: strip(I, s, a[0] if a else None, "left"),
    "rstrip": lambda I, s, a, k: strip(I, s, a[0] if a else None, "right"),
    "startswith": lambda I, s, a, k: affix(I, s, a[0], False),
    "endswith": lambda I, s, a, k: affix(I, s, a[0], True),
    "removeprefix": lambda I, s, a, k: removefix(I, s, a[0], False),
    "removesuffix": lambda I, s, a, k: removefix(I, s, a[0], True),
    "replace": lambda I, s, a, k: replace(I, s, a[0], a[1]),
    "lower": lambda I, s, a, k: case(I, s, "lower"),
    "upper": lambda I, s, a, k: case(I, s, "upper"),
    "title": lambda I, s, a, k: case(I, s, "title"),
    "capitalize": lambda I, s, a, k: case(I, s, "capitalize"),
    "swapcase": lambda I, s, a, k: case(I, s, "swapcase"),
    "count": lambda I, s, a, k: count(I, s, a[0]),
    "find": lambda I, s, a, k: find(I, s, a[0], a[1:]),
    "rfind": lambda I, s, a, k: find(I, s, a[0], a[1:], True),
    "index": lambda I, s, a, k: find(I, s, a[0], a[1:], False, True),
    "rindex": lambda I, s, a, k: find(I, s, a[0], a[1:], True, True),
    "ljust": pad("ljust"), "rjust": pad("rjust"), "zfill": pad("zfill"), "center": pad("center"),
    "__len__": lambda I, s, a, k: M.length(I, s),
    "__contains__": lambda I, s, a, k: M.contains(I, s, a[0]),
    "__eq__": lambda I, s, a, k: M.equal(I, s, a[0]),
    "__str__": lambda I, s, a, k: M.str_(I, s),
    "splitlines": lambda I, s, a, k: (lift(_n(I, s).splitlines()) if isinstance(_n(I, s), (str, bytes)) else Term("splitlines", (_n(I, s),), T_LIST)),
    "translate": lambda I, s, a, k: translate(I, s, a[0]),
}
for _p in ("isdigit", "isalpha", "isalnum", "isascii", "isspace", "isupper", "islower"):
    TEXT[_p] = predicate(_p)
STR = dict(TEXT)
STR.update({
    "encode": lambda I, s, a, k: encode(I, s, _arg(a, k, 0, "encoding", "utf-8"), _n(I, _arg(a, k, 1, "errors", "strict"))),
    "format": str_format,
    "casefold": lambda I, s, a, k: case(I, s, "casefold"),
    "format_map": lambda I, s, a, k: str_format(I, s, [], {x: v for x, v in M.iter_dict(I, M.dict_payload(I, a[0]))}),
})
for _p in ("isnumeric", "isdecimal", "isidentifier", "isprintable", "istitle"):
    STR[_p] = predicate(_p)
BYTES = dict(TEXT)


def _hexm(I, s, a, k):
    s = _n(I, s)
    if isinstance(s, bytes):
        return s.hex()
    return Term("hex", (s,), T_STR)


BYTES.update({
    "decode": lambda I, s, a, k: decode(I, s, _arg(a, k, 0, "encoding", "utf-8"), _n(I, _arg(a, k, 1, "errors", "strict"))),
    "hex": _hexm,
    "tobytes": lambda I, s, a, k: s,
})


# ===================================================================== numbers
def to_bytes(I, v, a, k):
    v = _n(I, v)
    n = _n(I, _arg(a, k, 0, "length", 1))
    order = _n(I, _arg(a, k, 1, "byteorder", "big"))
    if isinstance(v, int) and isinstance(n, int) and isinstance(order, str):
        return native_call(I, int(v).to_bytes, n, order, signed=bool(_n(I, k.get("signed", False))))
    if isinstance(v, Term):
        if isinstance(n, Term):
            n = _minimal(I, v, n)
        if not _fits(I, v, n):
            I.may_raise("to_bytes", (v, M._atom(I, n)), "OverflowError", "int too big to convert")
    if order == "big" and not k.get("signed"):
        t = Term("tobytes", (v, n), T_BYTES)
    else:
        t = Term("tobytes", (v, n, order), T_BYTES)
    return t


def _width(I, v, n):
    """The widths that `n` stands for when the number v has 0, 1, ... 80 bits; None if it depends on anything else."""
    from .ext import _eval
    b = Term("bitlen", (v,), T_INT)
    out = [_eval(I, n, b, k) for k in range(81)]
    return None if None in out else out


def _minimal(I, v, n):
    """A width that is the number of octets of v in another notation is written (bits + 7) // 8."""
    b = Term("bitlen", (v,), T_INT)
    w = _width(I, v, n)
    if w == [(k + 7) // 8 for k in range(81)]:
        return M.binop(I, ast.FloorDiv(), M.add(I, b, 7), 8)
    return n


def _fits(I, v, n):
    """Is `n` bytes certainly enough for the natural number `v`?"""
    bits = v.meta.get("bits")
    if isinstance(n, int):
        return bits is not None and 8 * n >= bits
    b = Term("bitlen", (v,), T_INT)
    if isinstance(n, Term) and n.op == "//" and n.args == (b, 8) and I.ctx.is_zero(Term("mod", (b, 8), T_INT)):
        return True
    if isinstance(n, Term) and n.op == "//" and n.args[1] == 8:
        lin = I.ctx.lin_of(n.args[0])
        return lin is not None and len(lin[0]) == 1 and lin[0][0] == (Term("bitlen", (v,), T_INT), 1) and lin[1] >= 7
    if isinstance(n, Term):
        w = _width(I, v, n)
        if w is not None:
            return all(8 * x >= k for k, x in enumerate(w))
        lin = I.ctx.lin_of(n)
        if lin is not None and len(lin[0]) == 1 and lin[1] >= 0:
            t = lin[0][0][0]
            return t is not n and lin[0][0][1] >= 1 and _fits(I, v, t)
    return False


def bit_length(I, v, a, k):
    v = _n(I, v)
    if isinstance(v, int):
        return v.bit_length()
    return Term("bitlen", (v,), T_INT)


INT = {
    "to_bytes": to_bytes,
    "bit_length": bit_length,
    "bit_count": lambda I, v, a, k: (_n(I, v).bit_count() if isinstance(_n(I, v), int) else Term("bit_count", (_n(I, v),), T_INT)),
    "conjugate": lambda I, v, a, k: v,
    "__index__": lambda I, v, a, k: v,
    "__int__": lambda I, v, a, k: v,
    "__eq__": lambda I, v, a, k: M.equal(I, v, a[0]),
    "conjugate": lambda I, v, a, k: v,
}
FLOAT = {
    "is_integer": lambda I, v, a, k: _n(I, v).is_integer() if isinstance(_n(I, v), float) else I.ctx.choose("is_integer", (_n(I, v),), [True, False]),
    "__eq__": lambda I, v, a, k: M.equal(I, v, a[0]),
}


# ===================================================================== dict
def d_get(I, d, a, k):
    M.check_hashable(I, a[0])
    f, v = M.dict_get(I, d, a[0])
    return v if f else (a[1] if len(a) > 1 else k.get("default"))


def d_pop(I, d, a, k):
    M.check_hashable(I, a[0])
    f, v = M.dict_get(I, d, a[0])
    if f:
        I.ctx.touch(d, "pop")
        M.dict_del(I, d, a[0])
        return v
    if len(a) > 1:
        return a[1]
    I.throw("KeyError", M._atom(I, I.ctx.n(a[0])))


def d_setdefault(I, d, a, k):
    M.check_hashable(I, a[0])
    f, v = M.dict_get(I, d, a[0])
    if f:
        return v
    v = a[1] if len(a) > 1 else None
    I.ctx.touch(d, "setdefault")
    M.dict_set(I, d, a[0], v)
    return v


def d_clear(I, d, a, k):
    I.ctx.touch(d, "clear")
    d.entries = {}
    d.sources = []
    d.removed = set()


def d_popitem(I, d, a, k):
    items = list(M.iter_dict(I, d))
    if not items:
        I.throw("KeyError", "popitem(): dictionary is empty")
    I.ctx.touch(d, "popitem")
    M.dict_del(I, d, items[-1][0])
    return items[-1]


DICT = {
    "get": d_get,
    "pop": d_pop,
    "setdefault": d_setdefault,
    "keys": lambda I, d, a, k: AView(d, "keys"),
    "values": lambda I, d, a, k: AView(d, "values"),
    "items": lambda I, d, a, k: AView(d, "items"),
    "update": lambda I, d, a, k: M.dict_update(I, d, a[0] if a else None, k),
    "copy": lambda I, d, a, k: M.dict_copy(I, d),
    "clear": d_clear,
    "popitem": d_popitem,
    "__contains__": lambda I, d, a, k: M.contains(I, d, a[0]),
    "__getitem__": lambda I, d, a, k: M.getitem(I, d, a[0]),
    "__setitem__": lambda I, d, a, k: M.setitem(I, d, a[0], a[1]),
    "__delitem__": lambda I, d, a, k: M.delitem(I, d, a[0]),
    "__len__": lambda I, d, a, k: M.length(I, d),
    "__iter__": lambda I, d, a, k: AGen(M.iterate(I, d)),
    "__eq__": lambda I, d, a, k: M.equal(I, d, a[0]),
}


# ===================================================================== list / tuple / set
def l_append(I, l, a, k):
    I.ctx.touch(l, "append")
    l.items.append(a[0])


def l_extend(I, l, a, k):
    xs = list(M.iterate(I, a[0]))
    I.ctx.touch(l, "extend")
    l.items.extend(xs)


def l_insert(I, l, a, k):
    I.ctx.touch(l, "insert")
    l.items.insert(_n(I, a[0]), a[1])


def l_remove(I, l, a, k):
    for i, x in enumerate(l.items):
        if M.equal(I, x, a[0]):
            I.ctx.touch(l, "remove")
            del l.items[i]
            return
    I.throw("ValueError", "list.remove(x): x not in list")


def l_pop(I, l, a, k):
    i = _n(I, a[0]) if a else -1
    if not isinstance(i, int):
        I.ctx.note_wild("pop with an unknown index")
        i = 0
    if not -len(l.items) <= i < len(l.items):
        I.throw("IndexError", "pop from empty list")
    I.ctx.touch(l, "pop")
    return l.items.pop(i)


def l_index(I, l, a, k):
    xs = l if isinstance(l, tuple) else l.items
    for i, x in enumerate(xs):
        if M.equal(I, x, a[0]):
            return i
    I.throw("ValueError", "x not in list")


def l_count(I, l, a, k):
    return sum(1 for x in list(l if isinstance(l, tuple) else l.items) if M.equal(I, x, a[0]))


def l_clear(I, l, a, k):
    I.ctx.touch(l, "clear")
    l.items = []


def l_sort(I, l, a, k):
    I.ctx.touch(l, "sort")
    l.items = list(FUNCS["sorted"](I, [l], k).items)


def l_reverse(I, l, a, k):
    I.ctx.touch(l, "reverse")
    l.items.reverse()


LIST = {
    "append": l_append, "extend": l_extend, "insert": l_insert, "remove": l_remove, "pop": l_pop,
    "index": l_index, "count": l_count, "clear": l_clear, "sort": l_sort, "reverse": l_reverse,
    "copy": lambda I, l, a, k: AList(l.items),
    "__contains__": lambda I, l, a, k: M.contains(I, l, a[0]),
    "__getitem__": lambda I, l, a, k: M.getitem(I, l, a[0]),
    "__len__": lambda I, l, a, k: M.length(I, l),
    "__iter__": lambda I, l, a, k: AGen(M.iterate(I, l)),
}
TUPLE = {"index": l_index, "count": l_count, "__contains__": LIST["__contains__"], "__getitem__": LIST["__getitem__"],
         "__len__": LIST["__len__"], "__iter__": LIST["__iter__"]}


def s_add(I, s, a, k):
    M.check_hashable(I, a[0])
    if not any(M._quick_same(I, x, a[0]) for x in s.items):
        I.ctx.touch(s, "add")
        s.items.append(a[0])


def s_discard(I, s, a, k, must=False):
    for i, x in enumerate(s.items):
        if M.equal(I, x, a[0]):
            I.ctx.touch(s, "discard")
            del s.items[i]
            return
    if must:
        I.throw("KeyError", a[0])


def s_update(I, s, a, k):
    for x in a:
        for y in list(M.iterate(I, x)):
            s_add(I, s, [y], {})


def s_op(name):
    def go(I, s, a, k):
        r = s
        for x in a:
            r = M.set_op(I, name, r, x)
        return ASet(r.items, s.frozen)
    return go


def s_isup(I, s, a, k):
    return all(M.contains(I, s, x) for x in list(M.iterate(I, a[0])))


def s_issub(I, s, a, k):
    o = I.ctx.n(a[0])
    if not isinstance(o, ASet):
        o = M.make_set(I, list(M.iterate(I, o)))
    return M.subset(I, s, o)


def s_isdisj(I, s, a, k):
    return not any(M.contains(I, s, x) for x in list(M.iterate(I, a[0])))


def s_inplace(name):
    def go(I, s, a, k):
        r = s_op(name)(I, s, a, k)
        I.ctx.touch(s, name)
        s.items = r.items
    return go


def s_pop(I, s, a, k):
    if not s.items:
        I.throw("KeyError", "pop from an empty set")
    I.ctx.touch(s, "pop")
    return s.items.pop(0)


def s_clear(I, s, a, k):
    I.ctx.touch(s, "clear")
    s.items = []


SET = {
    "add": s_add, "discard": s_discard, "remove": lambda I, s, a, k: s_discard(I, s, a, k, True),
    "update": s_update, "union": s_op("union"), "intersection": s_op("intersection"),
    "difference": s_op("difference"), "symmetric_difference": s_op("symmetric_difference"),
    "issuperset": s_isup, "issubset": s_issub, "isdisjoint": s_isdisj, "pop": s_pop, "clear": s_clear,
    "difference_update": s_inplace("difference"), "intersection_update": s_inplace("intersection"),
    "copy": lambda I, s, a, k: ASet(s.items, s.frozen),
    "__contains__": lambda I, s, a, k: M.contains(I, s, a[0]),
    "__len__": lambda I, s, a, k: M.length(I, s),
}

TYPE_METHODS = {
    "str": set(STR), "bytes": set(BYTES), "dict": set(DICT), "list": set(LIST), "tuple": set(TUPLE),
    "set": set(SET), "frozenset": set(SET) - {"add", "discard", "remove", "update", "pop", "clear"},
    "int": set(INT), "float": set(FLOAT), "bool": set(INT),
}
TABLE = {"str": STR, "bytes": BYTES, "dict": DICT, "list": LIST, "tuple": TUPLE, "set": SET,
         "frozenset": SET, "int": INT, "float": FLOAT, "bool": INT}

REAL = {"str": str, "bytes": bytes, "dict": dict, "list": list, "tuple": tuple, "set": set, "frozenset": frozenset,
        "int": int, "float": float, "bool": bool}

TD_ATTRS = ("total_seconds", "days", "seconds", "microseconds")


def value_method(I, v, name, wrapper=None):
    c = I.ctx
    v0 = v
    v = c.n(v)
    if isinstance(v, AView):
        if name == "isdisjoint":
            return ABuiltin(name, lambda I, a, k: s_isdisj(I, M.make_set(I, list(M.iterate(I, v))), a, k))
        if name == "mapping":
            return v.d
        return MISSING
    if isinstance(v, ASet):
        tn = "frozenset" if v.frozen else "set"
    elif isinstance(v, Term):
        from . import ext

        r = ext.term_attr(I, v, name)
        if r is not None:
            return r[0]
        tags = c.tags(v)
        ok = frozenset(t for t in tags if name in TYPE_METHODS.get(t, ()))
        if not ok:
            return MISSING
        if "obj" in tags:
            if len(tags) > 3:
                return MISSING
        rest = tags - ok
        if rest and "obj" not in rest:
            if not c.decide_type(v, ok):
                I.throw("AttributeError", f"object has no attribute {name!r}")
        elif rest:
            return MISSING
        ok = c.tags(v)
        if len(ok) > 1:
            for t in sorted(ok):
                if len(c.tags(v)) > 1 and c.decide_type(v, frozenset({t})):
                    break
        v = c.n(v)
        if isinstance(v, Term) and c.tags(v) & {"dict", "list", "tuple", "set"} and v.op != "pairs":
            v = M.thaw(I, v) if v.op in ("list", "dict", "tuple") else M.force(I, v)
        tn = sorted(c.tags(v))[0] if isinstance(v, Term) else sorted(tag_of_const(v))[0]
    else:
        tn = sorted(tag_of_const(v))[0]
        if tn == "obj":
            return MISSING
    f = TABLE.get(tn, {}).get(name)
    if f is None or name not in TYPE_METHODS.get(tn, ()):
        t = REAL.get(tn)
        if t is not None and wrapper is None and hasattr(t, name) and not hasattr(object, name):
            # a method that exists and is not modelled
            c.note_wild(f"{tn}.{name}")
            return Term("attr", (M._atom(I, v), name))
        return MISSING

    def go(I, a, k):
        try:
            return f(I, v, list(a), k)
        except IndexError:
            I.throw("TypeError", f"{tn}.{name}() missing an argument")

    return ABuiltin(f"{tn}.{name}", go)


# ===================================================================== constructors
def c_bool(I, a, k):
    return M.truth(I, a[0]) if a else False


def c_int(I, a, k):
    if not a:
        return 0
    v = I.ctx.n(a[0])
    base = _n(I, _arg(a, k, 1, "base", 10))
    if isinstance(v, AObj):
        m = M.find_method(I, v, "__int__")
        if m is not None:
            return I.call(m, [], {})
    v = _n(I, v)
    if isinstance(v, NATIVE):
        if len(a) > 1 or "base" in k:
            return native_call(I, int, v, base)
        return native_call(I, int, v)
    if isinstance(v, Term):
        c = I.ctx
        tags = c.tags(v)
        if v.op == "enc" and isinstance(v.args[0], Term) and v.args[0].op == "hex" and base == 16:
            v = v.args[0]
        if v.op == "hex" and base == 16:
            if not M.truth(I, v.args[0]):
                I.throw("ValueError", "invalid literal for int()")
            return fromb(v.args[0])
        if v.op == "str" and isinstance(v.args[0], Term) and c.tags(v.args[0]) == T_INT:
            return v.args[0]
        if tags <= {"int", "bool"}:
            return v
        if tags <= NUMERIC:
            return int_of(I, v)
        ok = tags & {"int", "float", "bool", "str", "bytes"}
        if "obj" in tags:
            c.note_wild("int() of unknown")
            return Term("int", (v,), T_INT)
        if not ok or not c.decide_type(v, frozenset(ok)):
            I.throw("TypeError", "int() argument must be a string or a number")
        if c.tags(v) & NUMERIC and c.decide_type(v, NUMERIC):
            return c_int(I, a, k)
        I.may_raise("int", (v, base), "ValueError", "invalid literal for int()")
        return Term("int", (v, base), T_INT)
    I.throw("TypeError", "int() argument must be a string or a number")


def int_of(I, v):
    """Truncation of a number that may be fractional."""
    c = I.ctx
    if isinstance(v, Term) and v.op == "lin":
        items, k = v.args
        ints = all(c.tags(t) <= {"int", "bool"} or t.op == "nowf" for t, _ in items)
        if ints:
            return v if not any(t.op == "nowf" for t, _ in items) else M.mk_lin(
                I, _sum((now_int(t), m) for t, m in items), k, T_INT)
    if isinstance(v, Term) and v.op == "nowf":
        return now_int(v)
    return Term("trunc", (v,), T_INT)


def _sum(ps):
    out = {}
    for t, m in ps:
        out[t] = out.get(t, 0) + m
    return out


def now_int(t):
    from . import ext

    return (t.args[0] if t.args else ext.NOW) if t.op == "nowf" else t


def c_float(I, a, k):
    if not a:
        return 0.0
    v = _n(I, a[0])
    if isinstance(v, NATIVE):
        return native_call(I, float, v)
    if isinstance(v, Term) and I.ctx.tags(v) <= NUMERIC:
        return v
    if isinstance(v, Term) and not I.ctx.tags(v) & {"obj", "str", "bytes", "int", "float", "bool"}:
        I.throw("TypeError", "float() argument must be a string or a number")
    if isinstance(v, Term):
        I.may_raise("float", (v,), "ValueError", "could not convert string to float")
        return Term("float", (v,), T_FLOAT)
    I.throw("TypeError", "float() argument must be a string or a number")


def c_str(I, a, k):
    if not a:
        return ""
    if len(a) > 1 or "encoding" in k:
        return decode(I, a[0], _arg(a, k, 1, "encoding"), _n(I, _arg(a, k, 2, "errors", "strict")))
    return M.str_(I, a[0])


def c_bytes(I, a, k):
    if not a:
        return b""
    v = I.ctx.n(a[0])
    if len(a) > 1 or "encoding" in k:
        return encode(I, v, _arg(a, k, 1, "encoding"), "strict")
    v = _n(I, v)
    if isinstance(v, bytes):
        return v
    if isinstance(v, str):
        I.throw("TypeError", "string argument without an encoding")
    if isinstance(v, int):
        return native_call(I, bytes, v)
    if isinstance(v, Term):
        tags = I.ctx.tags(v)
        if tags == T_BYTES:
            return v
        if tags == T_STR:
            I.throw("TypeError", "string argument without an encoding")
        if v.op == "bytesof":
            return v.args[0]
        if v.op == "map" and isinstance(v.args[0], Term) and v.args[0].op == "byte" and v.args[0].args[0] is v.args[1]:
            return v.args[1]
        if "bytes" in tags and "obj" not in tags:
            if I.ctx.decide_type(v, T_BYTES):
                return v
            I.throw("TypeError", "cannot convert to bytes")
        return Term("bytes", (v,), T_BYTES)
    if isinstance(v, (AList, tuple, AGen)):
        xs = [_n(I, x) for x in M.iterate(I, v)]
        if all(isinstance(x, int) for x in xs):
            return native_call(I, bytes, [int(x) for x in xs])
        I.ctx.note_wild("bytes of unknown numbers")
        return Term("bytes", tuple(M._atom(I, x) for x in xs), T_BYTES)
    I.throw("TypeError", "cannot convert to bytes")


def c_list(I, a, k):
    if not a:
        return AList()
    v = I.ctx.n(a[0])
    if isinstance(v, Term) and v.op in ("map", "pairs", "bytesof"):
        return v if v.op != "bytesof" else Term("map", (Term("byte", (v.args[0],), T_INT), v.args[0]), T_LIST)
    return AList(list(M.iterate(I, v)))


def c_tuple(I, a, k):
    if not a:
        return ()
    v = I.ctx.n(a[0])
    if isinstance(v, Term) and v.op == "map":
        return v
    return tuple(M.iterate(I, v))


def c_dict(I, a, k):
    d = ADict()
    if a:
        M.dict_merge(I, d, a[0])
    for n, v in k.items():
        if isinstance(v, M.Guarded):
            M.dict_set(I, d, n, v.val, guard=v.guard)
        else:
            M.dict_set(I, d, n, v)
    return d


def c_set(frozen):
    def go(I, a, k):
        return M.make_set(I, list(M.iterate(I, a[0])) if a else [], frozen)
    return go


def c_range(I, a, k):
    a = [_n(I, x) for x in a]
    if all(isinstance(x, int) for x in a):
        return ExtObj("range", r=native_range(I, a))
    I.ctx.note_wild("range with an unknown bound")
    n = I.ctx.choose("nelems", tuple(M._atom(I, x) for x in a), [0, 1, 2])
    return ExtObj("range", r=range(n))


def native_range(I, a):
    try:
        return range(*a)
    except (TypeError, ValueError) as e:
        I.throw(type(e).__name__, str(e))


def c_type(I, a, k):
    if len(a) == 3:
        bases = [M.as_class(I, b) for b in M.iterate(I, a[1])]
        ns = {_n(I, kk): v for kk, v in M.iter_dict(I, M.dict_payload(I, a[2]))}
        fr = I.ctx.stack[-1][2] if I.ctx.stack else None
        return M.build_class(I, _n(I, a[0]), [b for b in bases if b], ns, fr.module if fr else None, None, k)
    return M.type_of(I, a[0])


def c_slice(I, a, k):
    lo, hi, step = (None, a[0], None) if len(a) == 1 else (list(a) + [None])[:3]
    return ExtObj("slice", lo=lo, hi=hi, step=step)


CTORS = {
    "slice": c_slice,
    "bool": c_bool, "int": c_int, "float": c_float, "str": c_str, "bytes": c_bytes, "bytearray": c_bytes,
    "list": c_list, "tuple": c_tuple, "dict": c_dict, "set": c_set(False), "frozenset": c_set(True),
    "range": c_range, "type": c_type, "memoryview": c_bytes,
    "classmethod": lambda I, a, k: AWrap("classmethod", a[0]),
    "staticmethod": lambda I, a, k: AWrap("staticmethod", a[0]),
    "property": lambda I, a, k: AWrap("property", _arg(a, k, 0, "fget"), _arg(a, k, 1, "fset")),
}


# ===================================================================== functions
def f_len(I, a, k):
    return M.length(I, a[0])


def f_getattr(I, a, k):
    if len(a) > 2:
        try:
            return M.getattr_(I, a[0], a[1])
        except PyExc as e:
            if e.obj.cls.issub(M.exc_class(I, "AttributeError")):
                return a[2]
            raise
    return M.getattr_(I, a[0], a[1])


def f_any(I, a, k):
    v = I.ctx.n(a[0])
    if isinstance(v, Term) and v.op == "map":
        return I.ctx.choose("any", (v,), [True, False])
    for x in M.iterate(I, v):
        if M.truth(I, x):
            return True
    return False


def f_all(I, a, k):
    v = I.ctx.n(a[0])
    if isinstance(v, Term) and v.op == "map":
        return I.ctx.choose("all", (v,), [True, False])
    for x in M.iterate(I, v):
        if not M.truth(I, x):
            return False
    return True


def f_next(I, a, k):
    g = I.ctx.n(a[0])
    if isinstance(g, AGen):
        try:
            return next(g.it)
        except StopIteration as s:
            if len(a) > 1:
                return a[1]
            I.throw("StopIteration", *([s.value] if s.value is not None else []))
    if isinstance(g, AObj):
        m = M.find_method(I, g, "__next__")
        if m is not None:
            try:
                return I.call(m, [], {})
            except PyExc as e:
                if e.obj.cls.name == "StopIteration" and len(a) > 1:
                    return a[1]
                raise
    if isinstance(g, Term):
        I.ctx.note_wild("next() of unknown")
        return Term("next", (g,))
    I.throw("TypeError", "object is not an iterator")


def f_iter(I, a, k):
    v = I.ctx.n(a[0])
    if len(a) == 2:
        def until():
            while True:
                x = I.call(v, [], {})
                if M.equal(I, x, a[1]):
                    return
                yield x
        return AGen(until(), name="callable_iterator")
    if isinstance(v, AGen):
        return v
    return AGen(M.iterate(I, v), name="iterator")


def f_enumerate(I, a, k):
    start = _n(I, _arg(a, k, 1, "start", 0))

    def gen():
        for i, x in enumerate(M.iterate(I, a[0])):
            yield (i + start, x)

    return AGen(gen(), name="enumerate")


def f_zip(I, a, k):
    def gen():
        its = [M.iterate(I, x) for x in a]
        while its:
            row = []
            for it in its:
                try:
                    row.append(next(it))
                except StopIteration:
                    return
            yield tuple(row)

    return AGen(gen(), name="zip")


def f_map(I, a, k):
    src = M.bytes_iter(I, I.ctx.n(a[1])) if len(a) == 2 else None
    if src is not None:
        return Term("map", (I.call(a[0], [Term("byte", (src,), T_INT)], {}), src), T_LIST)

    def gen():
        its = [M.iterate(I, x) for x in a[1:]]
        while True:
            row = []
            for it in its:
                try:
                    row.append(next(it))
                except StopIteration:
                    return
            yield I.call(a[0], row, {})

    return AGen(gen(), name="map")


def f_filter(I, a, k):
    def gen():
        for x in M.iterate(I, a[1]):
            if M.truth(I, x if a[0] is None else I.call(a[0], [x], {})):
                yield x

    return AGen(gen(), name="filter", gfn=M.gfilter(I, a[1], lambda x: M.truth(I, x if a[0] is None else I.call(a[0], [x], {}))))


def f_sorted(I, a, k):
    items = list(M.iterate(I, a[0]))
    key = k.get("key")
    ks = [(_n(I, I.call(key, [x], {})) if key is not None else _n(I, x)) for x in items]
    if all(isinstance(x, NATIVE) for x in ks):
        try:
            order = sorted(range(len(items)), key=lambda i: ks[i], reverse=bool(k.get("reverse") and M.truth(I, k["reverse"])))
        except TypeError as e:
            I.throw("TypeError", str(e))
        return AList([items[i] for i in order])
    flat = [_plain(I, x) for x in ks]
    rev = bool(k.get("reverse") and M.truth(I, k["reverse"]))
    if all(x is not None for x in flat):
        try:
            order = sorted(range(len(items)), key=lambda i: flat[i][0], reverse=rev)
        except TypeError as e:
            I.throw("TypeError", str(e))
        return AList([items[i] for i in order])
    if ks and all(isinstance(x, AObj) and M.find_method(I, x, "__lt__") is not None for x in ks):
        import functools

        order = sorted(range(len(items)), reverse=rev, key=functools.cmp_to_key(
            lambda i, j: -1 if M.truth(I, I.call(M.find_method(I, ks[i], "__lt__"), [ks[j]], {})) else
            1 if M.truth(I, I.call(M.find_method(I, ks[j], "__lt__"), [ks[i]], {})) else 0))
        return AList([items[i] for i in order])
    return AList(items)


def _plain(I, v):
    """(the Python value,) of a nested tuple or list of constants, or None."""
    v = _n(I, v)
    if isinstance(v, NATIVE):
        return (v,)
    if isinstance(v, (tuple, AList)):
        xs = [_plain(I, x) for x in (v if isinstance(v, tuple) else v.items)]
        if all(x is not None for x in xs):
            return (type(v)([x[0] for x in xs]) if isinstance(v, tuple) else [x[0] for x in xs],)
    return None


def f_sum(I, a, k):
    tot = _arg(a, k, 1, "start", 0)
    for x in M.iterate(I, a[0]):
        tot = M.binop(I, "Add", tot, x)
    return tot


def f_minmax(name):
    def go(I, a, k):
        xs = list(M.iterate(I, a[0])) if len(a) == 1 else list(a)
        key = k.get("key")
        if not xs:
            if "default" in k:
                return k["default"]
            I.throw("ValueError", f"{name}() arg is an empty sequence")
        best = xs[0]
        bk = I.call(key, [best], {}) if key else best
        for x in xs[1:]:
            xk = I.call(key, [x], {}) if key else x
            if M.order(I, "Gt" if name == "max" else "Lt", xk, bk):
                best, bk = x, xk
        return best
    return go


def f_abs(I, a, k):
    v = _n(I, a[0])
    if isinstance(v, (int, float)):
        return abs(v)
    if M.order(I, "Lt", v, 0):
        return M.unary(I, ast.USub(), v)
    return v


def f_round(I, a, k):
    v = _n(I, a[0])
    if isinstance(v, (int, float)):
        return native_call(I, round, v, *[_n(I, x) for x in a[1:]])
    if isinstance(v, Term) and I.ctx.tags(v) <= {"int", "bool"}:
        if len(a) < 2 or _n(I, a[1]) is None or isinstance(_n(I, a[1]), int) and _n(I, a[1]) >= 0:
            return v
    if len(a) > 1 and _n(I, a[1]) is not None:
        return Term("round", (M._atom(I, v), M._atom(I, _n(I, a[1]))), I.ctx.tags(v) if isinstance(v, Term) else T_ANY)
    if isinstance(v, Term) and v.op == "nowf":
        # the second that is nearer
        return M.add(I, now_int(v), 1) if I.ctx.choose("half", (v,), [False, True]) else now_int(v)
    return int_of(I, v) if isinstance(v, Term) and I.ctx.tags(v) <= NUMERIC else Term("round", (M._atom(I, v),), T_INT)


def f_isinstance(I, a, k):
    return M.isinstance_(I, a[0], a[1])


def f_issubclass(I, a, k):
    c = M.as_class(I, a[0])
    if c is None:
        I.throw("TypeError", "issubclass() arg 1 must be a class")
    o = I.ctx.n(a[1])
    os = o if isinstance(o, tuple) else (o,)
    return any(c.issub(M.as_class(I, x)) for x in os if M.as_class(I, x) is not None)


def f_super(I, a, k):
    return ASuper(I.ctx.n(a[0]), I.ctx.n(a[1]))


def f_open(I, a, k):
    from . import ext

    return ext.open_(I, a, k)


def f_vars(I, a, k):
    return M.getattr_(I, a[0], "__dict__")


def f_dir(I, a, k):
    o = I.ctx.n(a[0])
    names = set()
    if isinstance(o, AObj):
        names.update(o.attrs)
        for c in o.cls.mro:
            names.update(c.attrs)
            names.update(TYPE_METHODS.get(c.name, ()) if c.builtin else ())
    elif isinstance(o, AClass):
        for c in o.mro:
            names.update(c.attrs)
            names.update(TYPE_METHODS.get(c.name, ()) if c.builtin else ())
    elif isinstance(o, AModule):
        names.update(o.attrs)
    return AList(sorted(names))


def f_ord(I, a, k):
    v = _n(I, a[0])
    if isinstance(v, (str, bytes)):
        return native_call(I, ord, v)
    return Term("ord", (v,), T_INT)


def f_chr(I, a, k):
    v = _n(I, a[0])
    return native_call(I, chr, v) if isinstance(v, int) else Term("chr", (v,), T_STR)


def f_divmod(I, a, k):
    return (M.binop(I, "FloorDiv", a[0], a[1]), M.binop(I, "Mod", a[0], a[1]))


def f_first_annotation(I, a, k):
    f = I.ctx.n(a[0])
    f = f.fn if isinstance(f, AWrap) else f
    for x in f.node.args.posonlyargs + f.node.args.args:
        if x.annotation is not None:
            fr = Frame(f.module, "func", parent=f.parent, func=f) if False else f.parent
            if fr is None:
                fr = Frame(f.module, "module")
                fr.vars = f.module.attrs
            t = I.ctx.n(I.eval(x.annotation, fr))
            if isinstance(t, ExtObj) and t.kind == "types":
                return AList(t.attrs.get("items", t.attrs.get("types", ())))
            return AList([t])
    I.throw("TypeError", "Invalid first argument to `register()`")


def f_radix(fn):
    def go(I, a, k):
        v = _n(I, a[0])
        return fn(v) if isinstance(v, int) else Term(fn.__name__ + "int", (v,), T_STR)
    return go


def f_hex(I, a, k):
    v = _n(I, a[0])
    return hex(v) if isinstance(v, int) else Term("hexint", (v,), T_STR)


def f_pow(I, a, k):
    if len(a) == 2:
        return M.binop(I, "Pow", a[0], a[1])
    xs = [_n(I, x) for x in a]
    if all(isinstance(x, int) for x in xs):
        return native_call(I, pow, *xs)
    return Term("powmod", tuple(xs), T_INT)


def f_setattr(I, a, k):
    M.setattr_(I, a[0], a[1], a[2])


def f_delattr(I, a, k):
    o, n = I.ctx.n(a[0]), _n(I, a[1])
    if isinstance(o, (AObj, AClass)) and n in o.attrs:
        I.ctx.touch(o, f"del .{n}")
        del o.attrs[n]
    else:
        I.throw("AttributeError", n)


FUNCS = {
    "len": f_len, "isinstance": f_isinstance, "issubclass": f_issubclass,
    "hasattr": lambda I, a, k: M.hasattr_(I, a[0], a[1]),
    "getattr": f_getattr, "setattr": f_setattr, "delattr": f_delattr,
    "any": f_any, "all": f_all, "next": f_next, "anext": lambda I, a, k: ACoro(lambda: f_next(I, a, k), "anext"),
    "iter": f_iter, "aiter": f_iter, "enumerate": f_enumerate, "zip": f_zip, "map": f_map,
    "filter": f_filter, "sorted": f_sorted,
    "reversed": lambda I, a, k: AGen(iter(list(M.iterate(I, a[0]))[::-1]), name="reversed"),
    "sum": f_sum, "min": f_minmax("min"), "max": f_minmax("max"), "abs": f_abs, "round": f_round,
    "repr": lambda I, a, k: M.repr_(I, a[0]), "ascii": lambda I, a, k: M.repr_(I, a[0]),
    "__import__": lambda I, a, k: I.import_module(str(_n(I, a[0])).split(".")[0]),
    "print": lambda I, a, k: None, "callable": lambda I, a, k: M.callable_(I, a[0]),
    "id": lambda I, a, k: Term("id", (M._atom(I, a[0]),), T_INT),
    "hash": lambda I, a, k: Term("pyhash", (M._atom(I, a[0]),), T_INT),
    "open": f_open, "vars": f_vars, "dir": f_dir, "ord": f_ord, "chr": f_chr, "divmod": f_divmod,
    "super": f_super, "format": lambda I, a, k: M.format_(I, a[0], a[1] if len(a) > 1 else ""),
    "hex": f_hex, "pow": f_pow, "psa_first_annotation": f_first_annotation, "bin": f_radix(bin), "oct": f_radix(oct),
}


def from_bytes(I, a, k):
    b = _n(I, a[0])
    order = _n(I, _arg(a, k, 1, "byteorder", "big"))
    if isinstance(b, bytes):
        return native_call(I, int.from_bytes, b, order, signed=bool(k.get("signed", False)))
    if isinstance(b, Term):
        tags = I.ctx.tags(b)
        if tags != T_BYTES and "obj" not in tags:
            if "bytes" not in tags or not I.ctx.decide_type(b, T_BYTES):
                I.throw("TypeError", "cannot convert object to bytes")
        if order == "big" and not k.get("signed"):
            return fromb(b)
        return Term("fromb", (b, order), T_INT)
    I.throw("TypeError", "cannot convert object to bytes")


def fromb(b):
    if b.op == "tobytes" and len(b.args) == 2 and isinstance(b.args[0], Term):
        return b.args[0]
    return Term("fromb", (b,), T_INT)


def fromhex(I, a, k):
    s = _n(I, a[0])
    if isinstance(s, str):
        return native_call(I, bytes.fromhex, s)
    if isinstance(s, Term) and s.op == "hex":
        return s.args[0]
    ps = M.parts(I, s) if isinstance(s, Term) else []
    zeros = ps[0] if len(ps) == 2 and isinstance(ps[0], str) and not ps[0].strip("0") else ""
    t = ps[-1] if ps and len(ps) == 1 + bool(zeros) else None
    if isinstance(t, Term) and t.op == "format" and t.args[1] == "x" and I.ctx.tags(t.args[0]) == T_INT:
        odd = M.binop(I, "Mod", M.length(I, t), 2)
        even = I.ctx.is_zero(odd)
        if even is not (len(zeros) % 2 == 0):
            I.may_raise("fromhex", (s,), "ValueError", "non-hexadecimal number found")
        return Term("tobytes", (t.args[0], M.binop(I, "FloorDiv", M.length(I, s), 2)), T_BYTES)
    I.may_raise("fromhex", (s,), "ValueError", "non-hexadecimal number found")
    return Term("unhex", (s,), T_BYTES)


STATIC = {
    ("dict", "fromkeys"): lambda I, a, k: _fromkeys(I, a),
    ("int", "from_bytes"): from_bytes,
    ("bytes", "fromhex"): fromhex,
    ("bytes", "maketrans"): lambda I, a, k: Term("maketrans", tuple(M._atom(I, x) for x in a), T_BYTES),
    ("str", "maketrans"): lambda I, a, k: Term("maketrans", tuple(M._atom(I, x) for x in a), T_DICT),
    ("object", "__new__"): lambda I, a, k: M.new_object(I, a[0], a[1:], k),
}


def _fromkeys(I, a):
    d = ADict()
    for x in M.iterate(I, a[0]):
        M.dict_set(I, d, x, a[1] if len(a) > 1 else None)
    return d


MISSING = getattr(M, "MISSING")
