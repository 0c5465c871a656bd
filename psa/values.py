"""Abstract values.

Python constants stand for themselves.  Everything that is not known
statically is a Term: a hash-consed provenance expression ("the parameter
`state` of the query", "the base64url decoding of the second segment of the
token") together with the set of runtime types it may have.  Containers,
objects, classes, functions and frames of the analysed program have their own
classes; every mutable one records the analysis phase that created it, so that
a write to an object that outlives the request can be told from a write to a
request-local one.
"""

from __future__ import annotations

NATIVE = (type(None), bool, int, float, complex, str, bytes, type(Ellipsis))

ALL_TAGS = frozenset(
    {"none", "bool", "int", "float", "str", "bytes", "list", "tuple", "dict", "set", "obj"}
)
T_STR = frozenset({"str"})
T_BYTES = frozenset({"bytes"})
T_INT = frozenset({"int"})
T_FLOAT = frozenset({"float"})
T_NUM = frozenset({"int", "float"})
T_BOOL = frozenset({"bool"})
T_LIST = frozenset({"list"})
T_DICT = frozenset({"dict"})
T_OBJ = frozenset({"obj"})
T_JSON = frozenset({"none", "bool", "int", "float", "str", "list", "dict"})
T_ANY = ALL_TAGS


class Term:
    __slots__ = ("op", "args", "ty", "meta", "_h", "uid")
    _table: dict = {}
    _n = 0

    def __new__(cls, op, args=(), ty=T_ANY):
        key = (op, tuple(_k(a) for a in args), ty)
        t = cls._table.get(key)
        if t is None:
            t = object.__new__(cls)
            t.op = op
            t.args = tuple(args)
            t.ty = ty
            t.meta = {}
            t._h = hash(key)
            cls._n += 1
            t.uid = cls._n
            cls._table[key] = t
        return t

    def __hash__(self):
        return self._h

    def __eq__(self, other):
        return self is other

    def __repr__(self):
        return show(self)


def _k(a):
    if isinstance(a, NATIVE):
        return (type(a).__name__, a)
    if isinstance(a, tuple):
        return ("tuple",) + tuple(_k(x) for x in a)
    if isinstance(a, Term):
        return a
    if isinstance(a, frozenset):
        return a
    return ("id", id(a), _pin(a))


_pinned: dict = {}


def _pin(a):
    # keeps the object alive so that its id is not reused while a Term names it
    _pinned[id(a)] = a
    return type(a).__name__


def ckey(v):
    """Hashable identity of a value that is atomic for equality purposes."""
    if isinstance(v, Term):
        return v
    if isinstance(v, bool):
        return ("c", "int", int(v))
    if isinstance(v, float) and v.is_integer():
        return ("c", "int", int(v))
    if isinstance(v, NATIVE):
        return ("c", type(v).__name__, v)
    return ("id", id(v))


def show(v, depth=0):
    if depth > 6:
        return "…"
    d = depth + 1
    if isinstance(v, Term):
        if v.op == "sym":
            return f"<{v.args[0]}>"
        if v.op == "param":
            return f"<{v.args[0]}:{show(v.args[1], d)}>"
        if v.op == "cat":
            return "+".join(show(a, d) for a in v.args)
        if v.op == "lin":
            s = " + ".join(
                (show(t, d) if c == 1 else f"{c}*{show(t, d)}") for t, c in v.args[0]
            )
            return f"({s} + {v.args[1]})" if v.args[1] else f"({s})"
        return f"{v.op}({', '.join(show(a, d) for a in v.args)})"
    if isinstance(v, tuple):
        return "(" + ", ".join(show(a, d) for a in v) + ")"
    if isinstance(v, NATIVE):
        r = repr(v)
        return r if len(r) < 60 else r[:57] + "..."
    if isinstance(v, AList):
        return "[" + ", ".join(show(a, d) for a in v.items) + "]"
    if isinstance(v, ASet):
        return "{" + ", ".join(show(a, d) for a in v.items) + "}"
    if isinstance(v, ADict):
        s = ", ".join(
            f"{show(e.key, d)}{'?' if e.guard is not None else ''}: {show(e.val, d)}"
            for e in v.entries.values()
        )
        return "{" + s + (", …" if v.sources else "") + "}"
    return getattr(v, "name", None) and f"<{type(v).__name__} {v.name}>" or f"<{type(v).__name__}>"


# ---------------------------------------------------------------- mutable values
class Mutable:
    __slots__ = ("phase", "label")
    cur_phase = 0

    def _born(self):
        self.phase = Mutable.cur_phase
        self.label = None


class AList(Mutable):
    __slots__ = ("items",)

    def __init__(self, items=()):
        self._born()
        self.items = list(items)

    def snapshot(self):
        return list(self.items)

    def restore(self, s):
        self.items = s


class ASet(Mutable):
    """A set: insertion ordered items, distinctness decided lazily."""

    __slots__ = ("items", "frozen")

    def __init__(self, items=(), frozen=False):
        self._born()
        self.items = list(items)
        self.frozen = frozen

    def snapshot(self):
        return list(self.items)

    def restore(self, s):
        self.items = s


class Entry:
    __slots__ = ("key", "val", "guard")

    def __init__(self, key, val, guard=None):
        self.key = key
        self.val = val
        self.guard = guard  # None: present; else a presence atom (source, key)


class ADict(Mutable):
    """Entries known (possibly guarded by a presence atom) plus lazily open sources.

    `sources` is a list of source Terms, the last one wins; a lookup of a key that
    is neither an entry nor removed asks whether the source has it.
    """

    __slots__ = ("entries", "sources", "removed")

    def __init__(self, entries=None, sources=(), removed=()):
        self._born()
        self.entries = dict(entries or {})
        self.sources = list(sources)
        self.removed = set(removed)

    def snapshot(self):
        return ({k: Entry(e.key, e.val, e.guard) for k, e in self.entries.items()},
                list(self.sources), set(self.removed))

    def restore(self, s):
        self.entries, self.sources, self.removed = s


class AView:
    __slots__ = ("d", "kind")

    def __init__(self, d, kind):
        self.d = d
        self.kind = kind


class AObj(Mutable):
    __slots__ = ("cls", "attrs", "payload", "hash_id", "__weakref__")

    def __init__(self, cls, payload=None):
        self._born()
        self.cls = cls
        self.attrs = {}
        self.payload = payload

    def snapshot(self):
        return (dict(self.attrs), self.payload, self.cls)

    def restore(self, s):
        self.attrs, self.payload, self.cls = s

    @property
    def name(self):
        return f"{self.cls.name} object"


class AClass(Mutable):
    __slots__ = ("name", "bases", "attrs", "mro", "module", "builtin", "ctor", "node",
                 "is_enum", "is_abc", "dataclass", "subs", "extname", "fields", "meta")

    def __init__(self, name, bases, attrs, module=None, builtin=False, ctor=None, extname=None):
        self._born()
        self.name = name
        self.bases = list(bases)
        self.attrs = attrs
        self.module = module
        self.builtin = builtin
        self.ctor = ctor
        self.node = None
        self.extname = extname
        self.is_enum = any(getattr(b, "is_enum", False) for b in bases)
        self.is_abc = any(getattr(b, "is_abc", False) for b in bases)
        self.dataclass = None
        self.meta = None
        self.fields = []
        self.subs = []
        self.mro = self._c3()
        for b in self.bases:
            b.subs.append(self)

    def _c3(self):
        seqs = [list(b.mro) for b in self.bases] + [list(self.bases)]
        out = [self]
        while any(seqs):
            seqs = [s for s in seqs if s]
            for s in seqs:
                c = s[0]
                if not any(c in t[1:] for t in seqs):
                    break
            else:
                c = seqs[0][0]
            out.append(c)
            for s in seqs:
                if s and s[0] is c:
                    s.pop(0)
        return out

    def snapshot(self):
        return (dict(self.attrs), list(self.subs))

    def restore(self, s):
        self.attrs, self.subs = s

    def issub(self, other):
        return other in self.mro

    def lookup(self, name, after=None):
        mro = self.mro
        if after is not None:
            mro = mro[mro.index(after) + 1:]
        for c in mro:
            if name in c.attrs:
                return c, c.attrs[name]
        return None, None


class AFunc(Mutable):
    __slots__ = ("name", "node", "module", "defaults", "kwdefaults", "parent", "owner",
                 "is_async", "is_gen", "attrs", "qual", "localnames", "info")

    def __init__(self, name, node, module):
        self._born()
        self.name = name
        self.node = node
        self.module = module
        self.attrs = {}
        self.owner = None

    def snapshot(self):
        return dict(self.attrs)

    def restore(self, s):
        self.attrs = s


class ABuiltin:
    __slots__ = ("name", "fn", "is_async", "cls")

    def __init__(self, name, fn, is_async=False):
        self.name = name
        self.fn = fn
        self.is_async = is_async


class ABound:
    __slots__ = ("fn", "self_")

    def __init__(self, fn, self_):
        self.fn = fn
        self.self_ = self_

    @property
    def name(self):
        return getattr(self.fn, "name", "?")


class AWrap:
    """classmethod / staticmethod / property / cached_property wrapper."""

    __slots__ = ("kind", "fn", "fset", "name")

    def __init__(self, kind, fn, fset=None):
        self.kind = kind
        self.fn = fn
        self.fset = fset
        self.name = kind


class ASuper:
    __slots__ = ("cls", "obj")

    def __init__(self, cls, obj):
        self.cls = cls
        self.obj = obj


class AModule(Mutable):
    __slots__ = ("name", "attrs", "path", "state")

    def __init__(self, name, path=None):
        self._born()
        self.name = name
        self.attrs = {}
        self.path = path

    def snapshot(self):
        return dict(self.attrs)

    def restore(self, s):
        self.attrs = s


class ExtRef:
    """A name of a module that is not part of the analysed program."""

    __slots__ = ("path",)
    _t: dict = {}

    def __new__(cls, path):
        r = cls._t.get(path)
        if r is None:
            r = object.__new__(cls)
            r.path = path
            cls._t[path] = r
        return r

    @property
    def name(self):
        return self.path


class ExtObj(Mutable):
    """An object of a modelled external class (a crypto key, a hash, ...)."""

    __slots__ = ("kind", "attrs")

    def __init__(self, kind, **attrs):
        self._born()
        self.kind = kind
        self.attrs = attrs

    def snapshot(self):
        return dict(self.attrs)

    def restore(self, s):
        self.attrs = s

    @property
    def name(self):
        return self.kind


class ATypeOf:
    __slots__ = ("term",)

    def __init__(self, term):
        self.term = term


class ACoro:
    __slots__ = ("run", "name", "awaited", "node")

    def __init__(self, run, name, node=None):
        self.run = run
        self.name = name
        self.awaited = False
        self.node = node


class AGen:
    """A (sync or async) generator object or a lazily evaluated iterator."""

    __slots__ = ("it", "is_async", "name", "gfn")

    def __init__(self, it, is_async=False, name="generator", gfn=None):
        self.gfn = gfn      # the items with their guards, if the source is a mapping with partly known keys
        self.it = it
        self.is_async = is_async
        self.name = name


class Frame(Mutable):
    __slots__ = ("vars", "parent", "module", "func", "kind", "locals", "globals_decl",
                 "nonlocals", "cls", "clsname", "line")

    def __init__(self, module, kind, parent=None, func=None):
        self._born()
        self.vars = {}
        self.parent = parent
        self.module = module
        self.kind = kind
        self.func = func
        self.locals = None
        self.globals_decl = ()
        self.nonlocals = ()
        self.clsname = None
        self.cls = None
        self.line = 0

    def snapshot(self):
        return dict(self.vars)

    def restore(self, s):
        self.vars = s


class PyExc(Exception):
    """An exception raised by the analysed program."""

    def __init__(self, obj, origin=None):
        super().__init__()
        self.obj = obj
        self.origin = origin or []
        self.implicit = False


class Infeasible(Exception):
    """The current abstract path contradicts the scenario."""


class Budget(Exception):
    """Too many steps on one path / too many paths."""


class Unsupported(Exception):
    pass
