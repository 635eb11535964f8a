"""Symbolic values of the interpreted program."""
import dataclasses
import enum
import typing
from decimal import Decimal

import z3

from .core import Unsupported


class Sym:
    """Base of symbolic values; any use outside the engine is refused."""

    def _no(self, *a, **k):
        raise Unsupported(f"{type(self).__name__} used outside the engine")

    __eq__ = __ne__ = __bool__ = __iter__ = __len__ = __contains__ = __getitem__ = __add__ = __lt__ = __gt__ = __le__ = __ge__ = __index__ = _no

    def __hash__(self):
        raise Unsupported(f"{type(self).__name__} used outside the engine")

    def __deepcopy__(self, memo):
        return self


class SInt(Sym):
    __slots__ = ("z", "pos")

    def __init__(self, z, pos=None):
        self.z, self.pos = z, pos  # pos: (text, before) when it is the position after `before` in `text`

    def __repr__(self):
        return f"SInt({self.z})"


class SBool(Sym):
    __slots__ = ("z",)

    def __init__(self, z):
        self.z = z


class SObj(Sym):
    """An instance of a model class; its fields are made on demand by the world."""

    def __init__(self, cls, path, world):
        self.cls, self.path, self.world = cls, path, world
        self.fields = {}

    def names(self):
        return [f.name for f in dataclasses.fields(self.cls)]

    def own(self):
        """The names in __dict__ (fields outside __init__ with a default are attributes of the class)."""
        return [f.name for f in dataclasses.fields(self.cls) if f.init or f.default_factory is not dataclasses.MISSING]

    def get(self, name):
        if name not in self.fields:
            self.fields[name] = self.world.field(self, name)
        return self.fields[name]

    def __repr__(self):
        return f"<{self.cls.__name__} {self.path}>"


class SOpt(Sym):
    """None or a value."""

    def __init__(self, path, make, decide=None):
        self.path, self.make, self.val, self.decide = path, make, None, decide

    def inner(self):
        if self.val is None:
            self.val = self.make()
        return self.val

    def __repr__(self):
        return f"<opt {self.path}>"


class SEnum(Sym):
    def __init__(self, cls, path, var):
        self.cls, self.path, self.var = cls, path, var  # var: string variable over the values

    def __repr__(self):
        return f"<{self.cls.__name__} {self.path}>"


class SNum(Sym):
    """A Decimal or int whose text is `text`."""

    def __init__(self, cls, text, path):
        self.cls, self.text, self.path = cls, text, path

    def __repr__(self):
        return f"<{self.cls.__name__} {self.text}>"


class SList(Sym):
    """A list of unknown length of the input."""

    def __init__(self, path, elem, world, minlen=0):
        self.path, self.elem, self.world = path, elem, world
        self.len = z3.Int("len " + path)
        self.generic = None

    def element(self, tag="*"):
        return self.world.element(self, tag)

    def __repr__(self):
        return f"<list {self.path}>"


class TextList(SList):
    """A list of texts (e.g. the lines of an input)."""

    def __init__(self, path, world, kind="line", **facts):
        super().__init__(path, str, world)
        self.kind, self.facts = kind, facts

        class Field:
            metadata = {}

        self.field, self.owner = Field, None

    def element(self, tag="*"):
        from .core import SStr

        return SStr(self.world.var(f"{self.path}[{tag}]", self.kind, **self.facts))


class SVars(Sym):
    """vars() of a symbolic object."""

    def __init__(self, obj):
        self.obj = obj


class Opaque(Sym):
    """A value about which nothing is known but its origin."""

    def __init__(self, what, **info):
        self.what, self.info = what, info

    def __repr__(self):
        return f"<{self.what}>"


class Chunk(Sym):
    pass


class Case(Chunk):
    """One of several sequences, depending on what is assumed."""

    def __init__(self, arms):
        self.arms = arms  # [(log, [items])]

    def __repr__(self):
        return "Case(" + " | ".join(f"{len(l)}:{it}" for l, it in self.arms) + ")"


class ForEach(Chunk):
    """For each element of an input list, in order, the items for the generic element."""

    def __init__(self, src, items):
        self.src, self.items = src, items

    def __repr__(self):
        return f"ForEach({self.src.path}: {self.items})"


class Earlier(Chunk):
    """What the earlier iterations of the loop being executed have appended."""

    def __init__(self, src):
        self.src = src
        self.filters = []

    def __repr__(self):
        return f"Earlier({self.src.path})"


class VList(list):
    """A list made by the interpreted program (may hold chunks)."""

    __slots__ = ("serial",)

    def chunky(self):
        return any(isinstance(x, Chunk) for x in self)

    __hash__ = None


class Held(Sym):
    """A text in a set, by identity: a set of texts is searched by comparing them."""

    __hash__ = object.__hash__

    def __init__(self, v):
        self.v = v


def held(c):
    return [x.v if isinstance(x, Held) else x for x in c]


def is_sym(v):
    from .core import SStr

    return isinstance(v, (Sym, SStr))


def has_sym(v, depth=4):
    if is_sym(v):
        return True
    if depth and isinstance(v, (list, tuple, set, frozenset)):
        return any(has_sym(x, depth - 1) for x in v)
    if depth and isinstance(v, dict):
        return any(has_sym(x, depth - 1) for x in v.values())
    if depth and dataclasses.is_dataclass(v) and not isinstance(v, type):
        return any(has_sym(x, depth - 1) for x in vars(v).values())
    return False


def base_type(t):
    a = [x for x in typing.get_args(t) if x is not type(None)]
    return a[0] if a else t


_h = {}


def hints(c):
    if c not in _h:
        _h[c] = typing.get_type_hints(c)
    return _h[c]


TEXT_EXCL = frozenset("\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029")
CTRL = frozenset(chr(i) for i in range(32)) - {"\t"} | {"\ufffe", "\uffff"} | TEXT_EXCL


class World:
    """The inputs: which values a field may have (the preconditions of the property)."""

    def __init__(self, eng):
        self.e = eng
        self.vars = {}
        self.objs = {}
        self.lists = {}
        self.roots = {}

    def var(self, path, kind, **facts):
        if path not in self.vars:
            self.vars[path] = self.e.fresh(path, kind, **facts)
        return self.vars[path]

    empty_texts = True

    def text_facts(self, obj, f):
        return dict(nonempty=not self.empty_texts or f is None or f.name in ("cov_ref_frame", "value"), lt=True, rt=True, excl=CTRL, nsuf=frozenset("]"))

    def leaf(self, t, path, f=None, obj=None):
        from .core import SStr

        if t is str:
            name = f.name if f is not None else ""
            if name == "comment":
                return SStr(self.var(path, "comment", nonempty=not self.empty_texts, lt=True, rt=True, excl=CTRL))
            if name == "parameter":
                return SStr(self.var(path, "key", nonempty=True, nows=True, up=True, excl=CTRL | {"="}))
            if "epoch" in name or (f is not None and "pattern" in f.metadata):
                # dddd-...
                d = self.var(path + ":year", "num", flen=4, only=frozenset("0123456789"))
                r = self.var(path + ":rest", "text", nonempty=True, nows=True, only=frozenset("0123456789-T:.Z"))
                return SStr(d, "-", r)
            return SStr(self.var(path, "text", **self.text_facts(obj, f)))
        if t is Decimal:
            return SNum(Decimal, SStr(self.var(path, "num", nonempty=True, nows=True, num=True, up=True, only=frozenset("0123456789+-.E"))), path)
        if t is int:
            return SNum(int, SStr(self.var(path, "int", nonempty=True, nows=True, num=True, only=frozenset("0123456789-"))), path)
        if isinstance(t, type) and issubclass(t, enum.Enum):
            return SEnum(t, path, self.var(path, "text", nonempty=True, dom=tuple(dict.fromkeys(str(m.value) for m in t))))
        raise Unsupported(f"input of type {t}")

    def make(self, t, path, f=None, obj=None):
        if dataclasses.is_dataclass(t):
            if path not in self.objs:
                self.objs[path] = SObj(t, path, self)
            return self.objs[path]
        return self.leaf(t, path, f, obj)

    def field(self, obj, name):
        f = next(f for f in dataclasses.fields(obj.cls) if f.name == name)
        t = hints(obj.cls)[name]
        path = f"{obj.path}.{name}"
        if not f.init:
            return f.default
        if typing.get_origin(t) is list:
            return self.list(path, base_type(t), f, obj)
        if self.required(obj, f):
            return self.make(base_type(t), path, f, obj)
        return SOpt(path, lambda: self.make(base_type(t), path, f, obj))

    def required(self, obj, f):
        return bool(f.metadata.get("required")) or f.name == "value"

    def list(self, path, elem, f, obj):
        if path not in self.lists:
            self.lists[path] = SList(path, elem, self)
            self.lists[path].field = f
            self.lists[path].owner = obj
        return self.lists[path]

    def ensure(self, l):
        """What is known about the length of an input list."""
        k = ("list", l.path)
        if k not in self.e.store.keys:
            self.e.setkey(k, True)
            self.e.zassume(l.len >= l.field.metadata.get("min_occurs", 0))
            if l.field.metadata.get("max_occurs"):
                self.e.zassume(l.len <= l.field.metadata["max_occurs"])

    def element(self, lst, tag):
        return self.make(lst.elem, f"{lst.path}[{tag}]", lst.field, lst.owner)
