"""P12, P14, P15, P18: reading a KVN text, for messages of a given shape and all contents.

A shape is an object tree whose texts, numbers and epochs are variables (which blocks and items there are, list
lengths and enumeration values are fixed; so these obligations are bounded in the shape, not in the contents).
lxml and xsdata are run as they are on texts in which every variable is one private character: they are trusted
to treat the contents of a text uniformly, and to read Decimal(text) or int(text) where a number is expected."""
import copy
import dataclasses
import enum
import json
import multiprocessing
import random
import re
import sys
import warnings
from decimal import Decimal

from lxml import etree
from xsdata.formats.dataclass.parsers import XmlParser
from xsdata.formats.dataclass.serializers import XmlSerializer

from .. import cases, columns, gen, kvnspec, snap
from .core import PyExc, SStr, Unsupported
from .kvnworld import KvnWorld
from .values import Opaque, SNum, base_type, hints
from .vc import VC, Refuted, outcome_of

TRUSTED = [
    "lxml etree.Element/tostring and xsdata XmlParser/XmlSerializer treat the contents of texts uniformly (they are run with one private character for each text)",
    "xsdata reads Decimal(text) and int(text) where the class has a number, and writes numbers with an equal value",
]
BASE, LAST = 0xE000, 0xF8FF
MARK = re.compile(f"[{chr(BASE)}-{chr(LAST)}]")


class Num:
    """A number in a shape."""

    def __init__(self, mark, cls):
        self.mark, self.cls = mark, cls

    def __str__(self):
        return self.mark

    def __bool__(self):
        return True


class Shape:
    """An object tree in which every content is a mark (one private character)."""

    def __init__(self, e, world, obj, eq=False, literals=False, fixed=None):
        self.e, self.w = e, world
        self.fixed = fixed or (lambda v: False)  # which texts are not variables
        self.eq = eq  # comments have the form COMMENT = text
        self.literals = literals  # numbers are any decimal literals (and not only those of Python)
        self.vars = {}  # mark -> pieces
        self.marks = {}  # var -> mark
        self.obj = self.copy(obj)

    def mark(self, *pieces):
        c = chr(BASE + len(self.vars))
        if ord(c) > LAST:
            raise Unsupported("too many values")
        self.vars[c] = pieces
        return c

    def leaf(self, t, path, f):
        if t is Decimal and self.literals:
            return Num(self.mark(self.w.var(path, "lit", nonempty=True, nows=True, num=True, only=frozenset("0123456789+-.eE"))), t)
        v = self.w.leaf(t, path, f)
        if f.name == "comment" and not self.eq:
            self.e.assume(v.pieces[0], nfirst="=")
        text = v.text if isinstance(v, SNum) else v
        c = self.mark(*text.pieces)
        return Num(c, v.cls) if isinstance(v, SNum) else c

    def copy(self, o, path=""):
        out = copy.copy(o)
        for f in dataclasses.fields(o):
            if not f.init:
                continue
            v = getattr(o, f.name)
            t = base_type(hints(type(o))[f.name])
            p = f"{path}{f.name}"
            if isinstance(v, list):
                setattr(out, f.name, [self.one(x, t, f"{p}[{i}]", f) for i, x in enumerate(v)])
            else:
                setattr(out, f.name, self.one(v, t, p, f))
        return out

    def one(self, v, t, path, f):
        if dataclasses.is_dataclass(v):
            return self.copy(v, path + ".")
        if v is None or isinstance(v, enum.Enum):
            return v
        if v == "" or isinstance(v, str) and self.fixed(v):
            return v
        return self.leaf(t, path, f)

    def ws(self, empty=False):
        return self.mark(self.w.var(f"space {len(self.vars)}", "ws", ws=True, nonempty=not empty, excl="\n"))

    def text(self, s):
        """The text with variables for the marks."""
        out, k = [], 0
        for m in MARK.finditer(s):
            out += [s[k:m.start()], *self.vars[m.group()]]
            k = m.end()
        return SStr(*[p for p in out + [s[k:]] if p != ""])

    def marked(self, it, s):
        """The text with marks for the variables."""
        if isinstance(s, str):
            return s
        out = []
        for p in it.e.ps(s):
            if isinstance(p, str):
                out.append(p)
            else:
                if p not in self.marks:
                    self.marks[p] = self.mark(p)
                out.append(self.marks[p])
        return "".join(out)

    def fill(self, o, smp):
        """A concrete object."""
        out = copy.copy(o)
        for f in dataclasses.fields(o):
            if f.init:
                v = getattr(o, f.name)
                setattr(out, f.name, [self.fill1(x, smp) for x in v] if isinstance(v, list) else self.fill1(v, smp))
        return out

    def fill1(self, v, smp):
        if dataclasses.is_dataclass(v):
            return self.fill(v, smp)
        if isinstance(v, Num):
            return v.cls(smp.text(self.text(v.mark)))
        if isinstance(v, str):
            return smp.text(self.text(v))
        return v


class Element:
    """An lxml element."""

    def __init__(self, tag):
        self.tag, self.attrib, self.text, self.children = tag, {}, None, []

    def append(self, child):
        raise NotImplementedError

    def set(self, name, value):
        raise NotImplementedError

    def get(self, name, default=None):
        raise NotImplementedError

    def extend(self, children):
        raise NotImplementedError


class Xml:
    """The bytes or text of an XML document (with marks)."""

    def __init__(self, data):
        self.data = data


def whole(obj):
    return [obj]


class Reader(VC):
    """Reading the text `lines(shape)` gives the object of the shape (or at least the parts of it).

    judge(obj, back) is what the real result for a concrete object violates, or None."""

    eager = True

    def __init__(self, ctx, name, obj, lines, judge, budget=120, parts=whole, comments=True, eq=False, literals=True, fixed=None):
        super().__init__(ctx, name, budget=budget, samples=1, max_paths=150)
        it = self.it
        it.max_steps = 10**9
        it.w = KvnWorld(self.e)
        it.w.empty_texts = False  # (twice as many paths for each text; sampled by the bounded parts)
        self.shape = Shape(self.e, it.w, obj, eq, literals, fixed)
        self.judge, self.parts, self.comments = judge, parts, comments
        self.prepare(lines)
        it.stubs[etree.Element] = lambda i, a, k: self.element(i, a, k)
        it.stubs[etree.SubElement] = self.subelement
        it.stubs[etree.tostring] = self.tostring
        it.method_stubs[("XmlParser", "from_bytes")] = self.parse
        it.method_stubs[("XmlParser", "from_string")] = self.parse
        it.method_stubs[("XmlSerializer", "render")] = self.render
        it.method_stubs[("Element", "append")] = self.append
        it.method_stubs[("Element", "set")] = lambda i, e, n, v: i.setitem(e.attrib, n, v)
        it.method_stubs[("Element", "get")] = lambda i, e, n, d=None: i.method(e.attrib, "get", [n, d], {})
        it.method_stubs[("Element", "extend")] = lambda i, e, l: i.append(e.children, list(i.iterate(l)))

    def prepare(self, lines):
        self.text = self.shape.text("\n".join(lines(self.shape)))

    # lxml and xsdata -------------------------------------------------------------
    def element(self, it, a, k):
        if len(a) not in (1, 2) or "nsmap" in k or "attrib" in k:
            raise Unsupported("other arguments of etree.Element")
        o = it.new(Element(it.force(a[0])))
        given = it.force(a[1]) if len(a) == 2 else {}
        if not isinstance(given, dict):
            raise Unsupported("attributes of etree.Element")
        o.attrib = it.new({**given, **k})
        o.children = it.vlist()
        return o

    def subelement(self, it, a, k):
        o = self.element(it, a[1:], k)
        self.append(it, a[0], o)
        return o

    def append(self, it, elem, child):
        it.append(elem.children, [child])

    def real(self, it, elem):
        tag = elem.tag
        if not isinstance(tag, str):
            raise Unsupported("an element with a symbolic name")
        try:
            r = etree.Element(tag)
            for k, v in elem.attrib.items():
                r.attrib[k] = self.shape.marked(it, it.force(v))
            t = it.force(elem.text)
            r.text = None if t is None else self.shape.marked(it, t)
        except (ValueError, TypeError) as x:
            raise PyExc(x) from None
        for c in elem.children:
            r.append(self.real(it, c))
        return r

    def tostring(self, it, a, k):
        return Opaque("bytes", xml=etree.tostring(self.real(it, a[0]), **k), truth=True)

    def render(self, it, ser, obj, ns_map=None):
        return self.unmark(it, XmlSerializer(config=ser.config).render(self.marked_tree(it, obj), ns_map))

    def marked_tree(self, it, o):
        if isinstance(o, list):
            return [self.marked_tree(it, x) for x in o]
        if dataclasses.is_dataclass(o):
            out = copy.copy(o)
            for f in dataclasses.fields(o):
                if f.init:
                    setattr(out, f.name, self.marked_tree(it, it.force(getattr(o, f.name))))
            return out
        if isinstance(o, SStr):
            return self.shape.marked(it, o)
        if isinstance(o, SNum):
            return self.shape.marked(it, o.text)
        return o

    def unmark(self, it, s):
        return it.e.simp(self.shape.text(s))

    def parse(self, it, parser, source, clazz=None):
        source = it.force(source)
        if isinstance(source, Opaque) and "xml" in source.info:
            data = source.info["xml"]
        elif isinstance(source, Opaque) and "text" in source.info:
            data = self.shape.marked(it, source.info["text"]).encode()
        elif isinstance(source, (str, SStr)):
            data = self.shape.marked(it, source).encode()
        elif isinstance(source, bytes):
            data = source
        else:
            raise Unsupported(f"parsing {source!r:.60}")
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                o = XmlParser(config=parser.config).from_bytes(data, clazz) if clazz else XmlParser(config=parser.config).from_bytes(data)
        except Exception as x:  # noqa: BLE001
            raise PyExc(x) from None
        return self.take(it, o)

    def take(self, it, o):
        """An object of the parser, with variables for the marks."""
        for f in dataclasses.fields(o):
            if f.init:
                v = getattr(o, f.name)
                t = base_type(hints(type(o))[f.name])
                setattr(o, f.name, it.vlist([self.take1(it, x, t) for x in v]) if isinstance(v, list) else self.take1(it, v, t))
        return it.new(o)

    def take1(self, it, v, t):
        if dataclasses.is_dataclass(v):
            return self.take(it, v)
        if not isinstance(v, str) or isinstance(v, enum.Enum) or not MARK.search(v):
            return v
        s = it.e.simp(self.shape.text(v))
        if t is str or isinstance(s, str) and t not in (Decimal, int):
            return s
        if t in (Decimal, int):
            if isinstance(s, SStr) and len(s.pieces) == 1 and it.e.F(s.pieces[0]).num:
                return SNum(t, s, repr(s))
            if isinstance(s, str):
                return t(s)
            for ps in list(self.shape.vars.values()):  # a number which has been divided
                if len(ps) == 1 and it.e.F(ps[0]).num and it.e.norm(SStr(*ps)).pieces == s.pieces:
                    return SNum(t, s, repr(s))
            raise Unsupported(f"{s!r:.60} is read as a number")
        raise Unsupported(f"{s!r:.60} is read as {t}")

    # obligation -----------------------------------------------------------------
    def body(self, it):
        io = it.call(self.ctx.kvn.NdmKvnIo, (), {})
        return it.call(io.from_string, (self.text,), {})

    def post(self, it, outcome):
        if outcome[0] != "ok":
            raise Refuted(f"raises {outcome[1]!r:.200}")
        want, got = self.shape.obj, outcome[1]
        if type(want) is not type(got):
            raise Refuted(f"{type(got).__name__} instead of {type(want).__name__}")
        a, b = self.parts(want), self.parts(got)
        why = None if len(a) == len(b) else f"{len(b)} parts instead of {len(a)}"
        for x, y in zip(a, b):
            why = why or self.differ(it, x, y, type(x).__name__, False)
        if why is None and self.comments:
            a, b = kvnspec.comments(want), kvnspec.comments(got)
            if len(a) != len(b):
                why = f"{len(b)} comments instead of {len(a)}"
            else:
                for i, (x, y) in enumerate(zip(a, b)):
                    if not it.eq(self.shape.text(x), y):
                        why = f"comment {i} is {y!r:.100} instead of {self.shape.text(x)!r:.100}"
                        break
                for i, (x, y) in enumerate(zip(kvnspec.positions(want), kvnspec.positions(got))):
                    if x != y and why is None:
                        why = f"comment {i} is moved from before value {x} to before value {y}"
        if why:
            raise Refuted(why)

    def differ(self, it, a, b, path, columns):
        """None, or where the object read differs from the one expected (see kvnspec.norm)."""
        if type(a) is not type(b):
            return f"{path}: {type(b).__name__} instead of {type(a).__name__}"
        columns = columns or type(a).__name__ in kvnspec.COLUMN_CLASSES
        for f in kvnspec.order(a):
            if f == "comment" or f == "units" and columns:
                continue
            x, y = getattr(a, f), it.force(getattr(b, f))
            p = f"{path}.{f}"
            if isinstance(x, list):
                if not isinstance(y, list) or len(x) != len(y):
                    return f"{p}: {len(y)} entries instead of {len(x)}"
                pairs = [(f"{p}[{i}]", u, v) for i, (u, v) in enumerate(zip(x, y))]
            else:
                pairs = [(p, x, y)]
            for q, u, v in pairs:
                w = self.differ1(it, u, v, q, columns)
                if w:
                    return w
        return None

    def empty(self, v):
        return v is None or isinstance(v, str) and v == "" or dataclasses.is_dataclass(v) and kvnspec.norm(v) is None

    def differ1(self, it, x, y, p, columns):
        if self.empty(x) and (y is None or not isinstance(y, (SStr, SNum)) and self.empty(y)):
            return None
        if dataclasses.is_dataclass(x):
            if not dataclasses.is_dataclass(y):
                return f"{p}: {y!r:.80} instead of {type(x).__name__}"
            return self.differ(it, x, y, p, columns)
        if isinstance(x, Num):
            s = self.shape.text(x.mark)
            if isinstance(y, SNum):
                return None if y.cls is x.cls and it.eq(s, y.text) else f"{p}: {y!r:.80} instead of {s!r:.80}"
            if isinstance(y, (Decimal, int)):
                return None if it.eq(s, str(y)) else f"{p}: {y!r:.80} instead of {s!r:.80}"
            return f"{p}: {y!r:.80} instead of {s!r:.80}"
        if isinstance(x, str):
            s = it.e.simp(self.shape.text(x))
            if not isinstance(y, (str, SStr)) or isinstance(y, enum.Enum):
                return f"{p}: {y!r:.80} instead of {s!r:.80}"
            return None if it.eq(s, y) else f"{p}: {y!r:.80} instead of {s!r:.80}"
        return None if x is y or x == y else f"{p}: {y!r:.80} instead of {x!r:.80}"

    # instances --------------------------------------------------------------------
    def native(self, smp, it):
        return outcome_of(lambda: self.ctx.kvn.NdmKvnIo().from_string(smp.text(self.text)))

    def agree(self, smp, outcome, nat):
        if outcome[0] != nat[0]:
            return False
        if outcome[0] == "exc":
            return type(outcome[1]) is type(nat[1])
        if isinstance(outcome[1], str):
            return outcome == nat
        return kvnspec.normdiff(kvnspec.norm(self.concrete(smp, outcome[1])), kvnspec.norm(nat[1])) is None and [
            self.leaf_of(smp, c) for c in kvnspec.comments(outcome[1])] == kvnspec.comments(nat[1]) and kvnspec.positions(outcome[1]) == kvnspec.positions(nat[1])

    def leaf_of(self, smp, v):
        if isinstance(v, SNum):
            return v.cls(smp.text(v.text))
        return smp.text(v) if isinstance(v, SStr) else v

    def concrete(self, smp, o):
        if isinstance(o, list):
            return [self.concrete(smp, x) for x in o]
        if dataclasses.is_dataclass(o):
            out = copy.copy(o)
            for f in dataclasses.fields(o):
                if f.init:
                    setattr(out, f.name, self.concrete(smp, getattr(o, f.name)))
            return out
        return self.leaf_of(smp, o)

    def wrong(self, smp, nat):
        try:
            obj = self.shape.fill(self.shape.obj, smp)
        except (ValueError, ArithmeticError):
            raise LookupError from None
        if nat[0] == "exc":
            return f"raised {nat[1]!r:.200}"
        if type(obj) is not type(nat[1]):
            return f"{type(obj).__name__} is read as {type(nat[1]).__name__}"
        return self.judge(obj, nat[1])

    def data(self, smp):
        return {"text": smp.text(self.text)}


class RoundTrip(Reader):
    """Writing the object of the shape and reading the text gives the object."""

    def __init__(self, ctx, name, obj, judge, **kw):
        super().__init__(ctx, name, obj, None, judge, eq=True, literals=False, **kw)

    def prepare(self, lines):
        self.obj = self.tree(self.shape.obj)

    def tree(self, o):
        """The object with its symbolic contents."""
        if isinstance(o, list):
            return self.it.vlist([self.tree(x) for x in o])
        if dataclasses.is_dataclass(o):
            out = copy.copy(o)
            for f in dataclasses.fields(o):
                if f.init:
                    setattr(out, f.name, self.tree(getattr(o, f.name)))
            return self.it.new(out)
        if isinstance(o, Num):
            return SNum(o.cls, self.shape.text(o.mark), o.mark)
        if isinstance(o, str) and not isinstance(o, enum.Enum):
            return self.e.simp(self.shape.text(o))
        return o

    def body(self, it):
        io = it.call(self.ctx.kvn.NdmKvnIo, (), {})
        text = it.call(io.to_string, (self.obj,), {})
        io = it.call(self.ctx.kvn.NdmKvnIo, (), {})
        return it.call(io.from_string, (text,), {})

    def concretely(self, smp):
        try:
            return self.shape.fill(self.shape.obj, smp)
        except (ValueError, ArithmeticError):
            raise LookupError from None

    def native(self, smp, it):
        obj = self.concretely(smp)
        return outcome_of(lambda: self.ctx.kvn.NdmKvnIo().from_string(self.ctx.kvn.NdmKvnIo().to_string(obj)))

    def data(self, smp):
        return {"object": repr(self.concretely(smp))[:6000]}


def job(i):
    """One obligation, in a process of its own."""
    ctx = _CTX
    if ctx.proof_left() < 2:
        return None
    n = len(ctx.violations), len(ctx.obligations), len(ctx.known_seen)
    ctx.functions = set()
    _MAKE[i]().run()
    return (
        json.loads(json.dumps(ctx.violations[n[0]:], default=str)), ctx.obligations[n[1]:], ctx.known_seen[n[2]:],
        sorted(ctx.functions), i,
    )


def shapes(ctx, makers, procs=6):
    """Run the obligations in parallel; nothing is started after three violations."""
    global _CTX, _MAKE
    _CTX, _MAKE = ctx, list(makers)
    ctx.trusted += TRUSTED
    missing = len(_MAKE)
    sys.stdout.flush()
    with multiprocessing.get_context("fork").Pool(procs) as pool:
        for r in pool.imap(job, range(len(_MAKE))):
            if r is None:
                continue
            missing -= 1
            ctx.violations += [tuple(v) for v in r[0]]
            ctx.obligations += r[1]
            ctx.known_seen += [k for k in r[2] if k not in ctx.known_seen]
            ctx.functions.update(r[3])
            if len(ctx.violations) >= 3:
                pool.terminate()
                break
    if missing and len(ctx.violations) < 3:
        ctx.obligations.append({"name": f"{missing} more shapes", "status": "undecided", "why": "out of time"})


# layouts -------------------------------------------------------------------------
def plain(shape):
    lines = cases.render(kvnspec.expected(shape.obj)).split("\n")
    return [x.replace("COMMENT ", "COMMENT = ", 1) if shape.eq and x.startswith("COMMENT ") else x for x in lines]


def spaced(shape):
    """Any white space between the columns and around all parts; blank lines."""
    def ws():
        return shape.ws(empty=True)

    def gap():
        return shape.ws()

    out = [ws()]
    for n, e in enumerate(kvnspec.expected(shape.obj)):
        if e[0] == "K":
            line = e[1] + ws() + "=" + ws() + e[2]
            if e[3] is not None:
                line += ws() + "[" + ws() + e[3] + ws() + "]"
        elif e[0] == "C":
            line = "COMMENT" + (ws() + "=" + ws() if shape.eq else gap()) + e[1]
        elif e[0] == "D":
            line = "".join(x + (gap() if i < len(e[1]) - 1 else "") for i, x in enumerate(e[1]))
        elif e[0] == "O":
            line = e[1] + ws() + "=" + ws() + e[2] + gap() + e[3]
        else:
            line = e[1]
        out.append(ws() + line + ws())
        if n % 3 == 2:
            out.append(ws())
    return out


# properties ----------------------------------------------------------------------
def columns_of(obj):
    """The column data of a message."""
    segs = obj.body.segment if isinstance(obj.body.segment, list) else [obj.body.segment]
    out = []
    for s in segs:
        for a in ("attitude_state", "state_vector", "covariance_matrix", "observation"):
            out += getattr(s.data, a, None) or []
    return out


def p12(ctx):
    from ..props import p12

    def judge(obj, back):
        return None if p12.pick(obj) == p12.pick(back) else "column data: " + str(cases.kvn_roundtrip_diff(ctx, obj, back))

    shapes(ctx, [
        (lambda key=key, obj=obj: Reader(ctx, f"columns of {key.partition('/p12v/')[2]}", obj, spaced, judge, parts=columns_of, comments=False))
        for key, name, obj in columns.all_columns(ctx, "p12v")
    ])


def random_shapes(ctx, tag, n, probs=(0.0, 0.2, 0.5, 0.8, 1.0), **kw):
    for i in range(n):
        for p in probs if i == 0 else probs[1:-1]:
            for name in snap.MESSAGES:
                key = f"{name} {i} density {p}"
                yield key, gen.message(ctx.models, name, f"{ctx.seed}/{tag}/{key}", p=p, **kw)


def p14(ctx):
    def judge(obj, back):
        return cases.kvn_roundtrip_diff(ctx, obj, back)

    shapes(ctx, [
        (lambda key=key, obj=obj: RoundTrip(ctx, f"round trip of {key}", obj, judge))
        for key, obj in random_shapes(ctx, "p14v", ctx.n(12, 120))
    ])


def p15(ctx):
    from ..props import p15

    m = ctx.models
    rng = random.Random(f"{ctx.seed}/p15v")

    def params(obj):
        u = getattr(obj.body.segment.data, "user_defined_parameters", None)
        return [u] if u is not None else []

    def judge(obj, back):
        u, v = ([(x.parameter, x.value or "") for y in params(o) for x in y.user_defined] for o in (obj, back))
        if u != v:
            return f"parameters {u} are read as {v}"
        a, b = kvnspec.comments(obj), kvnspec.comments(back)
        return None if a == b else f"comments {a} are read as {b}"

    def make(name, n, empty, com, i):
        free = {0, 1, 2} if n < 5 else {0, n // 2}  # the parameters with any name
        obj = gen.message(m, name, f"{ctx.seed}/p15v/{name}/{n}/{com}/{i}", p=rng.choice((0.2, 0.5, 0.9)))
        obj.body.segment.data.user_defined_parameters = m.UserDefinedType(
            comment=["c"] * com,
            user_defined=[m.UserDefinedParameterType(value="" if k in empty else "x", parameter="P" if k in free else f"FIXED_{k % 4}") for k in range(n)],
        )
        return obj

    def fixed(v):
        return v.startswith("FIXED_")

    makers = []
    for name in sorted(p15.owners(ctx)):
        for i in range(ctx.n(1, 6)):
            for n in (1, 2, 3, 5, 8):
                for com in (0, 1, 3):
                    empty = {k for k in range(n) if rng.random() < 0.25}
                    obj = make(name, n, empty, com, i)
                    key = f"{n} parameters with {len(empty)} empty values and {com} comments in {name} {i}"
                    makers.append(lambda key=key, obj=obj: RoundTrip(ctx, f"round trip of {key}", obj, judge, parts=params, fixed=fixed))
                    makers.append(lambda key=key, obj=obj: Reader(ctx, f"reading {key}", obj, spaced, judge, parts=params, fixed=fixed))
    shapes(ctx, makers)


def p18(ctx):
    from ..props import p18

    def judge(obj, back):
        return cases.kvn_roundtrip_diff(ctx, obj, back)

    makers = []
    for i in range(ctx.n(10, 100)):
        for name in p18.LISTS:
            obj = p18.contrast(ctx, name, f"{ctx.seed}/p18v/{name}/{i}", i)
            makers.append(lambda name=name, obj=obj, i=i: Reader(ctx, f"blocks of {name} {i}", obj, plain, judge, eq=bool(i % 3)))
    for name, ls in p18.LISTS.items():
        for cls, attr in ls:
            for n in (1, 2, 3, 5, 11):
                if name == "Cdm" and n != 2:
                    continue
                obj = gen.message(ctx.models, name, f"{ctx.seed}/p18v/{name}/{attr}/{n}", p=0.5, maxlist=2, force={(cls, attr): n})
                if attr == "user_defined":  # the first three parameters have any name
                    for k, u in enumerate(obj.body.segment.data.user_defined_parameters.user_defined if obj.body.segment.data.user_defined_parameters else ()):
                        u.parameter = "P" if k < 3 else f"FIXED_{k % 4}"
                makers.append(lambda name=name, attr=attr, obj=obj, n=n: Reader(ctx, f"{n} x {attr} of {name}", obj, plain, judge, fixed=lambda v: v.startswith("FIXED_")))
    shapes(ctx, makers)


def p08(ctx):
    def judge(obj, back):
        return cases.kvn_roundtrip_diff(ctx, obj, back)

    shapes(ctx, [
        (lambda key=key, obj=obj, i=i: Reader(ctx, f"layout of {key}", obj, spaced, judge, eq=bool(i % 2)))
        for i, (key, obj) in enumerate(random_shapes(ctx, "p08v", ctx.n(4, 40)))
    ])


def p03(ctx):
    def judge(obj, back):
        return None  # the types differ: see wrong()

    shapes(ctx, [
        (lambda key=key, obj=obj: Reader(ctx, f"type of {key}", obj, plain, judge, parts=lambda o: [], comments=False))
        for key, obj in random_shapes(ctx, "p03v", ctx.n(1, 6), probs=(0.0, 0.5))
    ])
