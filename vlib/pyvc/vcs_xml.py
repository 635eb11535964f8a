"""P03-P07: the XML reader and writer.

xsdata's parser and serializer are dependencies, taken by contract: serializer.render(o) returns the XML text of o,
parser.from_string(t) the object of the class named by the root tag, or raises.  The obligations say that, in every
state which any sequence of calls can leave a reader or writer in, they are called exactly as the property needs."""
import itertools
import time
import xml.etree.ElementTree as ElementTree

import z3
from xsdata.exceptions import ParserError
from xsdata.formats.dataclass.parsers import XmlParser
from xsdata.formats.dataclass.parsers.config import ParserConfig
from xsdata.formats.dataclass.serializers import XmlSerializer
from xsdata.formats.dataclass.serializers.config import SerializerConfig

from .. import gen, snap
from .core import Infeasible, PyExc, SStr, Unsupported
from .interp import Callable_, MISSING
from .values import Case, Chunk, ForEach, Opaque, SObj, World, VList
from .vc import VC, Refuted, outcome_of

TRUSTED = ["xsdata XmlParser/XmlSerializer (parsing and rendering by class metadata)", "xml.etree.ElementTree.XML (root tag)"]


def fields(o):
    return {k: v for k, v in vars(o).items()} if hasattr(o, "__dict__") else {n: getattr(o, n) for n in o.__slots__}


def desc(v):
    """The abstract state of an attribute."""
    if v is None or isinstance(v, (bool, int, str)):
        return v
    if isinstance(v, SStr):
        return "text"
    if isinstance(v, (ParserConfig, SerializerConfig)):
        return (type(v).__name__, tuple(sorted((k, desc(x)) for k, x in fields(v).items())))
    if isinstance(v, XmlParser):
        return ("XmlParser", desc(v.config), v.handler.__name__)
    if isinstance(v, XmlSerializer):
        return ("XmlSerializer", desc(v.config))
    if isinstance(v, Opaque):
        return ("opaque", v.what)
    if isinstance(v, SObj):
        return ("object", v.cls.__name__)
    if isinstance(v, (list, tuple)):
        return (type(v).__name__,) + tuple(desc(x) for x in v)
    if isinstance(v, dict):
        return ("dict",) + tuple((desc(a), desc(b)) for a, b in v.items())
    if callable(v):
        return getattr(v, "__name__", "callable")
    if isinstance(v, type):
        return v.__name__
    raise Unsupported(f"state of type {type(v).__name__}")


WRITES = [(), ("schema_location",), ("no_namespace_schema_location",), ("schema_location", "no_namespace_schema_location")]
OPS = [("read", ())] + [("write", k) for k in WRITES]


class Glue(VC):
    """All sequences of calls, up to the fixed point of the reachable states."""

    def __init__(self, ctx, name, check):
        super().__init__(ctx, name, budget=90, max_paths=60000)
        self.check = check
        self.calls = itertools.count()
        it = self.it
        it.stubs.update(self.stub_table())
        it.method_stubs[("XmlParser", "from_string")] = self.parse
        it.method_stubs[("XmlParser", "from_bytes")] = self.parse
        it.method_stubs[("XmlSerializer", "render")] = self.render
        it.write_hook = self.write_hook
        self.names = {n.lower(): n for n in snap.MESSAGES}

    def stub_table(self):
        t = {ElementTree.XML: self.root, ElementTree.fromstring: self.root, "_strip_multi_ndm": lambda i, a, k: Opaque("member", of=a[0])}  # by contract, see P04
        for c in (SerializerConfig, ParserConfig, XmlSerializer, XmlParser):
            t[c] = lambda i, a, k, c=c: i.new(c(*a, **k))
        return t

    # contracts ------------------------------------------------------------------
    def text_of(self, it, s):
        s = it.force(s)
        if isinstance(s, Opaque) and "text" in s.info:
            s = s.info["text"]
        return s

    def kind(self, it, s):
        """What the text is: malformed, or its root tag."""
        s = self.text_of(it, s)
        if not isinstance(s, SStr) or len(s.pieces) != 1 or not s.pieces[0].name.startswith("source"):
            raise Unsupported("a text other than the one given")
        return it.e.key(("root", s.pieces[0].name), tuple(self.names) + ("ndm", "other", "malformed"))

    def root(self, it, a, k):
        t = self.kind(it, a[0])
        if t == "malformed":
            raise PyExc(ElementTree.ParseError("syntax error"))
        if t == "other":
            s = self.text_of(it, a[0])
            t = SStr(it.w.var("tag of " + s.pieces[0].name, "text", nonempty=True, neq=list(self.names) + ["ndm"]))
        return Opaque("element", attr=lambda i, o, n, d: t if n == "tag" else NotImplemented)

    def parse(self, it, parser, source, clazz=None):
        s = self.text_of(it, source)
        it.append(it.ghost, [("parse", desc(parser), s, clazz)])
        t = self.kind(it, source)
        if t in ("malformed", "other"):
            raise PyExc(ParserError("cannot be read"))
        if it.e.key(("refused", s.pieces[0].name), (False, True)):
            raise PyExc(ParserError("unknown property"))
        cls = getattr(self.ctx.models, self.names.get(t, "Ndm"))
        if clazz is not None and clazz is not cls:
            it.append(it.ghost, [("wrong class", clazz)])
            raise PyExc(ParserError("wrong class"))
        o = it.w.make(cls, f"message in {s.pieces[0].name} ({t})")
        o.result = True
        return o

    def render(self, it, ser, obj, ns_map=None):
        it.append(it.ghost, [("render", desc(ser), {k: v for k, v in fields(ser.config).items()}, obj, ns_map)])
        if it.e.key(("render refused", next(self.calls)), (False,)):
            raise PyExc(ValueError)
        return Opaque("xml text", of=obj)

    def write_hook(self, it, obj, what, v):
        if what == "__class__" and obj.path.startswith("message in "):
            it.append(it.ghost, [("class", obj.path, v)])
            return True
        return False

    # one call -------------------------------------------------------------------
    def op(self, it, io, i, op):
        kind, kws = op
        mark = len(it.ghost)
        if kind == "read":
            src = SStr(it.w.var(f"source{i}", "text"))
            args, kw = (src,), {}
            fn = io.from_string
        else:
            kw = {k: SStr(it.w.var(f"{k}{i}", "key", nonempty=True, nows=True)) for k in kws}
            args = (Opaque(f"tree{i}", truth=True),)
            fn = io.to_string
        try:
            r = ("value", it.call(fn, args, dict(kw)))
        except PyExc as x:
            r = ("raised", x.exc)
        return op, args, kw, r, list(it.ghost)[mark:]

    def run(self):
        """Breadth first over the states."""
        seqs, seen, done = [()], set(), 0
        base = self.name
        while seqs:
            nxt = []
            for seq in seqs:
                for op in OPS:
                    states = set()

                    def body(it, seq=seq, op=op):
                        it.frame, it.frame_writes = it.serial, it.frame_writes or set()  # nothing older than the instance is written
                        io = it.call(self.ctx.xml.NdmXmlIo, (), {})
                        res = None
                        for i, o in enumerate(seq + (op,)):
                            res = self.op(it, io, i, o)
                        st = desc(dict(sorted(vars(io).items())))
                        states.add(st)
                        return res, st

                    self.body, self.seq = body, seq + (op,)
                    o = self.run_one()
                    done += 1
                    if o["status"] != "discharged":
                        return self.finish(o, base, done, len(seen))
                    new = states - seen
                    if new:
                        seen |= new
                        nxt.append(seq + (op,))
            seqs = nxt
            if done > 400:
                o.update(status="undecided", why="the states do not close")
                return self.finish(o, base, done, len(seen))
        return self.finish(o, base, done, len(seen))

    def run_one(self):
        n = len(self.ctx.obligations)
        o = super().run()
        del self.ctx.obligations[n:]
        return o

    def finish(self, o, base, done, states):
        o["name"] = base
        o["detail"] = f"{states} states, {done} transitions"
        self.ctx.obligations.append(o)
        return o

    def post(self, it, outcome):
        if outcome[0] != "ok":
            raise Refuted(f"raises {outcome[1]!r:.100}")
        if it.frame_writes:
            raise Refuted(f"writes to {', '.join(sorted(it.frame_writes))[:200]}")
        (op, args, kw, res, ghost), st = outcome[1]
        self.check(self, it, op, args, kw, res, ghost)

    native = None

    def observe(self, store, outcome, why):
        return OBSERVE[self.check](self.ctx, self.seq)


def reading(vc, it, args, res, ghost):
    """(what the text is, the calls of the parser); the reader passes the text on and nothing else."""
    src = args[0]
    t = vc.kind(it, src)
    whole, ghost = ghost, [g for g in ghost if isinstance(g, tuple)]
    calls = [g for g in ghost if g[0] == "parse"]
    for c in calls:
        if not it.e.same(c[2], src):
            raise Refuted("the parser gets another text")
    if any(g[0] == "wrong class" for g in ghost):
        raise Refuted(f"a text with root {t} is read as another class")
    refused = t in ("malformed", "other") or it.e.store.keys.get(("refused", src.pieces[0].name))
    return t, calls, refused


def check_p03(vc, it, op, args, kw, res, ghost):
    if op[0] != "read":
        return
    t, calls, refused = reading(vc, it, args, res, ghost)
    if t in ("malformed", "other"):
        if res[0] != "raised":
            raise Refuted(f"a text with {t} root gives {res[1]!r:.100}")
    elif not refused and t != "ndm":
        if res[0] != "value" or not isinstance(res[1], SObj) or res[1].cls is not getattr(vc.ctx.models, vc.names[t]):
            raise Refuted(f"a text with root {t} gives {res[1]!r:.100}")


def check_p06(vc, it, op, args, kw, res, ghost):
    if op[0] != "read":
        return
    t, calls, refused = reading(vc, it, args, res, ghost)
    if not calls:
        if res[0] == "value":
            raise Refuted("the text is not parsed")
        return
    for c in calls:
        cfg = dict(c[1][1][1])
        if cfg.get("fail_on_unknown_properties") is not True:
            raise Refuted("the parser accepts unknown elements")
    if refused and res[0] != "raised":
        raise Refuted(f"a refused text gives {res[1]!r:.100}")


def check_read(vc, it, op, args, kw, res, ghost):
    """P05/P07: the object is the parser's, unchanged but for the classes of the members of ndm."""
    if op[0] == "read":
        t, calls, refused = reading(vc, it, args, res, ghost)
        if refused:
            if res[0] != "raised":
                raise Refuted(f"a refused text gives {res[1]!r:.100}")
            return
        if len(calls) != 1:
            raise Refuted("the text is not parsed once")
        if res[0] != "value":
            raise Refuted(f"a text which can be read raises {res[1]!r:.100}")
        if t == "ndm":
            if not (isinstance(res[1], Opaque) and res[1].what == "member" and isinstance(res[1].info["of"], SObj) and res[1].info["of"].path == f"message in {args[0].pieces[0].name} (ndm)"):
                raise Unsupported("the members of ndm are taken out in another way")
        else:
            if not isinstance(res[1], SObj) or res[1].path != f"message in {args[0].pieces[0].name} ({t})":
                raise Refuted("the parsed object is not returned")
            if any(isinstance(g, Chunk) or g[0] == "class" for g in ghost):
                raise Refuted("the class of the object is changed")
        return
    calls = [g for g in ghost if g[0] == "render"]
    if res[0] != "value":
        raise Refuted(f"writing raises {res[1]!r:.100}")
    if not isinstance(res[1], Opaque) or res[1].what != "xml text" or res[1].info["of"] is not args[0]:
        raise Refuted("the rendered text is not returned")
    c = calls[-1]
    if c[3] is not args[0] or c[4]:
        raise Refuted("another object is rendered")
    for k in ("schema_location", "no_namespace_schema_location"):
        got = c[2].get(k)
        if k in kw:
            if not isinstance(got, SStr) or not it.e.same(got, kw[k]):
                raise Refuted(f"{k} {kw[k]!r} is written as {got!r}")
        elif got is not None:
            raise Refuted(f"{k} {got!r} is written, none was asked for")
    std = fields(SerializerConfig(pretty_print=True))
    for k, v in c[2].items():
        if k not in ("schema_location", "no_namespace_schema_location", "pretty_print", "indent", "pretty_print_indent", "encoding") and v != std.get(k):
            raise Refuted(f"serializer option {k} is {v!r}")


# observation of a refuted obligation through the real code ----------------------------------------
def trees(ctx):
    for i, n in enumerate(("Opm", "Aem", "Cdm")):
        yield gen.message(ctx.models, n, f"vcs_xml{i}", p=0.7)


def sequences(ctx, seq):
    """The sequence of calls which was refuted, and all short ones, as real calls on a fresh object."""
    text = ctx.xml.NdmXmlIo().to_string(next(iter(trees(ctx))))

    def do(io, i, op):
        if op[0] == "read":
            outcome_of(lambda: io.from_string(op[2] if len(op) > 2 else text))
        else:
            outcome_of(lambda: io.to_string(next(iter(trees(ctx))), **{k: f"urn:{k}{i} x.xsd" for k in op[1]}))

    ops = OPS + [("read", (), "<opm>"), ("read", (), text.replace("<body>", "<body><FOO/>"))]
    end = time.time() + 8
    for s in [seq[:-1]] + [p for n in range(3) for p in itertools.product(ops, repeat=n)]:
        io = ctx.xml.NdmXmlIo()
        for i, op in enumerate(s):
            do(io, i, op)
        yield s, io
        if time.time() > end:
            return


def see_p06(ctx, seq):
    for o in trees(ctx):
        text = ctx.xml.NdmXmlIo().to_string(o)
        for bad in (text.replace("<body>", "<body><FOO/>", 1), text.replace("<metadata>", "<metadata><FOO>1</FOO>", 1), text.replace("<header>", "<FOO/><header>", 1)):
            for s, io in sequences(ctx, seq):
                r = outcome_of(lambda: io.from_string(bad))
                if r[0] == "ok":
                    return f"after the calls {s}, a message with the unknown element FOO is accepted", {"calls": repr(s), "text": bad}
    return None


def see_p03(ctx, seq):
    for o in trees(ctx):
        text = ctx.xml.NdmXmlIo().to_string(o)
        root = type(o).Meta.name
        for tag in (root, root + "x", "x" + root, root[:-1], root.upper(), "foo"):
            t = text.replace(f"<{root} ", f"<{tag} ").replace(f"</{root}>", f"</{tag}>")
            for s, io in sequences(ctx, seq):
                r = outcome_of(lambda: io.from_string(t))
                if (r[0] == "ok") != (tag == root) or r[0] == "ok" and type(r[1]) is not type(o):
                    return f"after the calls {s}, a text with root {tag} gives {r!r:.200}", {"calls": repr(s), "text": t}
    return None


def see_read(ctx, seq):
    for o in trees(ctx):
        want = {}
        for kws in WRITES:
            kw = {k: f"urn:{k} y.xsd" for k in kws}
            want[kws] = ctx.xml.NdmXmlIo().to_string(o, **kw)
            for k in kws:
                if f'"urn:{k} y.xsd"' not in want[kws]:
                    return f"{k} is not in the text", {"keywords": kws}
            r = outcome_of(lambda: ctx.xml.NdmXmlIo().from_string(want[kws]))
            if r[0] != "ok" or r[1] != o:
                return f"the written text reads back as {r!r:.300}", {"text": want[kws]}
        for s, io in sequences(ctx, seq):
            for kws in WRITES:
                got = outcome_of(lambda: io.to_string(o, **{k: f"urn:{k} y.xsd" for k in kws}))
                if got != ("ok", want[kws]):
                    return f"after the calls {s}, writing with {kws} gives another text: {got!r:.200}", {"calls": repr(s), "got": repr(got)[:1000], "want": want[kws][:1000]}
                r = outcome_of(lambda: io.from_string(want[kws]))
                if r[0] != "ok" or r[1] != o or type(r[1]) is not type(o):
                    return f"after the calls {s}, reading gives {r!r:.200}", {"calls": repr(s)}
    return None


OBSERVE = {check_p03: see_p03, check_p06: see_p06, check_read: see_read}


def trust(ctx):
    ctx.trusted.extend(t for t in TRUSTED if t not in ctx.trusted)


def p03(ctx):
    trust(ctx)
    Glue(ctx, "NdmXmlIo.from_string: the type read is the one named by the root tag, after every history", check_p03).run()


def p05(ctx):
    trust(ctx)
    Glue(ctx, "NdmXmlIo: the tree is rendered and the parsed object returned unchanged, after every history", check_read).run()


def p06(ctx):
    trust(ctx)
    Glue(ctx, "NdmXmlIo.from_string: every text is read by a parser which refuses unknown elements, after every history", check_p06).run()


def p07(ctx):
    trust(ctx)
    Glue(ctx, "NdmXmlIo: reading and writing use only their own arguments, after every history", check_read).run()
