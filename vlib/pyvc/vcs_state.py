"""P07: frame conditions of the KVN interface and of the unified interface.

A call is independent of all earlier calls because (1) every attribute of the instance which a method may have
assigned holds an unusable value on entry, and the call still gives the result of its arguments: none of them is
read before it is written; (2) nothing else which existed before the call (the object tree, module and class
values, defaults of arguments, contents of attributes) is ever written. Both are shown for each path."""
import ast
import copy
import dataclasses
import inspect
import random
import textwrap

from .. import cases, columns, gen, kvnspec, snap
from .core import Unsupported
from .values import Opaque
from .vc import Refuted, outcome_of
from .vcs_format import ReadDispatch, WriteDispatch
from .vcs_io import FORMS, Read, Write, classes
from .vcs_reader import Reader, plain, random_shapes, shapes
from .vcs_writer import Writer


def assigned(cls):
    """The instance attributes which methods other than __init__ assign."""
    out = set()
    tree = ast.parse(textwrap.dedent(inspect.getsource(cls)))
    for fn in ast.walk(tree):
        if isinstance(fn, ast.FunctionDef) and fn.name != "__init__":
            for n in ast.walk(fn):
                if isinstance(n, ast.Attribute) and not isinstance(n.ctx, ast.Load):
                    a = n.attr
                    out.add(f"_{cls.__name__.lstrip('_')}{a}" if a.startswith("__") and not a.endswith("__") else a)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("setattr", "vars") or isinstance(n, ast.Attribute) and n.attr == "__dict__":
                    out.add(None)  # assigned in some other way
    return out


def used(it, cls):
    """An instance after any number of earlier calls."""
    io = it.call(cls, (), {})
    for a in sorted(x for x in assigned(cls) if x and x != "__class__"):
        it.setattr_(io, a, Opaque("what an earlier call has left"))
    it.frame, it.frame_ok = it.serial, {id(io)}
    it.frame_writes = it.frame_writes or set()  # kept: the paths are looked at after all have been run
    return io


def bad_read(ctx, io, o):
    """None, or what is wrong with reading the text of o."""
    text = cases.render(kvnspec.expected(o))
    st, v = outcome_of(lambda: io.from_string(text))
    if st == "exc":
        return f"reading an {type(o).__name__} raises {v!r:.200}", text
    d = cases.kvn_roundtrip_diff(ctx, o, v)
    return (f"reading an {type(o).__name__}: {d}", text) if d else None


def history(ctx, io, out):
    """Reads and writes of other messages; a wrong result goes to out."""
    if not hasattr(ctx, "earlier"):
        ctx.earlier = [gen.message(ctx.models, n, "p07h", p=0.7) for n in snap.MESSAGES] + [o for _, _, o in columns.all_columns(ctx, "p07h")]
    for o in random.sample(ctx.earlier, 6):
        w = bad_read(ctx, io, o)
        if w:
            out.append(w)
        outcome_of(lambda: io.to_string(o))
    outcome_of(lambda: io.from_string("CCSDS_OPM_VERS = 2.0\nX"))
    return io


class WriteFrame(Writer):
    def __init__(self, ctx, name):
        super().__init__(ctx, name, None)
        self.name = f"NdmKvnIo.to_string: writing an {name.upper()} changes nothing and uses nothing of earlier calls"
        self.it.write_hook = self.written
        self.tree_writes = set()

    def written(self, it, obj, what, v):
        self.tree_writes.add(f"{obj.path}.{what}")
        return True

    def body(self, it):
        io = used(it, self.ctx.kvn.NdmKvnIo)
        try:
            return it.call(io.to_string, (self.obj,), {})
        except Unsupported as x:
            return x

    def post(self, it, outcome):
        w = sorted(self.tree_writes | it.frame_writes)
        if w:
            raise Refuted(f"writes to {', '.join(w)[:200]}")
        if outcome[0] != "ok":
            raise Refuted(f"raises {outcome[1]!r:.200}")
        if isinstance(outcome[1], Unsupported):
            raise Refuted(f"not decided: {outcome[1]}")

    def crosscheck(self, store, outcome):
        return 1 if self.tree_writes or self.it.frame_writes else super().crosscheck(store, outcome)

    def instance(self, store, outcome, show=True):
        return super().instance(store, ("exc", None) if isinstance(outcome[1], Unsupported) else outcome, show)

    def see(self, obj):
        before = copy.deepcopy(obj)
        io = self.ctx.kvn.NdmKvnIo()
        a = outcome_of(lambda: io.to_string(obj))
        if obj != before or repr(obj) != repr(before):
            return "writing changes the object"
        new = self.ctx.kvn.NdmKvnIo
        for r in (io, history(self.ctx, new(), []), history(self.ctx, io, []), new()):
            b = outcome_of(lambda: r.to_string(obj))
            if (a[0], str(a[1])) != (b[0], str(b[1])):
                return f"writing the same object again gives another result: {b!r:.200} instead of {a!r:.200}"
        return None


class ReadFrame(Reader):
    eager = False

    def __init__(self, ctx, key, obj):
        super().__init__(ctx, f"NdmKvnIo.from_string: reading {key} changes nothing and uses nothing of earlier calls", obj, plain, None)
        self.samples = 1
        self.shown = None
        self.old = {}

    def body(self, it):
        io = used(it, self.ctx.kvn.NdmKvnIo)
        frame = it.frame
        try:
            r = it.call(io.from_string, (self.text,), {})
        except Unsupported as x:
            return x
        if dataclasses.is_dataclass(r):
            self.old[id(r)] = (r, [type(o).__name__ for o in self.parts_of(r) if it.age(o) <= frame])
        return r

    def post(self, it, outcome):
        w = sorted(it.frame_writes)
        if w:
            raise Refuted(f"writes to {', '.join(w)[:200]}")
        if isinstance(outcome[1], Unsupported):
            raise Refuted(f"not decided: {outcome[1]}")
        super().post(it, outcome)
        if id(outcome[1]) not in self.old:
            raise Refuted(f"the result is {outcome[1]!r:.100}")
        old = self.old[id(outcome[1])][1]
        if old:
            raise Refuted(f"the result holds {old[0]} which existed before")

    def agree(self, smp, outcome, nat):
        return isinstance(outcome[1], Unsupported) or super().agree(smp, outcome, nat)

    def parts_of(self, o):
        yield o
        for x in o if isinstance(o, list) else [getattr(o, f.name) for f in dataclasses.fields(o) if f.init]:
            if isinstance(x, list) or dataclasses.is_dataclass(x):
                yield from self.parts_of(x)

    def wrong(self, smp, nat):
        from ..props import p07

        text = smp.text(self.text)
        new, bad = self.ctx.kvn.NdmKvnIo, []
        h = history(self.ctx, new(), bad)
        outs = [outcome_of(lambda: r.from_string(text)) for r in (h, history(self.ctx, new(), bad), h, new(), new())]
        if bad:
            self.shown = bad[0][1]
            return f"after other calls, {bad[0][0]}"
        a = (nat[0], repr(nat[1]))
        for b in outs:
            if (b[0], repr(b[1])) != a:
                return f"reading the same text again gives another result: {b!r:.200} instead of {nat!r:.200}"
        if nat[0] == "ok":
            ids = [p07.mutable_ids(b[1]) for b in outs]
            if any(set(x) & set(y) for i, x in enumerate(ids) for y in ids[:i]):
                return "two reads share a part of their results"
        return None

    def data(self, smp):
        return {"text": smp.text(self.text), "other": self.shown}


class Framed:
    """The contract of P01 or P02 holds on an instance with any history, and nothing older than the call is written."""

    native = None

    def __init__(self, ctx, *a, **k):
        super().__init__(ctx, *a, **k)
        self.name = self.name.split(":")[0] + ": changes nothing and uses nothing of earlier calls"

    def new(self, it, cls):
        return used(it, cls)

    def body(self, it):
        try:
            return super().body(it)
        except Unsupported as x:
            return x

    def post(self, it, outcome):
        w = sorted(it.frame_writes)
        if w:
            raise Refuted(f"writes to {', '.join(w)[:200]}")
        if isinstance(outcome[1], Unsupported):
            raise Refuted(f"not decided: {outcome[1]}")
        super().post(it, outcome)

    def observe(self, store, outcome, why):
        from ..props import p07

        for what, data in p07.again(self.ctx, getattr(self, "cls", self.ctx.io.NdmIo), getattr(self, "method", None) or ("to_file" if isinstance(self, Write) else "from_string")):
            return f"{why}: {what}", data
        return None


class FramedReadDispatch(Framed, ReadDispatch):
    pass


class FramedWriteDispatch(Framed, WriteDispatch):
    pass


class FramedRead(Framed, Read):
    pass


class FramedWrite(Framed, Write):
    pass


def p07(ctx):
    FramedReadDispatch(ctx).run()
    for f in ("XML", "KVN", "JSON"):
        FramedWriteDispatch(ctx, "to_string", f).run()
    for n, c in classes(ctx).items():
        for form in FORMS:
            FramedRead(ctx, n, "from_path", form).run()
            if n == "NdmIo":
                for f in ("XML", "KVN", "JSON"):
                    FramedWrite(ctx, n, form, True, fmt=f).run()
            else:
                FramedWrite(ctx, n, form, True).run()
        if hasattr(c, "from_bytes"):
            FramedRead(ctx, n, "from_bytes").run()
    for n in snap.MESSAGES:
        WriteFrame(ctx, n).run()
    shapes(ctx, [(lambda key=key, obj=obj: ReadFrame(ctx, key, obj)) for key, obj in random_shapes(ctx, "p07v", ctx.n(1, 5), probs=(0.0, 0.3, 1.0))])
