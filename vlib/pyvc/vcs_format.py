"""P01: recognition of the format, and dispatch on it."""
from .core import SStr
from .interp import Callable_
from .values import Opaque
from .vc import VC, Refuted, outcome_of


def spec_format(text):
    t = text.strip()
    if t.startswith("CCSDS_"):
        return "KVN"
    if t.startswith("<") and t.endswith(">"):
        return "XML"
    if t.startswith("[") and t.endswith("]"):
        return "JSON"
    return None


def spec_format_sym(e, s):
    t = e.rstrip(e.lstrip(s))
    if e.startswith(t, "CCSDS_"):
        return "KVN"
    if e.startswith(t, "<") and e.endswith(t, ">"):
        return "XML"
    if e.startswith(t, "[") and e.endswith(t, "]"):
        return "JSON"
    return None


class Recording:
    """Stand-ins for the two format-specific classes: they record how they are called."""

    def __init__(self, io):
        self.io = io

    def __enter__(self):
        self.calls = calls = []
        self.saved = (self.io.NdmXmlIo, self.io.NdmKvnIo)
        for kind, name in (("XML", "NdmXmlIo"), ("KVN", "NdmKvnIo")):
            def mk(kind=kind):
                class Stand:
                    def __getattr__(self, m):
                        def f(*a, **k):
                            calls.append((kind, m, a, k))
                            return ("result of", kind, m)

                        return f

                return Stand

            setattr(self.io, name, mk())
        return self

    def __exit__(self, *a):
        self.io.NdmXmlIo, self.io.NdmKvnIo = self.saved


def stub_formats(it, ctx):
    """Calls of the format-specific readers and writers are taken by contract: they are only recorded."""
    def mk(kind):
        def construct(i, a, k):
            def attr(i2, o, name, default):
                def call(i3, args, kw):
                    i3.append(i3.ghost, [("call", kind, name, args, kw)])
                    return Opaque("result", of=(kind, name))

                return Callable_(call)

            return Opaque(kind, attr=attr)

        return construct

    it.stubs[ctx.io.NdmXmlIo] = mk("XML")
    it.stubs[ctx.io.NdmKvnIo] = mk("KVN")


class ReadDispatch(VC):
    def __init__(self, ctx):
        super().__init__(ctx, "NdmIo.from_string: for every text, dispatch and refusals", samples=4)
        self.v = self.e.fresh("source", "line")
        self.src = SStr(self.v)
        stub_formats(self.it, ctx)

    def body(self, it):
        io = self.new(it, self.ctx.io.NdmIo)
        try:
            return ("value", it.call(io.from_string, (self.src,), {}), list(it.ghost))
        except Exception as x:
            if type(x).__name__ == "PyExc":
                return ("raised", type(x.exc).__name__, list(it.ghost))
            raise

    def post(self, it, outcome):
        if outcome[0] != "ok":
            raise Refuted("unexpected outcome")
        kind, val, calls = outcome[1]
        want = spec_format_sym(it.e, self.src)
        calls = [c for c in calls if c[0] == "call"]
        if want in ("KVN", "XML"):
            if kind != "value":
                raise Refuted(f"{want} text is refused with {val}")
            if [(c[1], c[2]) for c in calls] != [(want, "from_string")]:
                raise Refuted(f"{want} text is passed to {[(c[1], c[2]) for c in calls]}")
            c = calls[0]
            arg = c[3][0] if c[3] else next(iter(c[4].values()))
            if not it.e.same(arg, self.src):
                raise Refuted("the reader does not get the text of the caller")
            if not (isinstance(val, Opaque) and val.info.get("of") == (want, "from_string")):
                raise Refuted("the result of the reader is not returned")
        else:
            exc = "NotImplementedError" if want == "JSON" else "ValueError"
            if kind != "raised" or val != exc:
                raise Refuted(f"a {want or 'unrecognisable'} text is not refused with {exc} but {kind} {val}")

    def native(self, smp, it):
        text = smp.text(self.src)
        with Recording(self.ctx.io) as r:
            o = outcome_of(lambda: self.ctx.io.NdmIo().from_string(text))
        return o, r.calls

    def agree(self, smp, outcome, nat):
        (st, val), calls = nat
        kind, v, ghost = outcome[1]
        return (st == "ok") == (kind == "value") and (st == "ok" or type(val).__name__ == v) and len(calls) == len(ghost) and all(c[0] == g[1] for c, g in zip(calls, ghost))

    def wrong(self, smp, nat):
        text = smp.text(self.src)
        (st, val), calls = nat
        want = spec_format(text)
        if want in ("KVN", "XML"):
            if st != "ok":
                return f"{text!r} is refused with {type(val).__name__}"
            if len(calls) != 1 or calls[0][:2] != (want, "from_string") or (list(calls[0][2]) + list(calls[0][3].values()))[0] != text:
                return f"{text!r} leads to {calls!r:.300}"
            if val != ("result of", want, "from_string"):
                return f"{text!r}: the reader's result is not returned"
            return None
        exc = "NotImplementedError" if want == "JSON" else "ValueError"
        if st == "ok" or type(val).__name__ != exc:
            return f"{text!r} gives {val!r:.200} instead of {exc}"
        return None

    def data(self, smp):
        return {"input": smp.text(self.src)}


class WriteDispatch(VC):
    """to_string / to_file for each requested format."""

    def __init__(self, ctx, method, fmt):
        super().__init__(ctx, f"NdmIo.{method}: {fmt} output dispatch", samples=1)
        self.method, self.fmt = method, fmt
        self.obj = Opaque("object tree")
        self.kw = {"schema_location": SStr(self.e.fresh("location", "text"))} if fmt == "XML" else {}
        self.path = Opaque("path")
        stub_formats(self.it, ctx)

    def args(self, obj, fmt, path):
        return (obj, fmt) if self.method == "to_string" else (obj, fmt, path)

    def body(self, it):
        io = self.ctx.io
        try:
            return ("value", it.call(getattr(self.new(it, io.NdmIo), self.method), self.args(self.obj, io.NDMFileFormats[self.fmt], self.path), dict(self.kw)), list(it.ghost))
        except Exception as x:
            if type(x).__name__ == "PyExc":
                return ("raised", type(x.exc).__name__, list(it.ghost))
            raise

    def post(self, it, outcome):
        if outcome[0] != "ok":
            raise Refuted("unexpected outcome")
        kind, val, calls = outcome[1]
        calls = [c for c in calls if c[0] == "call"]
        if self.fmt == "JSON":
            if kind != "raised" or val != "NotImplementedError" or calls:
                raise Refuted(f"JSON output gives {kind} {val}")
            return
        want = (self.fmt, self.method)
        if kind != "value" or [(c[1], c[2]) for c in calls] != [want]:
            raise Refuted(f"{kind} {val}, calls {[(c[1], c[2]) for c in calls]}")
        given = list(calls[0][3]) + list(calls[0][4].values())
        if not given or given[0] is not self.obj or (self.method == "to_file" and not any(g is self.path for g in given)):
            raise Refuted("other arguments are passed on")
        for k, v in self.kw.items():
            if k not in calls[0][4] or not it.e.same(calls[0][4][k], v):
                raise Refuted(f"{k} is not passed on")
        if self.method == "to_string" and not (isinstance(val, Opaque) and val.info.get("of") == want):
            raise Refuted("the result of the writer is not returned")

    def native(self, smp, it):
        io = self.ctx.io
        obj = object()
        self.nobj = obj
        kw = {k: smp.text(v) for k, v in self.kw.items()}
        self.nkw = kw
        with Recording(io) as r:
            o = outcome_of(lambda: getattr(io.NdmIo(), self.method)(*self.args(obj, io.NDMFileFormats[self.fmt], "PATH"), **kw))
        return o, r.calls

    def agree(self, smp, outcome, nat):
        return (nat[0][0] == "ok") == (outcome[1][0] == "value") and len(nat[1]) == len(outcome[1][2])

    def wrong(self, smp, nat):
        (st, val), calls = nat
        if self.fmt == "JSON":
            return None if st == "exc" and isinstance(val, NotImplementedError) and not calls else f"JSON output gives {st} {val!r} {calls}"
        if st != "ok" or len(calls) != 1 or calls[0][:2] != (self.fmt, self.method):
            return f"{st} {val!r:.100}, calls {calls!r:.200}"
        given = list(calls[0][2]) + list(calls[0][3].values())
        if given[0] is not self.nobj or self.method == "to_file" and "PATH" not in given or any(calls[0][3].get(k) != v for k, v in self.nkw.items()):
            return f"calls {calls!r:.200}"
        if self.method == "to_string" and val != ("result of", self.fmt, "to_string"):
            return "result is not returned"
        return None


def p01(ctx):
    ReadDispatch(ctx).run()
    for m in ("to_string", "to_file"):
        for f in ("XML", "KVN", "JSON"):
            WriteDispatch(ctx, m, f).run()
