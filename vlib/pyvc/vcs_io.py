"""P02: entry points.  Files are a ghost map from paths to contents; the text reader and writer of the
class are taken by contract (a reader maps its text to a result, a writer its arguments to a text or a refusal)."""
import builtins
import inspect
import io as stdio
import os
import pathlib
import tempfile
from pathlib import Path

from .core import PyExc, SStr, Unsupported
from .interp import MISSING, Callable_
from .values import Opaque
from .vc import VC, Refuted, outcome_of


def kind_of(it, v):
    """The path token of a str, Path or path-like argument."""
    v = it.force(v)
    if isinstance(v, Opaque) and v.info.get("path"):
        return v
    return None


UTF8 = ("utf8", "u8", "utf", "cp65001")


class Files:
    """The ghost file system: one path; state = (exists, content)."""

    def __init__(self, it, content, form):
        self.it = it
        self.path_obj = Opaque("path", path=True, type=pathlib.PosixPath, attr=self.attr)
        if form == "Path":
            self.tok = self.path_obj
        else:
            self.tok = Opaque("path", path=True, type=str if form == "str" else Like, attr=self.no_attr)
        self.start = content
        it.stubs[Path] = it.stubs[pathlib.PosixPath] = it.stubs[pathlib.PurePath] = self.path
        it.stubs[builtins.open] = it.stubs[stdio.open] = self.open
        it.stubs[os.fspath] = it.stubs[os.fsdecode] = self.path
        it.stubs[os.path.expanduser] = self.path
        it.stubs[str] = lambda i, a, k: self.path(i, a, k) if a and kind_of(i, a[0]) is not None else i.str(i.force(a[0])) if a else ""

    def now(self):
        """What the file holds (None: it does not exist)."""
        cur = self.start
        for g in self.it.ghost:
            if g[0] == "file":
                cur = g[1]
        return cur

    def put(self, text):
        self.it.append(self.it.ghost, [("file", text)])

    def path(self, it, a, k):
        if len(a) != 1 or k or kind_of(it, a[0]) is None:
            raise Unsupported("other path")
        return self.path_obj

    def no_attr(self, it, o, name, default):
        if name == "__fspath__" and o.info["type"] is Like:
            return Callable_(lambda i, a, k: self.path_obj)
        if o.info["type"] is str and hasattr(str, name):
            raise Unsupported(f"{name} of a path")
        if default is not MISSING:
            return default
        raise PyExc(AttributeError(name))

    def coded(self, text, enc=None, errors=None, newline=None, default=None):
        """What a text (as UTF-8 bytes) becomes when it is decoded with this encoding.  The encoding of
        the locale is not known: another encoding gives the same text only for ASCII characters."""
        name = str(enc or default or "locale").lower().replace("_", "").replace("-", "").replace(" ", "")
        if errors not in (None, "strict", "ignore", "replace", "backslashreplace"):
            raise Unsupported(f"errors={errors}")
        if newline not in (None, "", "\n"):
            raise Unsupported("newline")
        if name in UTF8:
            return text
        if isinstance(text, str) and text.isascii():
            return text
        if name == "utf8sig":
            if self.it.e.startswith(text, "\ufeff"):
                return self.it.e.cut(text, 1)[1]
            return text
        if name in ("ascii", "usascii", "latin1", "iso88591", "iso8859", "l1", "cp1252", "locale"):
            k = ("ascii", tuple(id(x) for x in self.it.e.ps(text)))
            if self.it.e.key(k, (True, False), "only ASCII characters"):
                return text
            if name in ("ascii", "usascii") and errors in (None, "strict"):
                raise PyExc(UnicodeDecodeError("ascii", b"\xc3", 0, 1, "ordinal not in range(128)"))
            return SStr(self.it.e.fresh("text decoded as " + name, "text", excl="\r"))
        raise Unsupported(f"encoding {enc}")

    def written(self, text, *a, **k):
        """What is read back, as UTF-8, from a file written with this encoding."""
        name = str((a or (None,))[0] or k.get("enc") or "locale").lower().replace("_", "").replace("-", "")
        if name == "utf8sig":
            return self.it.e.concat("\ufeff", text)
        return self.coded(text, *a, **k)

    @staticmethod
    def named(a, k, default="locale"):
        return dict(zip(("enc", "errors", "newline"), a)) | {"enc" if n == "encoding" else n: v for n, v in k.items()} | {"default": default}

    def need(self):
        c = self.now()
        if c is None:
            raise PyExc(FileNotFoundError("no such file"))
        return c

    def attr(self, it, o, name, default):
        def read_text(i, a, k):
            return self.coded(self.need(), **self.named(a, k))

        def write_text(i, a, k):
            a = list(a)
            data = a.pop(0) if a else k.pop("data")
            self.put(self.written(data, **self.named(a, k)))
            return Opaque("count")

        def read_bytes(i, a, k):
            return self.bytes(self.need())

        def write_bytes(i, a, k):
            b = i.force(a[0])
            if not isinstance(b, Opaque) or "text" not in b.info:
                raise Unsupported("bytes")
            self.put(b.info["text"])
            return Opaque("count")

        def opened(i, a, k):
            return self.open(i, (o,) + tuple(a), k)

        same = lambda i, a, k: self.path_obj
        table = {"read_text": read_text, "write_text": write_text, "read_bytes": read_bytes, "write_bytes": write_bytes, "open": opened, "__fspath__": same, "expanduser": same,
                 "exists": lambda i, a, k: self.now() is not None, "is_file": lambda i, a, k: self.now() is not None}
        if name not in table:
            raise Unsupported(f"{name} of a path")
        return Callable_(table[name])

    def bytes(self, text):
        def decode(it, o, *a, **k):
            return self.coded(o.info["text"], **self.named(a, k, "utf-8"))

        return Opaque("bytes", text=text, type=bytes, methods={"decode": decode})

    def open(self, it, a, k):
        names = ["file", "mode", "buffering", "enc", "errors", "newline"]
        b = dict(zip(names, a))
        b.update({"enc" if n == "encoding" else n: v for n, v in k.items()})
        mode = b.get("mode", "r").replace("t", "")
        if kind_of(it, b["file"]) is None:
            raise Unsupported("other file")
        binary = "b" in mode
        mode = mode.replace("b", "")
        coding = {n: b.get(n) for n in ("enc", "errors", "newline")}
        if binary:
            coding = {"enc": "utf-8"}
        st = it.vlist([0, mode])  # position is kept as the text not yet read
        if mode == "r":
            rest = it.vlist([self.coded(self.need(), **coding)])
        elif mode in ("w", "x"):
            if mode == "x" and self.now() is not None:
                raise PyExc(FileExistsError("file exists"))
            self.put("")
            rest = it.vlist([""])
        elif mode == "a":
            if self.now() is None:
                self.put("")
            rest = it.vlist([""])
        else:
            raise Unsupported(f"mode {mode}")
        text = lambda i, v: i.force(v).info["text"] if binary else i.force(v)

        def read(i, o, n=-1):
            if mode != "r":
                raise Unsupported("read")
            cur = rest[0]
            if n is None or n == -1:
                i.replace(rest, [""])
                return self.bytes(cur) if binary else cur
            if not isinstance(n, int):
                raise Unsupported("read(n)")
            a_, b_ = i.e.cut(cur, n)  # n bytes or characters: characters for a lower bound of what is read
            i.replace(rest, [b_])
            return self.bytes(a_) if binary else a_

        def write(i, o, s):
            if mode == "r":
                raise Unsupported("write")
            self.put(i.e.concat(self.now(), self.written(text(i, s), **coding)))
            return Opaque("count")

        def writelines(i, o, ls):
            for s in i.iterate(ls):
                write(i, o, s)

        return Opaque("file", methods={"read": read, "write": write, "writelines": writelines, "close": lambda i, o: None, "flush": lambda i, o: None, "__enter__": lambda i, o: o, "__exit__": lambda i, o, *x: False})


class Like:
    def __init__(self, p):
        self.p = str(p)

    def __fspath__(self):
        return self.p


FORMS = {"str": str, "Path": Path, "PathLike": Like}


def classes(ctx):
    return {"NdmIo": ctx.io.NdmIo, "NdmKvnIo": ctx.kvn.NdmKvnIo, "NdmXmlIo": ctx.xml.NdmXmlIo}


class Read(VC):
    """from_path and from_bytes pass exactly the text to from_string and return its result."""

    def __init__(self, ctx, cname, method, form=None):
        super().__init__(ctx, f"{cname}.{method}" + (f" ({form})" if form else "") + ": the reader gets exactly the text", samples=2)
        self.cls, self.method, self.form = classes(ctx)[cname], method, form
        self.text = SStr(self.e.fresh("contents", "text", excl="\r"))
        self.files = Files(self.it, self.text, form or "str")
        self.it.stubs[f"{cname}.from_string"] = self.reader

    def reader(self, it, args, kw):
        if len(args) + len(kw) != 2:
            raise Unsupported("from_string with other arguments")
        it.append(it.ghost, [("read", args[1] if len(args) > 1 else next(iter(kw.values())))])
        if it.e.choose(2, "refused") == 1:
            it.e.setkey(("refused",), True)
            raise PyExc(ValueError("refused by from_string"))
        return Opaque("message")

    def body(self, it):
        arg = self.files.tok if self.form else self.files.bytes(self.text)
        try:
            v = ("value", it.call(getattr(self.new(it, self.cls), self.method), (arg,), {}))
        except PyExc as x:
            v = ("raised", x.exc)
        return v, list(it.ghost)

    def post(self, it, outcome):
        if outcome[0] != "ok":
            raise Refuted(f"raises {outcome[1]!r:.100}")
        (kind, v), ghost = outcome[1]
        if any(g[0] == "file" for g in ghost):
            raise Refuted("the file is changed")
        reads = [g[1] for g in ghost if g[0] == "read"]
        if not reads:
            raise Refuted(f"nothing is read: {kind} {v!r:.100}")
        if len(reads) != 1:
            raise Unsupported("read several times")
        if not it.e.same(reads[0], self.text) and not it.e.eq(reads[0], self.text):
            raise Refuted("the reader does not get the whole text")
        if it.e.store.keys.get(("refused",)):
            if kind != "raised" or not isinstance(v, ValueError):
                raise Refuted("a refusal of the text is not passed on")
        elif kind != "value" or not (isinstance(v, Opaque) and v.what == "message"):
            raise Refuted("the result of the reader is not returned")

    def native(self, smp, it):
        text = smp.text(self.text)
        cls, got = self.cls, []
        res = object()
        refuse = smp.s.keys.get(("refused",))

        class Stand(cls):
            def from_string(self, s):
                got.append(s)
                if refuse:
                    raise ValueError("refused by from_string")
                return res

        with tempfile.TemporaryDirectory(prefix="p02-") as d:
            if self.form:
                p = Path(d) / "in.txt"
                p.write_bytes(text.encode("utf-8"))
                arg = FORMS[self.form](p)
            else:
                arg = text.encode("utf-8")
            o = outcome_of(lambda: getattr(Stand(), self.method)(arg))
        return o, got, res, text, refuse

    def agree(self, smp, outcome, nat):
        (kind, v), ghost = outcome[1]
        return (kind == "value") == (nat[0][0] == "ok") and [smp.text(g[1]) for g in ghost if g[0] == "read"] == nat[1]

    def wrong(self, smp, nat):
        (st, v), got, res, text, refuse = nat
        if got != [text]:
            w = observe_read(self.ctx, self.cls, self.method, self.form, len(text))
            if w is None:
                return None  # what is passed on differs, but no difference can be observed
            return w + f"; of a text of {len(text)} characters the reader gets {[len(g) for g in got]}" + (f": {text!r:.100} -> {got!r:.100}" if len(text) < 200 else "")
        if refuse:
            return None if st == "exc" and isinstance(v, ValueError) else f"refusal becomes {st} {v!r:.100}"
        return None if st == "ok" and v is res else f"the reader's result is not returned: {st} {v!r:.100}"

    def data(self, smp):
        t = smp.text(self.text)
        return {"length": len(t), "text": t[:500]}


def observe_read(ctx, cls, method, form, length):
    """Reading a file or bytes against reading the text, with valid messages."""
    from .. import gen

    out = []
    m = ctx.models
    for w, r in ((ctx.kvn.NdmKvnIo, "KVN"), (ctx.xml.NdmXmlIo, "XML")):
        if cls not in (w, ctx.io.NdmIo):
            continue
        for k in range(3):
            obj = gen.message(m, ("Opm", "Oem", "Apm")[k], f"observe{k}", p=0.8, comments=True)
            obj.header.comment = ["Ünï Δv 空", " x ".strip()]
            if length > 50000:
                obj.header.comment += ["y" * 70] * (length // 70 + 20)
            t = w().to_string(obj)
            out += [t] if length > 50000 else [t, "\n \t" + t + " \n\n", t[:-5], "x" + t, t.replace("\n", "\n\n"), t.rstrip(), "", "\ufeff" + t]
    for t in out:
        want = outcome_of(lambda: cls().from_string(t))
        with tempfile.TemporaryDirectory(prefix="p02-") as d:
            p = Path(d) / "in.txt"
            p.write_bytes(t.encode("utf-8"))
            got = outcome_of(lambda: getattr(cls(), method)(FORMS[form](p) if form else t.encode("utf-8")))
        if want[0] != got[0] or want[0] == "ok" and want[1] != got[1] or want[0] == "exc" and type(want[1]) is not type(got[1]):
            return f"{method} of {t[:60]!r}... ({len(t)} characters) gives {got!r:.150}, reading the text gives {want!r:.150}"
    return None


class Write(VC):
    """to_file leaves in the file what to_string returns for the same arguments; a refusal leaves the file alone."""

    def __init__(self, ctx, cname, form, existing, kws=(), fmt=None):
        super().__init__(ctx, f"{cname}.to_file ({form}, {'existing' if existing else 'new'} file{', ' + fmt if fmt else ''}{', ' + ' and '.join(kws) if kws else ''}): the file holds what to_string returns", samples=2)
        self.cname, self.cls, self.form, self.existing, self.fmt = cname, classes(ctx)[cname], form, existing, fmt
        self.obj = Opaque("object tree")
        self.kw = {k: SStr(self.e.fresh(k, "key", nonempty=True, nows=True)) for k in kws}
        self.files = Files(self.it, SStr(self.e.fresh("old contents", "text", excl="\r")) if existing else None, form)
        self.out = SStr(self.e.fresh("written text", "text", excl="\r"))
        for n, c in classes(ctx).items():
            self.it.stubs[f"{n}.to_string"] = lambda it, a, k, n=n, c=c: self.writer(it, n, c, a, k)

    def writer(self, it, n, c, a, k):
        """The contract of to_string: the same text for the same arguments."""
        b = inspect.signature(c.to_string).bind(*a, **k)
        b.apply_defaults()
        got = dict(b.arguments)
        got.pop("self")
        it.append(it.ghost, [("to_string", n, got)])
        if self.fmt == "JSON" and n == "NdmIo" or it.e.key(("refused",), (False, True)):
            raise PyExc(NotImplementedError("refused by to_string"))
        return self.out

    def good(self, it, call):
        n, got = call[1], dict(call[2])
        if got.pop("ndm_obj") is not self.obj:
            return False
        if n == "NdmIo":
            if n != self.cname or got.pop("data_format", None) is not self.ctx.io.NDMFileFormats[self.fmt]:
                return False
            got = got.pop("kwargs", {})
        elif n != self.cname and n != {"KVN": "NdmKvnIo", "XML": "NdmXmlIo"}.get(self.fmt):
            return False
        got = {k: v for k, v in got.items() if v is not None}
        return set(got) == set(self.kw) and all(it.e.same(got[k], self.kw[k]) if isinstance(got[k], SStr) else False for k in got)

    def args(self, obj, path):
        return (obj, path) if self.fmt is None else (obj, self.ctx.io.NDMFileFormats[self.fmt], path)

    def body(self, it):
        try:
            v = ("value", it.call(self.new(it, self.cls).to_file, self.args(self.obj, self.files.tok), dict(self.kw)))
        except PyExc as x:
            v = ("raised", x.exc)
        return v, list(it.ghost)

    def post(self, it, outcome):
        if outcome[0] != "ok":
            raise Refuted(f"raises {outcome[1]!r:.100}")
        (kind, v), ghost = outcome[1]
        calls = [g for g in ghost if g[0] == "to_string"]
        for c in calls:
            if not self.good(it, c):
                raise Refuted(f"to_string is called with other arguments: {c[2]!r:.200}")
        if self.fmt == "JSON" or it.e.store.keys.get(("refused",)):
            if kind != "raised" or not isinstance(v, NotImplementedError):
                raise Refuted(f"a refused conversion gives {kind} {v!r:.100}")
            if any(g[0] == "file" for g in ghost):
                raise Refuted("a refused conversion changes the file")
            return
        if kind != "value":
            raise Refuted(f"raises {v!r:.100}")
        end = self.files.start
        for g in ghost:
            if g[0] == "file":
                end = g[1]
        if end is None:
            raise Refuted("no file is written")
        if not it.e.same(end, self.out) and not it.e.eq(end, self.out):
            raise Refuted("the file does not hold the text")

    def native(self, smp, it, mark=False):
        out, old = smp.text(self.out), smp.text(self.files.start) if self.existing else None
        refuse = smp.s.keys.get(("refused",))
        ctx, calls = self.ctx, []
        saved = {}
        kw = {k: smp.text(v) for k, v in self.kw.items()}
        obj = ctx.models.Opm
        try:
            for n, c in classes(ctx).items():
                saved[c] = c.to_string

                def w(self_, *a, n=n, orig=c.to_string, **k):
                    if n == "NdmIo":
                        return orig(self_, *a, **k)
                    b = inspect.signature(orig).bind(self_, *a, **k)
                    calls.append((n, {x: y for x, y in b.arguments.items() if x != "self" and y is not None}))
                    if refuse:
                        raise NotImplementedError("refused by to_string")
                    return out + (repr(b.arguments.get("ndm_obj")) + repr(sorted((x, y) for x, y in b.arguments.items() if x not in ("self", "ndm_obj") and y is not None)) if mark else "")

                c.to_string = w
            with tempfile.TemporaryDirectory(prefix="p02-") as d:
                p = Path(d) / "out.txt"
                if old is not None:
                    p.write_bytes(old.encode("utf-8"))
                o = outcome_of(lambda: self.cls().to_file(*self.args(obj, FORMS[self.form](p)), **kw))
                end = p.read_bytes().decode("utf-8") if p.exists() else None
        finally:
            for c, f in saved.items():
                c.to_string = f
        return o, calls, end, (out, old, kw, obj, refuse)

    def agree(self, smp, outcome, nat):
        (kind, v), ghost = outcome[1]
        end = self.files.start
        for g in ghost:
            if g[0] == "file":
                end = g[1]
        return (kind == "value") == (nat[0][0] == "ok") and (None if end is None else smp.text(end)) == nat[2]

    def wrong(self, smp, nat):
        (st, v), calls, end, (out, old, kw, obj, refuse) = nat
        if self.fmt == "JSON" or refuse:
            if st != "exc" or not isinstance(v, NotImplementedError):
                return f"a refused conversion gives {st} {v!r:.100}"
            return None if end == old else f"a refused conversion left {end!r:.100} in the file which held {old!r:.100}"
        if st != "ok":
            return f"raises {v!r:.100}"
        if not calls:
            return None  # another way of conversion: not decided here
        end = self.native(smp, self.it, mark=True)[2]
        out += repr(obj) + repr(sorted(kw.items()))
        return None if end == out else f"the file holds {end!r:.100} instead of {out!r:.100}"

    def data(self, smp):
        return {"text": smp.text(self.out)[:200], "keywords": {k: smp.text(v) for k, v in self.kw.items()}, "form": self.form}


def p02(ctx):
    for c in classes(ctx):
        for form in FORMS:
            Read(ctx, c, "from_path", form).run()
        if hasattr(classes(ctx)[c], "from_bytes"):
            Read(ctx, c, "from_bytes").run()
    loc = [(), ("schema_location",), ("no_namespace_schema_location",), ("schema_location", "no_namespace_schema_location")]
    for form in FORMS:
        for existing in (False, True):
            Write(ctx, "NdmKvnIo", form, existing).run()
            Write(ctx, "NdmIo", form, existing, fmt="KVN").run()
            Write(ctx, "NdmIo", form, existing, fmt="JSON").run()
            for kws in loc:
                Write(ctx, "NdmXmlIo", form, existing, kws).run()
                Write(ctx, "NdmIo", form, existing, kws, fmt="XML").run()
