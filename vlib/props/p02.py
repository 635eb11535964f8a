"""P02 entry points agree."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from pathlib import Path

from .. import cases, gen, kvnspec
from ..report import outcome
from ..verify import prove

RULE = "one case per message, format, entry point and form of the path; distinct by that tuple"


class Like:
    """A path-like object which is not a pathlib path."""

    def __init__(self, p):
        self.p = str(p)

    def __fspath__(self):
        return self.p


def run(ctx):
    prove(ctx)
    d = tempfile.mkdtemp(prefix="p02-")
    try:
        _run(ctx, Path(d))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def _run(ctx, d):
    m, io, kvn, xml = ctx.models, ctx.io, ctx.kvn, ctx.xml
    F = io.NDMFileFormats
    forms = {"str": str, "Path": Path, "PathLike": Like}
    large(ctx, d)
    odd(ctx, d)
    locales(ctx, d)
    n = 0
    for key, name, obj in cases.seeds(ctx, ctx.n(2, 15), tag="p02", probs=(0.3, 0.7)):
        for fmt, cls in ((F.KVN, kvn.NdmKvnIo), (F.XML, xml.NdmXmlIo)):
            text = outcome(lambda: cls().to_string(obj))
            if text[0] == "err":
                continue
            text = text[1]
            ref = outcome(lambda: cls().from_string(text))
            p = d / f"in {n} é.txt"
            n += 1
            p.write_bytes(text.encode("utf-8"))
            readers = {"unified": io.NdmIo, cls.__name__: cls}
            for rn, r in readers.items():
                for fn, form in forms.items():
                    ctx.case((key, fmt.name, rn, fn), sample={"message": key, "reader": rn, "path": fn})
                    got = outcome(lambda: r().from_path(form(p)))
                    ctx.expect(got[:2] == ref[:2] if ref[0] == "err" else got == ref, f"{rn}.from_path({fn}) of {key} ({fmt.name}) gave {str(got)[:200]}, reading the text gave {str(ref)[:200]}", text=text)
                if hasattr(r, "from_bytes"):
                    ctx.case((key, fmt.name, rn, "bytes"))
                    got = outcome(lambda: r().from_bytes(text.encode("utf-8")))
                    ctx.expect(got[:2] == ref[:2] if ref[0] == "err" else got == ref, f"{rn}.from_bytes of {key} ({fmt.name}) gave {str(got)[:200]}, reading the text gave {str(ref)[:200]}", text=text)
            kws = [{}]
            if fmt is F.XML:
                kws += [{"schema_location": "urn:x a.xsd"}, {"no_namespace_schema_location": "b.xsd"}, {"schema_location": "urn:x a.xsd", "no_namespace_schema_location": "b.xsd"}]
            for wn, w in readers.items():
                for kw in kws:
                    want = w().to_string(obj, **kw) if wn != "unified" else w().to_string(obj, fmt, **kw)
                    if kw:
                        ctx.expect(all(f'{v}"' in want for v in kw.values()), f"{wn}.to_string of {key} does not contain the schema locations {kw}")
                    for fn, form in forms.items():
                        q = d / "out.txt"
                        q.write_text("old contents " * 5000)
                        ctx.case((key, fmt.name, wn, fn, "write", tuple(kw)))
                        got = outcome(lambda: w().to_file(obj, form(q), **kw) if wn != "unified" else w().to_file(obj, fmt, form(q), **kw))
                        ctx.expect(got[0] == "ok", f"{wn}.to_file({fn}) of {key} ({fmt.name}, {kw}) gave {got}")
                        back = q.read_bytes().decode("utf-8")
                        ctx.expect(back == want, f"{wn}.to_file({fn}) of {key} ({fmt.name}, {kw}) wrote {len(back)} characters which are not the {len(want)} of to_string", file=back[:2000], text=want[:2000])
        refuse(ctx, d, key, obj, forms)
        if ctx.enough():
            return


def odd(ctx, d):
    """Texts as they are not usually written: reading them by path or as bytes has the outcome of reading the text."""
    kvn, xml, io = ctx.kvn, ctx.xml, ctx.io
    texts = []
    for k, name in enumerate(("Opm", "Oem", "Aem", "Tdm", "Cdm")):
        obj = gen.message(ctx.models, name, f"{ctx.seed}/p02/odd/{name}", p=0.6)
        obj.header.comment = ["Ünï Δv 空", "# a", "; b", "tail"]
        t = kvn.NdmKvnIo().to_string(obj)
        ls = t.split("\n")
        for sep in ("\ufeff", "\xa0", "\u2028", "\x0b", "\x0c", "\x1c", "\x85", "\u3000", "\x00", "# note\n", "// note\n", "! \n", ";\n"):
            texts += [("KVN", f"{sep!r} before", sep + t), ("KVN", f"{sep!r} after", t + "\n" + sep), ("KVN", f"{sep!r} in a comment", t.replace("Δv", "Δ" + sep + "v"))]
            i = 3 + (k * 5) % max(1, len(ls) - 4)
            texts += [("KVN", f"{sep!r} before line {i}", "\n".join(ls[:i] + [sep.rstrip("\n") + ls[i]] + ls[i + 1:])), ("KVN", f"{sep!r} as line {i}", "\n".join(ls[:i] + [sep.rstrip("\n")] + ls[i:]))]
        texts += [("KVN", "lines twice", "\n".join(x for l in ls for x in (l, l))), ("KVN", "CRLF", t.replace("\n", "\r\n")), ("KVN", "cut", t[: len(t) // 2]), ("KVN", "tabs", t.replace(" ", "\t")), ("KVN", "blank lines", "\n\n  \n" + t.replace("\n", "\n \n"))]
        x = xml.NdmXmlIo().to_string(obj)
        for sep in ("\ufeff", " ", "\n", "\xa0", "<!-- é -->"):
            texts += [("XML", f"{sep!r} before", sep + x), ("XML", f"{sep!r} after", x + sep), ("XML", f"{sep!r} in a comment", x.replace("Δv", "Δ" + sep + "v"))]
        texts += [("XML", "no declaration", x[x.index("?>") + 2:]), ("XML", "CRLF", x.replace("\n", "\r\n")), ("XML", "cut", x[: len(x) // 2]), ("XML", "white space", " \n" + x.replace("><", ">\n\n<") + "\n "), ("XML", "references", x.replace("Δ", "&#916;").replace("v", "&#118;", 1)), ("XML", "CDATA", x.replace("Ünï Δv 空", "<![CDATA[Ünï & Δv 空]]>"))]
    texts += [("KVN", "empty", ""), ("XML", "empty", ""), ("KVN", "white space", " \n\t"), ("KVN", "JSON", "[1]"), ("XML", "JSON", "[ ]"), ("KVN", "header only", "CCSDS_OPM_VERS = 2.0"), ("XML", "tag only", "<opm/>")]
    p = d / "odd.txt"
    for fmt, what, t in texts:
        cls = {"KVN": kvn.NdmKvnIo, "XML": xml.NdmXmlIo}[fmt]
        raw = t.encode("utf-8")
        p.write_bytes(raw)
        for r in (io.NdmIo, cls):
            ref = outcome(lambda: r().from_string(t))
            ways = [("from_path", lambda: r().from_path(str(p)))]
            if hasattr(r, "from_bytes"):
                ways.append(("from_bytes", lambda: r().from_bytes(raw)))
            for way, call in ways:
                ctx.case(("odd", fmt, what, len(t), r.__name__, way))
                got = outcome(call)
                ctx.expect(got[:2] == ref[:2] if ref[0] == "err" else got == ref, f"{r.__name__}.{way} of a {fmt} text ({what}) gave {str(got)[:200]}, reading the text gave {str(ref)[:200]}", text=t)


LOCALE = """
import sys, json
sys.path[:0] = json.loads(sys.argv[1])
from ccsds_ndm.ndm_io import NdmIo, NDMFileFormats
from ccsds_ndm.ndm_kvn_io import NdmKvnIo
from ccsds_ndm.ndm_xml_io import NdmXmlIo
d = sys.argv[2]
bad = []
def step(what, fn):
    try:
        if not fn():
            bad.append(what + " gives another result")
    except Exception as x:
        bad.append(f"{what}: {type(x).__name__} {x}"[:200])
for fmt, cls in ((NDMFileFormats.KVN, NdmKvnIo), (NDMFileFormats.XML, NdmXmlIo)):
    raw = open(f"{d}/in.{fmt.name}", "rb").read()
    text = raw.decode("utf-8")
    ref = cls().from_string(text)
    p, q = f"{d}/in.{fmt.name}", f"{d}/out.{fmt.name}"
    step(f"{cls.__name__}.from_path", lambda: cls().from_path(p) == ref)
    step(f"NdmIo.from_path ({fmt.name})", lambda: NdmIo().from_path(p) == ref)
    step(f"NdmIo.from_bytes ({fmt.name})", lambda: NdmIo().from_bytes(raw) == ref)
    def w(call):
        call()
        return open(q, "rb").read().decode("utf-8").replace("\\r\\n", "\\n") == cls().to_string(ref)
    step(f"{cls.__name__}.to_file", lambda: w(lambda: cls().to_file(ref, q)))
    step(f"NdmIo.to_file ({fmt.name})", lambda: w(lambda: NdmIo().to_file(ref, fmt, q)))
print(json.dumps(bad))
"""


def locales(ctx, d):
    """Files are UTF-8 whatever the locale of the process."""
    for k, name in enumerate(("Opm", "Aem") if ctx.tier == "quick" else ("Opm", "Aem", "Oem", "Cdm", "Tdm")):
        obj = gen.message(ctx.models, name, f"{ctx.seed}/p02/locale/{name}", p=0.6)
        obj.header.comment = ["Ünï Δv 空", "ÿ ¤"]
        texts = {}
        for fmt, cls in (("KVN", ctx.kvn.NdmKvnIo), ("XML", ctx.xml.NdmXmlIo)):
            texts[fmt] = cls().to_string(obj)
            (d / f"in.{fmt}").write_bytes(texts[fmt].encode("utf-8"))
        for label, env in (("C", {"LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}), ("C.UTF-8", {"LC_ALL": "C.UTF-8", "PYTHONUTF8": "0"}), ("UTF-8 mode", {"LC_ALL": "C", "PYTHONUTF8": "1"})):
            ctx.case(("locale", name, label), sample={"locale": label, "message": name})
            r = subprocess.run([sys.executable, "-c", LOCALE, json.dumps([x for x in sys.path if x]), str(d)], capture_output=True, text=True, timeout=120, env={**os.environ, **env, "PYTHONDONTWRITEBYTECODE": "1"})
            if r.returncode != 0:
                ctx.expect(False, f"reading and writing {name} in the locale {label} gave {r.stderr[-300:]}", text=texts["KVN"])
                continue
            for b in json.loads(r.stdout.strip().splitlines()[-1]):
                ctx.expect(False, f"{b} in the locale {label} (message {name})", text=texts["KVN"])


def large(ctx, d):
    """Files of some megabytes, as ephemerides are, with characters of several bytes."""
    m, io = ctx.models, ctx.io
    F = io.NDMFileFormats
    g = gen.Gen(m, f"{ctx.seed}/p02/large", p=0.3, maxlist=1)
    obj = g.make(m.Oem)
    seg = obj.body.segment[0]
    seg.metadata.comment = ["é" * (2**16 + 1), "Δ" * 99999]
    st = g.make(m.StateVectorAccType)
    seg.data.state_vector = [st] * ctx.n(40000, 200000)
    for fmt, cls in ((F.KVN, ctx.kvn.NdmKvnIo), (F.XML, ctx.xml.NdmXmlIo)):
        n = len(seg.data.state_vector)
        if fmt is F.XML:
            seg.data.state_vector = seg.data.state_vector[: n // 4]
        ok, text = ctx.guard(f"writing a large message ({fmt.name})", lambda: cls().to_string(obj))
        if not ok:
            continue
        p = d / "large.txt"
        raw = text.encode("utf-8")
        p.write_bytes(raw)
        ok, ref = ctx.guard(f"reading a large text ({fmt.name})", lambda: cls().from_string(text))
        if not ok:
            continue
        ctx.case(("large", fmt.name, len(raw)), sample={"bytes": len(raw)})
        for rn, call in (("from_path", lambda: cls().from_path(str(p))), ("NdmIo.from_path", lambda: io.NdmIo().from_path(p)), ("from_bytes", lambda: cls().from_bytes(raw)), ("NdmIo.from_bytes", lambda: io.NdmIo().from_bytes(raw))):
            if not hasattr(cls, "from_bytes") and rn == "from_bytes":
                continue
            ok, got = ctx.guard(f"{rn} of a file of {len(raw)} bytes ({fmt.name})", call)
            ctx.expect(not ok or got == ref, f"{rn} of a file of {len(raw)} bytes ({fmt.name}) gives another object than its text")
        q = d / "large.out"
        for wn, call in (("to_file", lambda: cls().to_file(obj, q)), ("NdmIo.to_file", lambda: io.NdmIo().to_file(obj, fmt, str(q)))):
            ok, _ = ctx.guard(f"{wn} of {len(raw)} bytes ({fmt.name})", call)
            ctx.expect(not ok or q.read_bytes() == raw, f"{wn} of a message of {len(raw)} bytes ({fmt.name}) leaves another text in the file")
            q.unlink(missing_ok=True)


def refuse(ctx, d, key, obj, forms):
    io, kvn = ctx.io, ctx.kvn
    F = io.NDMFileFormats
    ndm = ctx.models.Ndm()
    getattr(ndm, type(obj).__name__.lower()).extend([obj, obj])
    todo = [
        ("JSON", lambda q: io.NdmIo().to_file(obj, F.JSON, q)),
        ("combined KVN", lambda q: io.NdmIo().to_file(ndm, F.KVN, q)),
        ("combined KVN", lambda q: kvn.NdmKvnIo().to_file(ndm, q)),
        ("empty combined KVN", lambda q: kvn.NdmKvnIo().to_file(ctx.models.Ndm(), q)),
    ]
    for what, call in todo:
        for fn, form in forms.items():
            ctx.case((key, "refused", what, fn))
            q = d / "new.txt"
            if q.exists():
                os.unlink(q)
            got = outcome(lambda: call(form(q)))
            ctx.expect(got[:2] == ("err", "NotImplementedError"), f"writing {what} to a file gave {got[:2]}")
            ctx.expect(not q.exists(), f"refused writing of {what} created the file")
            q.write_text("keep me")
            outcome(lambda: call(form(q)))
            ctx.expect(q.read_text() == "keep me", f"refused writing of {what} changed the file")
            os.unlink(q)
