"""P06 unknown XML elements."""
import functools
import random
import re
import shutil
import tempfile
from pathlib import Path

from .. import cases, gen, snap
from ..report import outcome
from ..verify import prove

RULE = "one case per message, place of the unknown element and name of the element; distinct by that triple"
LEAF = re.compile(r"<([A-Z][A-Z0-9_]*)\b[^>]*?(/>|>)")


def places(text):
    """Positions just before an element (inside its parent, hence inside a block)."""
    out = []
    for x in re.finditer(r"<[A-Za-z][^>]*>|</[A-Za-z][^>]*>", text):
        out.append(x.start())
    return out[1:]  # not before the root; before an end tag: as the last thing inside it


def tag(f):
    return f["meta"].get("name") or f["attr"]


@functools.lru_cache(None)
def known():
    """The names of all elements of the schema."""
    return sorted({tag(f) for c in snap.pinned()["classes"].values() for f in c["fields"] if f["meta"].get("type") == "Element"})


@functools.lru_cache(None)
def allowed(name):
    """The elements which some class of elements of this name may hold."""
    classes = snap.pinned()["classes"]
    homes = {re.sub(r"^.*\[|\].*$", "", f["type"]) for c in classes.values() for f in c["fields"] if tag(f) == name}
    homes |= {n for n in classes if n == name.capitalize()}
    return {tag(f) for n in homes if n in classes for f in classes[n]["fields"]}


def parents(text, j):
    """The tags which are open at this position."""
    out = []
    for x in re.finditer(r"<(/?)([A-Za-z][^\s/>]*)[^>]*?(/?)>", text[:j]):
        if x[1]:
            out.pop()
        elif not x[3]:
            out.append(x[2])
    return out


def run(ctx):
    prove(ctx)
    m, io, kvn, xml = ctx.models, ctx.io, ctx.kvn, ctx.xml
    rng = random.Random(f"{ctx.seed}/p06")
    d = Path(tempfile.mkdtemp(prefix="p06-"))
    used = xml.NdmXmlIo()
    try:
        trees = list(cases.seeds(ctx, ctx.n(1, 6), tag="p06", probs=(0.4, 0.8), maxlist=2))
        for i in range(ctx.n(2, 10)):
            trees.append((f"{ctx.seed}/p06/Ndm/{i}", "Ndm", gen.message(m, "Ndm", f"{ctx.seed}/p06/Ndm/{i}", p=0.6, maxlist=1)))
        for key, name, obj in trees:
            text = xml.NdmXmlIo().to_string(obj)
            ok, _ = ctx.guard(f"XML text of {key}", lambda: used.from_string(text), text=text)
            fresh = xml.NdmXmlIo()
            wrote = xml.NdmXmlIo()
            wrote.to_string(obj)
            failed = xml.NdmXmlIo()
            outcome(lambda: failed.from_string("<opm>"))
            outcome(lambda: failed.from_string(text[: len(text) // 2]))
            both = io.NdmIo()
            both.to_string(obj, io.NDMFileFormats.XML, schema_location="urn:a b.xsd")
            both.from_string(text)
            pl = places(text)
            for j in pl if not ctx.quick else rng.sample(pl, min(len(pl), 40)):
                bad = rng.choice(["FOO", "foo", "UNKNOWN_KEYWORD", "OBJECTNAME", "comment", "aem2", "x-1", "USER_DEFINED_FOO", "ndmx", "Header", "value", "units", "parameter", "any", "_", "COV", "Ünknown", "FOO_TYPE", "foo:BAR"])
                form = rng.choice(["<{}/>", "<{}>1.0</{}>", "<{}><COMMENT>x</COMMENT></{}>", "<{}></{}>", "<{} units=\"km\">1</{}>", "<{}/>\n<{}/>"])
                form = re.sub(r"<\{\}", f'<{{}} xmlns:foo="urn:foo"', form) if ":" in bad else form
                form = form.replace("{}", bad)
                t = text[:j] + form + text[j:]
                ctx.case((key, j, bad), sample={"message": key, "offset": j, "element": form})
                readers = [("NdmIo.from_string", lambda: io.NdmIo().from_string(t)), ("NdmXmlIo.from_string", lambda: xml.NdmXmlIo().from_string(t)), ("a used NdmXmlIo.from_string", lambda: used.from_string(t))]
                hist = [("which wrote a message", wrote), ("which failed before", failed), ("which wrote and read before", both), ("which only read such texts", fresh)]
                hn, hr = hist[ctx.evaluations % len(hist)]
                readers.append((f"a reader {hn}", lambda: hr.from_string(t)))
                if ctx.evaluations % 10 == 0:
                    p = d / "x.xml"
                    p.write_bytes(t.encode())
                    readers += [
                        ("NdmIo.from_bytes", lambda: io.NdmIo().from_bytes(t.encode())), ("NdmXmlIo.from_bytes", lambda: xml.NdmXmlIo().from_bytes(t.encode())),
                        ("NdmIo.from_path", lambda: io.NdmIo().from_path(p)), ("NdmXmlIo.from_path", lambda: xml.NdmXmlIo().from_path(p)),
                    ]
                for rn, r in readers:
                    got = outcome(r)
                    ctx.expect(got[0] == "err", f"{rn}: {key} with unknown element {form} before {text[j:j + 40]!r} was accepted", text=t)
                if ctx.enough():
                    return
            # keywords which the schema knows, but not there
            for bad in rng.sample(known(), ctx.n(12, 80)):
                j = rng.choice(pl)
                tags = parents(text, j)
                if bad in allowed(tags[-1]):
                    continue
                form = f"<{bad}>1</{bad}>"
                t = text[:j] + form + text[j:]
                ctx.case((key, j, bad))
                got = outcome(lambda: io.NdmIo().from_string(t))
                ctx.expect(got[0] == "err", f"{key} with the element {form} inside {'/'.join(tags)} was accepted", text=t)
            # a known element at a place where it is not defined: a header item inside the body
            t = text.replace("<body>", "<body><CREATION_DATE>2000-01-01T00:00:00</CREATION_DATE>", 1)
            if t != text:
                ctx.case((key, "misplaced"))
                ctx.expect(outcome(lambda: io.NdmIo().from_string(t))[0] == "err", f"{key}: CREATION_DATE inside the body was accepted", text=t)
    finally:
        shutil.rmtree(d, ignore_errors=True)
