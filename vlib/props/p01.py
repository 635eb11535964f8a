"""P01 format recognition."""
import itertools

from .. import cases, kvnspec
from ..report import outcome
from ..verify import prove

RULE = "one case per text (all words of length <= 4 over an alphabet of delimiters, white space and letters, and messages of every type with surrounding white space) or per requested format; distinct by text; non-trivial if not a repetition"


def expected_format(text):
    t = text.strip()
    if t[:6] == "CCSDS_":
        return "KVN"
    if t[:1] == "<" and t[-1:] == ">":
        return "XML"
    if t[:1] == "[" and t[-1:] == "]":
        return "JSON"
    return None


def texts():
    words = ["<", ">", "[", "]", " ", "\n", "C", "CCSDS_", "x", "\u2003", "=", "{"]
    for n in range(0, 4):
        for w in itertools.product(words, repeat=n):
            yield "".join(w)
    for w in ("CCSDS_OPM_VERS", "CCSDS", "ccsds_opm_vers = 2.0", "CCSDS-OPM", "\tCCSDS_", "<a>x", "x<a>", "<CCSDS_>", "[CCSDS_]", "CCSDS_[]", "[<>]", "<[]>", "\ufeffCCSDS_OPM_VERS = 2.0", "\ufeff<a/>", "{}", "\x1c<a/>\x1f", "[]\x85", "<>", "[ ]", "[1, 2]", "{\"a\": []}", "<!-- c --><a/>"):
        yield w


def run(ctx):
    prove(ctx)
    m, io, kvn, xml = ctx.models, ctx.io, ctx.kvn, ctx.xml
    n = 0
    for t in texts():
        n += 1
        f = expected_format(t)
        ctx.case(("text", t), sample={"text": t, "format": f})
        got = outcome(lambda: io.NdmIo().from_string(t))
        if f is None:
            ctx.expect(got[0] == "err" and got[1] == "ValueError", f"text {t!r} has no known format but gave {got[:2]}", text=t)
        elif f == "JSON":
            ctx.expect(got[:2] == ("err", "NotImplementedError"), f"JSON text {t!r} gave {got[:2]}", text=t)
        else:
            ref = outcome(lambda: (kvn.NdmKvnIo() if f == "KVN" else xml.NdmXmlIo()).from_string(t))
            ctx.expect(same(got, ref), f"text {t!r} is {f}, but the unified reader gave {got} and the {f} reader gave {ref}", text=t)
        if ctx.enough():
            return
    for key, name, obj in cases.seeds(ctx, ctx.n(2, 20), tag="p01"):
        kt, xt = cases.render(kvnspec.expected(obj)), xml.NdmXmlIo().to_string(obj)
        for t, cls in ((kt, kvn.NdmKvnIo), (xt, xml.NdmXmlIo)):
            for a, b in (("", ""), ("\n \t", "\n"), ("  ", "\r\n\r\n")):
                if a and cls is xml.NdmXmlIo:
                    a = ""  # white space before an XML declaration is not XML
                ctx.case((key, cls.__name__, a, b))
                got, ref = outcome(lambda: io.NdmIo().from_string(a + t + b)), outcome(lambda: cls().from_string(a + t + b))
                ctx.expect(same(got, ref) and got[0] == "ok", f"{cls.__name__} text of {key} with white space: unified reader gave {got[:2]!s:.300}, {cls.__name__} gave {ref[:2]!s:.300}", text=a + t + b)
        F = io.NDMFileFormats
        ctx.case((key, "write"))
        ctx.expect(outcome(lambda: io.NdmIo().to_string(obj, F.XML)) == ("ok", xt), f"{key}: XML output of the unified writer differs from the XML writer")
        ctx.expect(outcome(lambda: io.NdmIo().to_string(obj, F.KVN)) == outcome(lambda: kvn.NdmKvnIo().to_string(obj)), f"{key}: KVN output of the unified writer differs from the KVN writer")
        kw = {"schema_location": "urn:a b.xsd", "no_namespace_schema_location": "c.xsd"}
        ctx.expect(outcome(lambda: io.NdmIo().to_string(obj, F.XML, **kw)) == outcome(lambda: xml.NdmXmlIo().to_string(obj, **kw)), f"{key}: schema locations are not passed on to the XML writer")
        ctx.expect(outcome(lambda: io.NdmIo().to_string(obj, F.JSON))[:2] == ("err", "NotImplementedError"), f"{key}: JSON output is not refused")
        if ctx.enough():
            return


def same(a, b):
    return a[:2] == b[:2] if a[0] == "err" else a == b
