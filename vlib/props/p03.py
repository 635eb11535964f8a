"""P03 message types."""
import re

from .. import cases, kvnspec, snap
from ..report import outcome
from ..verify import prove

RULE = "one case per header keyword or root tag (the eight types, look-alikes, every name of the schema) and per written message; distinct by keyword, tag or message"
IDS = {n: f"CCSDS_{n.upper()}_VERS" for n in snap.MESSAGES}


def versions():
    pin = snap.pinned()["classes"]
    return {n: next(f["default"] for f in pin[n]["fields"] if f["attr"] == "version")[len("value:'"):-1] for n in snap.MESSAGES}


def header(obj, name, text):
    """None, or what is wrong with the header of a KVN text."""
    first = kvnspec.entries(text)[0]
    return None if first == ("K", IDS[name], versions()[name], None) else f"KVN header written for {name} is {first}"


def run(ctx):
    prove(ctx)
    m, io, kvn, xml = ctx.models, ctx.io, ctx.kvn, ctx.xml
    F = io.NDMFileFormats
    pin = snap.pinned()["classes"]
    for key, name, obj in cases.seeds(ctx, ctx.n(2, 15), tag="p03"):
        text = cases.render(kvnspec.expected(obj))
        ctx.case((key, "kvn"), sample={"message": key, "header": text.split("\n")[0]})
        for rn, r in (("NdmIo", io.NdmIo), ("NdmKvnIo", kvn.NdmKvnIo)):
            got = outcome(lambda: r().from_string(text))
            ctx.expect(got[0] == "ok" and type(got[1]) is getattr(m, name), f"{rn}: KVN text headed {text.split(chr(10))[0]!r} ({key}) read as {type(got[1]).__name__ if got[0] == 'ok' else got}", text=text)
        out = outcome(lambda: kvn.NdmKvnIo().to_string(obj))
        if out[0] == "ok":
            bad = header(obj, name, out[1])
            ctx.expect(not bad, str(bad))
        xt = xml.NdmXmlIo().to_string(obj)
        root = re.search(r"<([A-Za-z:]+)((?:\s+[\w:.]+=\"[^\"]*\")*)\s*/?>", xt)
        attrs = dict(re.findall(r"([\w:.]+)=\"([^\"]*)\"", root.group(2)))
        ctx.case((key, "xml"))
        ctx.expect(root.group(1) == name.lower() and attrs.get("id") == IDS[name] and attrs.get("version") == versions()[name], f"XML root written for {name} is {root.group(0)}")
        for rn, r in (("NdmIo", io.NdmIo), ("NdmXmlIo", xml.NdmXmlIo)):
            got = outcome(lambda: r().from_string(xt))
            ctx.expect(got[0] == "ok" and type(got[1]) is getattr(m, name), f"{rn}: XML text with root {root.group(1)} read as {type(got[1]).__name__ if got[0] == 'ok' else got}", text=xt)
        # the same body under a wrong header
        for bad in wrong_headers(name):
            t = text.replace(IDS[name], bad, 1)
            ctx.case(("header", name, bad))
            for rn, r in (("NdmIo", io.NdmIo), ("NdmKvnIo", kvn.NdmKvnIo)):
                got = outcome(lambda: r().from_string(t))
                ctx.expect(got[0] == "err", f"{rn}: KVN text headed {bad!r} was read as {type(got[1]).__name__}", text=t)
        for bad in (name, name.upper(), name.lower() + "s", "x" + name.lower(), name.lower()[:2], "message"):
            t = xt.replace(f"<{name.lower()} ", f"<{bad} ", 1).replace(f"</{name.lower()}>", f"</{bad}>")
            ctx.case(("root", name, bad))
            for rn, r in (("NdmIo", io.NdmIo), ("NdmXmlIo", xml.NdmXmlIo)):
                got = outcome(lambda: r().from_string(t))
                ctx.expect(got[0] == "err", f"{rn}: XML text with root {bad!r} was read as {type(got[1]).__name__ if got[0] == 'ok' else ''}", text=t)
        if ctx.enough():
            return
    roots = {n.lower(): n for n in snap.MESSAGES}
    roots["ndm"] = "Ndm"
    names = {"foo", "a"}
    for n, c in pin.items():
        names |= {n, (c["meta"] or {}).get("name", n)} | {f["meta"].get("name") or f["attr"] for f in c["fields"]}
    for n in sorted(names):
        ctx.case(("root", n))
        got = outcome(lambda: io.NdmIo().from_string(f"<{n}/>"))
        if n in roots:
            ctx.expect(got[0] == "ok" and type(got[1]).__name__ == roots[n], f"<{n}/> gave {got[:2]!s:.200}")
        else:
            ctx.expect(got[0] == "err", f"<{n}/> is no message but was read as {type(got[1]).__name__}", text=f"<{n}/>")
    # content of one type under the header of another one is never read as the former
    for a in snap.MESSAGES:
        for b in snap.MESSAGES:
            t = f"{IDS[a]} = 1.0\nCREATION_DATE = 2000-01-01T00:00:00\nORIGINATOR = X\nMESSAGE_ID = {IDS[b]}\n"
            ctx.case(("pair", a, b))
            got = outcome(lambda: io.NdmIo().from_string(t))
            ctx.expect(got[0] == "err" or type(got[1]) is getattr(m, a), f"text headed {IDS[a]} was read as {type(got[1]).__name__}", text=t)


def wrong_headers(name):
    u = name.upper()
    return [f"CCSDS_{u}_VER", f"CCSDS_{u}_VERSION", f"CCSDS_{u}", f"CCSDS_{u}2_VERS", f"CCSDS_X{u}_VERS", f"CCSDS_{name}_VERS", f"CCSDS_{u[::-1]}_VERS", "CCSDS_NDM_VERS", "CCSDS__VERS", "CCSDS_VERS", f"CCSDS_{u}_VERSX", f"CCSDS {u} VERS", f"CCSDS_{u}_VERS1", f"CCSDS_{u}_VERS_", f"ccsds_{u.lower()}_vers", f"CCSDS_{u} _VERS", f"_CCSDS_{u}_VERS", f"X\nCCSDS_{u}_VERS", f"X = 1\nCCSDS_{u}_VERS", f"COMMENT\nCCSDS_{u}_VERS", f"CCSDS-{u}-VERS", f"CCSDS_{u}_VERS CCSDS_{u}_VERS"]
