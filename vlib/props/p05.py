"""P05 XML round trip."""
from .. import cases, gen, kvnspec, snap
from ..report import outcome
from ..verify import prove

RULE = "one case per random schema-conforming object tree (eight types and the combined type, three densities, values with special characters, zeros and long decimals); distinct by generator key"


def exact(obj):
    return kvnspec.norm(obj, keep_comments=True), kvnspec.comments(obj)


def run(ctx):
    prove(ctx)
    m, io, kvn, xml = ctx.models, ctx.io, ctx.kvn, ctx.xml
    F = io.NDMFileFormats
    for key, name, obj in itertree(ctx):
        ctx.case(key, sample={"message": key})
        kw = [{}, {"schema_location": "urn:a b.xsd"}, {"no_namespace_schema_location": "x.xsd"}][ctx.evaluations % 3]
        ok, text = ctx.guard(f"XML output of {key}", lambda: io.NdmIo().to_string(obj, F.XML, **kw))
        if not ok:
            continue
        for rn, r in (("NdmIo", io.NdmIo), ("NdmXmlIo", xml.NdmXmlIo)):
            ok, back = ctx.guard(f"{rn} reading the XML output of {key}", lambda: r().from_string(text), text=text)
            if not ok:
                continue
            if type(back) is not type(obj) or back != obj:
                d = kvnspec.normdiff(kvnspec.norm(obj, keep_comments=True), kvnspec.norm(back, keep_comments=True), name)
                ctx.fail(f"{rn}: XML round trip of {key}: {d or 'trees differ'}", text=text)
            else:
                d = kvnspec.normdiff(exact(obj)[0], exact(back)[0], name)
                ctx.expect(d is None, f"{rn}: XML round trip of {key}: {d}", text=text)
        if ctx.enough():
            return


def itertree(ctx):
    n = ctx.n(14, 150)
    yield from cases.seeds(ctx, n, tag="p05", probs=(0.15, 0.5, 0.95))
    for i in range(ctx.n(12, 60)):
        key = f"{ctx.seed}/p05/Ndm/{i}"
        o = gen.message(ctx.models, "Ndm", key, p=0.5, maxlist=2)
        if sum(len(getattr(o, n.lower())) for n in snap.MESSAGES) != 1:
            yield key, "Ndm", o
    # every enumeration value and every item at least once
    for name in snap.MESSAGES:
        for i in range(ctx.n(6, 30)):
            key = f"{ctx.seed}/p05/full/{name}/{i}"
            yield key, name, gen.message(ctx.models, name, key, p=1.0, maxlist=2)
