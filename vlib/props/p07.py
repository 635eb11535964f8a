"""P07 independence of calls."""
import dataclasses
import random
import shutil
import tempfile
from pathlib import Path

from .. import cases, gen, kvnspec, snap
from ..report import outcome
from ..verify import prove

RULE = "one case per step of a random history of reads and writes on shared readers and writers, each compared with the same call on a new instance before the history; distinct by (history, step)"


def mutable_ids(obj, out=None):
    out = {} if out is None else out
    if dataclasses.is_dataclass(obj):
        out[id(obj)] = obj
        for f in dataclasses.fields(obj):
            mutable_ids(getattr(obj, f.name), out)
    elif isinstance(obj, list):
        out[id(obj)] = obj
        for x in obj:
            mutable_ids(x, out)
    return out


def snapshot(obj):
    """Types, values and shape, without trusting == of the classes."""
    if dataclasses.is_dataclass(obj):
        return (type(obj).__qualname__, tuple((k, snapshot(v)) for k, v in vars(obj).items()))
    if isinstance(obj, list):
        return ("list", tuple(snapshot(x) for x in obj))
    return (type(obj).__qualname__, str(obj))


def run(ctx):
    prove(ctx)
    m, io, kvn, xml = ctx.models, ctx.io, ctx.kvn, ctx.xml
    F = io.NDMFileFormats
    d = Path(tempfile.mkdtemp(prefix="p07-"))
    try:
        objs = list(cases.seeds(ctx, ctx.n(2, 6), tag="p07", probs=(0.3, 0.8), maxlist=3))
        for i in range(3):
            objs.append((f"Ndm{i}", "Ndm", gen.message(m, "Ndm", f"{ctx.seed}/p07/{i}", p=0.5, maxlist=1)))
        inputs = []
        for key, name, o in objs:
            inputs.append((key, "XML", xml.NdmXmlIo().to_string(o)))
            if name != "Ndm":
                inputs.append((key, "KVN", cases.render(kvnspec.expected(o))))
        for key, f, t in list(inputs[:20]):
            inputs.append((key + " cut", f, t[: len(t) // 2]))
            inputs.append((key + " bad", f, t.replace("20", "xx").replace("_", "-", 7)))
        for key, name, o in objs:
            for w, call in writers(ctx, o, d):
                before = snapshot(o)
                ctx.case((key, w, "mutation"), sample={"message": key, "call": w})
                outcome(call)
                ctx.expect(snapshot(o) == before, f"{w} of {key} changed the object tree: {firstdiff(before, snapshot(o))}")
            if ctx.enough():
                return
        # reference outcomes, each from a new instance
        reads = {(k, f): snap_outcome(lambda: (kvn.NdmKvnIo() if f == "KVN" else xml.NdmXmlIo()).from_string(t)) for k, f, t in inputs}
        locs = [{}, {"schema_location": "urn:a a.xsd"}, {"schema_location": "urn:b b.xsd"}, {"no_namespace_schema_location": "n.xsd"}]
        wx = {(k, i): outcome(lambda: xml.NdmXmlIo().to_string(o, **locs[i])) for k, _, o in objs for i in range(len(locs))}
        wk = {k: outcome(lambda: kvn.NdmKvnIo().to_string(o)) for k, _, o in objs}
        for h in range(ctx.n(20, 60)):
            rng = random.Random(f"{ctx.seed}/p07/history/{h}")
            K, X, U = kvn.NdmKvnIo(), xml.NdmXmlIo(), io.NdmIo()
            steps = []
            for s in range(ctx.n(25, 40)):
                fresh = rng.random() < 0.2
                if rng.random() < 0.55:
                    k, f, t = rng.choice(inputs)
                    unified = rng.random() < 0.4
                    steps.append(("read", k, f, unified))
                    r = U if unified else (K if f == "KVN" else X)
                    if fresh:
                        r = type(r)()
                    got = snap_outcome(lambda: r.from_string(t))
                    if not unified or expected_text(t, f):
                        ctx.case((h, s))
                        ctx.expect(got == reads[k, f], f"reading {k} ({f}) after {steps[-4:-1]} gave another outcome: {firstdiff(reads[k, f], got)}", history=steps, text=t)
                else:
                    k, n, o = rng.choice(objs)
                    i = rng.randrange(len(locs))
                    if rng.random() < 0.5:
                        steps.append(("write KVN", k))
                        got, ref = outcome(lambda: rng.choice([K, kvn.NdmKvnIo()]).to_string(o)), wk[k]
                    elif rng.random() < 0.6:
                        steps.append(("write XML", k, locs[i]))
                        got, ref = outcome(lambda: X.to_string(o, **locs[i])), wx[k, i]
                    else:
                        steps.append(("write XML (unified)", k, locs[i]))
                        got, ref = outcome(lambda: U.to_string(o, F.XML, **locs[i])), wx[k, i]
                    ctx.case((h, s))
                    ctx.expect(got == ref, f"{steps[-1]} after {steps[-4:-1]} gave another text", history=steps, got=str(got)[:1500], expected=str(ref)[:1500])
                if ctx.enough():
                    return
        for c in (io.NdmIo, kvn.NdmKvnIo, xml.NdmXmlIo):
            for meth in ("from_string", "from_bytes", "from_path", "to_string", "to_file"):
                if hasattr(c, meth):
                    ctx.case((c.__name__, meth, "again"))
                    what = next(again(ctx, c, meth), None)
                    ctx.expect(not what, what and what[0], **(what[1] if what else {}))
            if ctx.enough():
                return
        # separate reads share nothing, and a change of one result changes neither the other nor later reads
        for k, f, t in inputs:
            r = kvn.NdmKvnIo() if f == "KVN" else xml.NdmXmlIo()
            a, b = outcome(lambda: r.from_string(t)), outcome(lambda: r.from_string(t))
            if a[0] == "err" or b[0] == "err":
                continue
            ctx.case((k, f, "sharing"))
            ia, ib = mutable_ids(a[1]), mutable_ids(b[1])
            shared = [type(ia[i]).__name__ for i in ia if i in ib]
            ctx.expect(not shared, f"two reads of {k} ({f}) share {shared[:5]}", text=t)
            before = snapshot(b[1])
            for x in ia.values():
                if isinstance(x, list):
                    x.append("changed")
                else:
                    for fl in dataclasses.fields(x):
                        if fl.init and not isinstance(getattr(x, fl.name), list) and not dataclasses.is_dataclass(getattr(x, fl.name)):
                            setattr(x, fl.name, "changed")
            ctx.expect(snapshot(b[1]) == before, f"changing one result of reading {k} ({f}) changed the other", text=t)
            ctx.expect(snap_outcome(lambda: r.from_string(t)) == reads[k, f], f"changing a result of reading {k} ({f}) changed a later read", text=t)
            if ctx.enough():
                return
    finally:
        shutil.rmtree(d, ignore_errors=True)


def touch(o):
    """Change every part of an object tree."""
    for x in list(mutable_ids(o).values()):
        if isinstance(x, list):
            x.append("changed")
        else:
            for fl in dataclasses.fields(x):
                if fl.init and not isinstance(getattr(x, fl.name), list) and not dataclasses.is_dataclass(getattr(x, fl.name)):
                    setattr(x, fl.name, "changed")


def again(ctx, cls, method):
    """The same call several times, also on other instances and with other arguments between: (what differs, data)."""
    io, F = ctx.io, ctx.io.NDMFileFormats
    two = [gen.message(ctx.models, n, f"{ctx.seed}/p07/again", p=0.6) for n in ("Opm", "Omm")]
    forms = {io.NdmIo: ("KVN", "XML"), ctx.kvn.NdmKvnIo: ("KVN",)}.get(cls, ("XML",))
    texts = [(f, ctx.kvn.NdmKvnIo().to_string(o) if f == "KVN" else ctx.xml.NdmXmlIo().to_string(o)) for o in two for f in forms]
    d = Path(tempfile.mkdtemp(prefix="p07-"))
    try:
        if method.startswith("from_"):
            ref = {t: snap_outcome(lambda: (ctx.kvn.NdmKvnIo() if f == "KVN" else ctx.xml.NdmXmlIo()).from_string(t)) for f, t in texts}
            r, got = cls(), []
            for _, t in texts * 3:
                p = d / "message"
                p.write_text(t, encoding="utf-8")
                arg = {"from_string": t, "from_bytes": t.encode("utf-8"), "from_path": p}[method]
                for one in (r, cls(), r):
                    o = outcome(lambda: getattr(one, method)(arg))
                    if (snap_outcome(lambda: o[1]) if o[0] == "ok" else o[:2]) != ref[t]:
                        yield f"{cls.__name__}.{method} after other calls: {firstdiff(ref[t], o[:2] if o[0] != 'ok' else ('ok', snapshot(o[1])))}", {"text": t}
                    if o[0] == "ok":
                        ids = mutable_ids(o[1])
                        if any(i in q for q, _ in got for i in ids):
                            yield f"{cls.__name__}.{method}: two reads share a part of their results", {"text": t}
                        got.append((ids, o[1]))
                        if len(got) % 4 == 0:
                            touch(o[1])
        else:
            w = cls()
            for fmt in forms:
                for o in two + two:
                    for kw in ({}, {"schema_location": "urn:a b"}, {}) if fmt == "XML" else ({}, {}):
                        want = outcome(lambda: (ctx.kvn.NdmKvnIo() if fmt == "KVN" else ctx.xml.NdmXmlIo()).to_string(o, **kw))
                        for one in (w, cls(), w):
                            a = (o, F[fmt]) if cls is io.NdmIo else (o,)
                            if method == "to_file":
                                res = outcome(lambda: one.to_file(*a, d / "out", **kw))
                                res = ("ok", (d / "out").read_text(encoding="utf-8")) if res[0] == "ok" else res
                            else:
                                res = outcome(lambda: one.to_string(*a, **kw))
                            if res[:2] != want[:2]:
                                yield f"{cls.__name__}.{method} ({fmt}, {kw}) after other calls gives {str(res)[:150]} instead of {str(want)[:150]}", {"format": fmt}
                    o.header.originator += "x"  # the object may change between two calls
    finally:
        shutil.rmtree(d, ignore_errors=True)


def expected_text(t, f):
    t = t.strip()
    return t.startswith("CCSDS_") if f == "KVN" else (t.startswith("<") and t.endswith(">"))


def snap_outcome(fn):
    o = outcome(fn)
    return ("ok", snapshot(o[1])) if o[0] == "ok" else o[:2]


def firstdiff(a, b):
    if a == b:
        return ""
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return f"{str(a)[:150]} / {str(b)[:150]}"
        for x, y in zip(a, b):
            if x != y:
                return firstdiff(x, y)
    return f"{str(a)[:150]} became {str(b)[:150]}"


def writers(ctx, o, d):
    io, kvn, xml = ctx.io, ctx.kvn, ctx.xml
    F = io.NDMFileFormats
    yield "KVN to_string", lambda: kvn.NdmKvnIo().to_string(o)
    yield "XML to_string", lambda: xml.NdmXmlIo().to_string(o)
    yield "unified KVN to_string", lambda: io.NdmIo().to_string(o, F.KVN)
    yield "unified XML to_string", lambda: io.NdmIo().to_string(o, F.XML, schema_location="urn:a b")
    yield "KVN to_file", lambda: io.NdmIo().to_file(o, F.KVN, d / "f.kvn")
    yield "XML to_file", lambda: io.NdmIo().to_file(o, F.XML, d / "f.xml")
    yield "JSON to_string", lambda: io.NdmIo().to_string(o, F.JSON)
