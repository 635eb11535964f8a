"""P04 combined messages."""
import itertools
import random
import re

from .. import cases, gen, kvnspec, snap
from ..report import outcome
from ..verify import prove

RULE = "one case per combination of counts of messages (every combination with at most two messages, and random larger ones) and per entry point; distinct by the combination"


def element(ctx, obj):
    """The XML element of one message, for embedding."""
    t = ctx.xml.NdmXmlIo().to_string(obj)
    t = re.sub(r"^\s*<\?xml[^>]*\?>\s*", "", t)
    return t


def run(ctx):
    prove(ctx)
    m, io, kvn, xml = ctx.models, ctx.io, ctx.kvn, ctx.xml
    F = io.NDMFileFormats
    rng = random.Random(f"{ctx.seed}/p04")
    pool = {n: [gen.message(m, n, f"{ctx.seed}/p04/{n}/{i}", p=0.3, maxlist=2) for i in range(4)] for n in snap.MESSAGES}
    combos = [()] + [(a,) for a in snap.MESSAGES] + list(itertools.product(snap.MESSAGES, repeat=2))
    combos += [tuple(rng.choice(snap.MESSAGES) for _ in range(rng.randint(3, 9))) for _ in range(ctx.n(20, 200))]
    combos += [tuple(rng.choice(snap.MESSAGES[:2]) for _ in range(12)) for _ in range(2)]
    combos += [(rng.choice(snap.MESSAGES),) * n for n in (10, 12, 33, 70)] + [(n,) * 11 for n in snap.MESSAGES]
    combos += [tuple(rng.sample(snap.MESSAGES, len(snap.MESSAGES))), tuple(rng.choice(snap.MESSAGES) for _ in range(150))]
    for c in combos:
        objs = [rng.choice(pool[n]) for n in c]
        for i, o in enumerate(objs):  # tell equal messages apart
            o = kvnspec.clone(o)
            o.header.originator = f"MSG {i}"
            objs[i] = o
        extra = rng.random() < 0.5
        head = "<MESSAGE_ID>id 1</MESSAGE_ID><COMMENT>c 1</COMMENT><COMMENT>c 2</COMMENT>" if extra else ""
        text = "<ndm>" + head + "\n".join(element(ctx, o) for o in objs) + "</ndm>"
        ctx.case(("read", c, extra), sample={"messages": c, "comments": extra})
        for rn, r in (("NdmIo", io.NdmIo), ("NdmXmlIo", xml.NdmXmlIo)):
            ok, got = ctx.guard(f"{rn}: combined message of {c}", lambda: r().from_string(text), text=text)
            if not ok:
                continue
            if len(objs) == 1:
                ctx.expect(type(got) is type(objs[0]) and got == objs[0], f"{rn}: combined message of one {c} was read as {type(got).__name__}", text=text)
                continue
            if not ctx.expect(type(got) is m.Ndm, f"{rn}: combined message of {c} was read as {type(got).__name__}", text=text):
                continue
            for n in snap.MESSAGES:
                want = [o for o in objs if type(o).__name__ == n]
                have = getattr(got, n.lower())
                ctx.expect([type(x) for x in have] == [type(x) for x in want] and have == want, f"{rn}: combined message of {c}: list of {n} has {[type(x).__name__ + ' ' + str(getattr(x.header, 'originator', '')) for x in have]}", text=text)
            ctx.expect((list(got.comment), list(got.message_id) if isinstance(got.message_id, list) else got.message_id) == ((["c 1", "c 2"], "id 1") if extra else ([], None)) or (list(got.comment) == (["c 1", "c 2"] if extra else []) and str(got.message_id).strip("[]'") == ("id 1" if extra else "None" if got.message_id is None else "")), f"{rn}: combined message of {c}: comments {got.comment}, message id {got.message_id}", text=text)
        # writing
        ndm = m.Ndm()
        for o in objs:
            getattr(ndm, type(o).__name__.lower()).append(o)
        if extra:
            ndm.comment.extend(["c", "d"] if rng.random() < 0.5 else ["c"])
        if rng.random() < 0.5:
            ndm.message_id = rng.choice(["id 1", "", "0"])
        ctx.case(("write", c, extra))
        for wn, w in (("NdmIo", lambda: io.NdmIo().to_string(ndm, F.KVN)), ("NdmKvnIo", lambda: kvn.NdmKvnIo().to_string(ndm))):
            got = outcome(w)
            if len(objs) == 1:
                ctx.expect(got == outcome(lambda: kvn.NdmKvnIo().to_string(objs[0])) and got[0] == "ok", f"{wn}: KVN output of a combined message of one {c} gave {str(got)[:200]}")
            else:
                ctx.expect(got[:2] == ("err", "NotImplementedError"), f"{wn}: KVN output of a combined message of {c} gave {str(got)[:200]}")
        if ctx.enough():
            return
