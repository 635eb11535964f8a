"""P08 KVN layout."""
import random

from .. import cases, gen, kvnspec
from ..report import outcome
from ..verify import prove

RULE = "one case per message and random layout of its KVN text, compared with the plain layout and with the object; distinct by (message, layout seed)"


def relayout(text, rng):
    """The same KVN text in another layout, line by line (for texts from elsewhere)."""
    out = []
    for line in text.split("\n"):
        s = line.strip()
        if not s:
            continue
        w = lambda a=0, b=4: "".join(rng.choice(" \t") for _ in range(rng.randint(a, b)))
        if s.startswith("COMMENT"):
            rest = s[7:]
            s = "COMMENT" + w(1, 3) + rest.strip() if rest.strip() else s
        elif "=" in s:
            k, _, v = s.partition("=")
            s = k.strip() + w() + "=" + w() + v.strip()
            if s.endswith("]") and "[" in v:
                a, _, b = s[:-1].rpartition("[")
                s = a.rstrip() + w() + "[" + w() + b.strip() + w() + "]"
        elif " " in s:
            s = w(1, 4).join(s.split())
        out.append(w() + s + w())
        if rng.random() < 0.15:
            out.append(w())
    if rng.random() < 0.3:
        out = [x + rng.choice(["", "\r"]) for x in out]
    return ["\n", "\r\n"][rng.randrange(2)].join([""] * rng.randrange(2) + out + [""] * rng.randrange(3))


def run(ctx):
    prove(ctx)
    kvn, io = ctx.kvn, ctx.io
    for key, name, obj in cases.seeds(ctx, ctx.n(15, 80), tag="p08"):
        ents = kvnspec.expected(obj)
        for j in range(3):
            rng = random.Random(f"{key}/{j}")
            text = cases.render(ents, rng)
            ctx.case((key, j), sample={"message": key, "layout": j, "text": text[:300]})
            for rn, r in (("NdmKvnIo", kvn.NdmKvnIo), ("NdmIo", io.NdmIo)):
                ok, back = ctx.guard(f"{rn}: {key} in layout {j}", lambda: r().from_string(text), text=text)
                if ok:
                    d = cases.kvn_roundtrip_diff(ctx, obj, back)
                    ctx.expect(d is None, f"{rn}: {key} in layout {j}: {d}", text=text)
        if ctx.enough():
            return
    for fname, text in cases.samples()["kvn"]:
        ref = outcome(lambda: kvn.NdmKvnIo().from_string(text))
        for j in range(ctx.n(6, 20)):
            t = relayout(text, random.Random(f"{ctx.seed}/{fname}/{j}"))
            ctx.case((fname, j))
            got = outcome(lambda: kvn.NdmKvnIo().from_string(t))
            ctx.expect(got == ref, f"sample {fname} in layout {j} gave {str(got)[:200]} instead of {str(ref)[:200]}", text=t)
        if ctx.enough():
            return
