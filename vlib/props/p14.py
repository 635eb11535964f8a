"""P14 KVN round trip."""
from .. import cases, columns, gen, kvnspec, snap
from ..verify import prove
from .p10 import trees

RULE = "one case per random representable message written by the code and read back; distinct by generator key"


def run(ctx):
    prove(ctx)
    kvn, io = ctx.kvn, ctx.io
    F = io.NDMFileFormats

    def all_():
        yield from cases.seeds(ctx, ctx.n(80, 600), tag="p14", probs=(0.1, 0.35, 0.6, 0.9))
        for name in snap.MESSAGES:
            for i in range(ctx.n(8, 20)):
                key = f"{ctx.seed}/p14/long/{name}/{i}"
                yield key, name, gen.message(ctx.models, name, key, p=0.8, maxlist=12)

    for key, name, obj in all_():
        ctx.case(key, sample={"message": key})
        ok, text = ctx.guard(f"writing {key}", lambda: io.NdmIo().to_string(obj, F.KVN))
        if ok:
            ok, back = ctx.guard(f"reading {key}", lambda: io.NdmIo().from_string(text), text=text)
        if ok:
            d = "read as " + type(back).__name__ if type(back) is not type(obj) else cases.kvn_roundtrip_diff(ctx, obj, back)
            ctx.expect(d is None, f"KVN round trip of {key}: {d}", text=text)
            ok, again = ctx.guard(f"writing {key} again", lambda: io.NdmIo().to_string(back, F.KVN), text=text)
            if ok:
                a, b = kvnspec.entries(text), kvnspec.entries(again)
                bad = next((p for p in zip(a, b) if not kvnspec.same_numbers(*p)), None)
                ctx.expect(len(a) == len(b) and bad is None, f"KVN text of {key} changes when it is read and written again: {bad or (len(a), len(b))}", text=text, again=again)
        if ctx.enough():
            return
