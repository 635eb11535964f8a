"""P10 KVN output completeness."""
from .. import cases, gen, kvnspec, snap
from ..verify import prove

RULE = "one case per random object tree of the eight types (five densities, values with zeros, long decimals, special characters); distinct by generator key"


def rest(ents):
    """Entries without markers, column data and the lines of covariance blocks."""
    out, skip = [], False
    for e in ents:
        if e[0] == "M":
            if e[1].startswith("COVARIANCE"):
                skip = e[1].endswith("START")
            continue
        if not skip and e[0] != "D":
            out.append(e)
    return out


def blind(exp, got):
    """The entries which are not column data; tracking observations are recognised by the expectation."""
    e, g = rest(exp), rest(got)
    return e, g


def judge(obj, name, text):
    """None, or what is wrong with the KVN text of the object."""
    e, g = blind(kvnspec.expected(obj), kvnspec.entries(text))
    return kvnspec.diff(e, g)


def run(ctx):
    prove(ctx)
    kvn, io = ctx.kvn, ctx.io
    F = io.NDMFileFormats
    for key, name, obj in trees(ctx, "p10"):
        ctx.case(key, sample={"message": key})
        ok, text = ctx.guard(f"KVN output of {key}", lambda: io.NdmIo().to_string(obj, F.KVN))
        if not ok:
            if ctx.enough():
                return
            continue
        d = judge(obj, name, text)
        ctx.expect(d is None, f"KVN output of {key}: {d}", text=text)
        if ctx.enough():
            return


def trees(ctx, tag):
    yield from cases.seeds(ctx, ctx.n(40, 300), tag=tag, probs=(0.05, 0.3, 0.6, 0.9, 1.0))
    for name in snap.MESSAGES:  # longer lists
        for i in range(ctx.n(6, 20)):
            key = f"{ctx.seed}/{tag}/long/{name}/{i}"
            yield key, name, gen.message(ctx.models, name, key, p=0.8, maxlist=12)
