"""P13 section markers."""
from .. import cases, columns, kvnspec
from ..verify import prove
from .p10 import trees

RULE = "one case per KVN text written for a random object tree (any number of segments, data lines, covariances); distinct by generator key"


def run(ctx):
    prove(ctx)
    kvn, io = ctx.kvn, ctx.io
    F = io.NDMFileFormats

    def all_():
        yield from columns.all_columns(ctx, "p13")
        yield from trees(ctx, "p13")

    for key, name, obj in all_():
        ctx.case(key, sample={"message": key})
        ok, text = ctx.guard(f"KVN output of {key}", lambda: io.NdmIo().to_string(obj, F.KVN))
        if ok:
            d = check(obj, name, text)
            ctx.expect(d is None, f"KVN output of {key}: {d}", text=text)
        if ctx.enough():
            return


def shape(ents):
    """Markers, and between them the number of other entries."""
    out, n = [], 0
    for e in ents:
        if e[0] == "M":
            out += [n, e[1]]
            n = 0
        else:
            n += 1
    return out + [n]


def check(obj, name, text):
    exp, got = kvnspec.expected(obj), kvnspec.entries(text)
    for line in text.split("\n"):
        w = line.split()
        for k in kvnspec.ALL_MARKERS:
            if w[:1] == [k] and len(w) > 1:
                return f"{k} is not alone on its line: {line!r}"
    em, gm = [e[1] for e in exp if e[0] == "M"], [e[1] for e in got if e[0] == "M"]
    if em != gm:
        i = next((i for i, (a, b) in enumerate(zip(em, gm)) if a != b), min(len(em), len(gm)))
        return f"markers {gm[max(0, i - 1):i + 3]} instead of {em[max(0, i - 1):i + 3]} (marker {i} of {len(em)})"
    open_ = None
    for k in gm:
        a, b = k.rsplit("_", 1)
        if b == "START":
            if open_:
                return f"{k} inside {open_}"
            open_ = a
        else:
            if open_ != a:
                return f"{k} without {a}_START"
            open_ = None
    if open_:
        return f"{open_}_START is never closed"
    # the first and last keywords between markers must be those of the enclosed blocks
    se, sg = shape(exp), shape(got)
    if len(exp) == len(got) and se != sg:
        return f"markers are misplaced: {sg} entries between markers instead of {se}"
    for e, g in zip(split(exp), split(got)):
        if e[0] != g[0] or [x[0] for x in e[1]] != [x[0].replace("O", "K") if False else x[0] for x in g[1]]:
            ek, gk = [kind(x) for x in e[1]], [kind(x) for x in g[1]]
            if ek and gk and (ek[0] != gk[0] or ek[-1] != gk[-1]):
                return f"section {e[0]} holds {gk[:1]}...{gk[-1:]} instead of {ek[:1]}...{ek[-1:]}"
    return None


def kind(e):
    return ("K", e[1]) if e[0] in "KO" else (e[0],)


def split(ents):
    """Sections: (marker or None, entries)."""
    out = [(None, [])]
    for e in ents:
        if e[0] == "M":
            out.append((e[1], []))
        else:
            out[-1][1].append(e)
    return out
