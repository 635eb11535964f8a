"""P11 column data output."""
from .. import cases, columns, kvnspec
from ..verify import prove
from .p10 import trees

RULE = "one case per segment with column data: every attitude type x quaternion convention x rotation sequence, every observable, covariance and acceleration layout, and random trees; distinct by generator key"


def data_entries(ents):
    out, cov = [], False
    for e in ents:
        if e[0] == "M" and e[1].startswith("COVARIANCE"):
            cov = e[1].endswith("START")
        elif e[0] in "DO" or cov:
            out.append(e)
    return out


def judge(obj, name, text):
    """None, or what is wrong with the column data in the KVN text of the object."""
    exp, got = kvnspec.expected(obj), kvnspec.entries(text)
    if len(exp) == len(got):  # column data in place: compare entry by entry
        for e, g, in_cov in zip(exp, got, cov_flags(exp)):
            if (e[0] in "DO" or in_cov) and not kvnspec.same(e, g):
                return f"expected {e}, got {g}"
        return None
    e = data_entries(exp)
    if name == "Tdm":
        kws = {x[1] for x in e if x[0] == "O"}
        g = [x for x in got if x[0] == "D" or (x[0] == "K" and x[1] in kws and len(x[2].split()) == 2)]
    else:
        g = data_entries(got)
    d = kvnspec.diff(e, g)
    return d and f"column data: {d}"


def run(ctx):
    prove(ctx)
    kvn, io = ctx.kvn, ctx.io
    F = io.NDMFileFormats

    def all_():
        yield from columns.all_columns(ctx, "p11")
        for t in trees(ctx, "p11"):
            if t[1] in ("Aem", "Oem", "Tdm"):
                yield t

    for key, name, obj in all_():
        ctx.case(key, sample={"message": key})
        ok, text = ctx.guard(f"KVN output of {key}", lambda: io.NdmIo().to_string(obj, F.KVN))
        if not ok:
            if ctx.enough():
                return
            continue
        d = judge(obj, name, text)
        ctx.expect(d is None, f"KVN output of {key}: {d}", text=text)
        if ctx.enough():
            return


def cov_flags(ents):
    cov = False
    for e in ents:
        if e[0] == "M" and e[1].startswith("COVARIANCE"):
            cov = e[1].endswith("START")
            yield True
        else:
            yield cov
