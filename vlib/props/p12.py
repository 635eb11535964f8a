"""P12 column data input."""
import random

from .. import cases, columns, kvnspec
from ..verify import prove
from .p10 import trees

RULE = "one case per KVN text with column data, rendered from the standard's column order by the checker in a plain and in a random layout: every attitude type x quaternion convention x rotation sequence, every observable, covariance and acceleration layout, and random trees; distinct by generator key and layout"


def pick(obj):
    """Only the column data of a message."""
    segs = obj.body.segment if isinstance(obj.body.segment, list) else [obj.body.segment]
    out = []
    for s in segs:
        for a in ("attitude_state", "state_vector", "covariance_matrix", "observation"):
            v = getattr(s.data, a, None)
            if v is not None:
                out.append((a, tuple(kvnspec.norm(x) for x in v)))
    return tuple(out)


def run(ctx):
    prove(ctx)
    kvn, io = ctx.kvn, ctx.io

    def all_():
        yield from columns.all_columns(ctx, "p12")
        for t in trees(ctx, "p12"):
            if t[1] in ("Aem", "Oem", "Tdm"):
                yield t

    for i, (key, name, obj) in enumerate(all_()):
        ents = kvnspec.expected(obj)
        for layout in (None, i):
            text = cases.render(ents, None if layout is None else random.Random(f"{key}"))
            ctx.case((key, layout), sample={"message": key, "text": text[:200]})
            ok, back = ctx.guard(f"reading {key}", lambda: io.NdmIo().from_string(text), text=text)
            if not ok:
                continue
            try:
                a, b = pick(obj), pick(back)
            except AttributeError as e:
                ctx.fail(f"{key}: {e}", text=text)
                continue
            if a != b:
                d = kvnspec.normdiff(kvnspec.norm(obj), kvnspec.norm(back), name)
                ctx.fail(f"{key}: column data: {d or 'differs'}", text=text)
        if ctx.enough():
            return
