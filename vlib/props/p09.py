"""P09 keyword lines."""
import random
from decimal import Decimal

from .. import cases, gen, kvnspec
from ..report import outcome
from ..verify import prove

RULE = "one case per (value, unit) or comment written in a message and read back; distinct by that pair"


def run(ctx):
    prove(ctx)
    m, kvn = ctx.models, ctx.kvn
    rng = random.Random(f"{ctx.seed}/p09")
    values = list(gen.TEXTS) + ["v" * n for n in (1, 17, 18, 19, 20, 21, 40, 300)] + [" ".join("w" * 3 for _ in range(n)) for n in (2, 5, 30)]
    alphabet = "AZaz09=[]<>&'\"%#;:,.-_/\\ \t|{}()*+~^$@!?é\u2003\u00a0中"
    for _ in range(ctx.n(2000, 8000)):
        values.append("".join(rng.choice(alphabet) for _ in range(rng.randint(1, 40))))
    values = [v.strip() for v in values]
    texts = [v for v in values if v and not v.endswith("]")]
    comments = values + gen.COMMENTS
    base = gen.message(m, "Opm", f"{ctx.seed}/p09", p=0.9, comments=False)

    def check(what, obj, **data):
        ok, text = ctx.guard(f"writing {what}", lambda: kvn.NdmKvnIo().to_string(obj), **data)
        if not ok:
            return
        n = sum(1 for e in kvnspec.expected(obj))
        lines = [x for x in text.split("\n") if x.strip()]
        ctx.expect(len(lines) == n, f"{what}: {len(lines)} lines for {n} entries", text=text)
        d = kvnspec.diff(kvnspec.expected(obj), kvnspec.entries(text))
        ctx.expect(d is None, f"{what}: written line: {d}", text=text)
        ok, back = ctx.guard(f"reading {what}", lambda: kvn.NdmKvnIo().from_string(text), text=text)
        if ok:
            d = cases.kvn_roundtrip_diff(ctx, obj, back)
            ctx.expect(d is None, f"{what}: {d}", text=text)

    for v in texts:
        obj = kvnspec.clone(base)
        obj.header.originator = v
        obj.body.segment.metadata.object_name = v
        ctx.case(("value", v), sample={"value": v})
        check(f"value {v!r}", obj, value=v)
        if ctx.enough():
            return
    for c in comments:
        obj = kvnspec.clone(base)
        obj.header.comment = [c, "second"]
        ctx.case(("comment", c))
        check(f"comment {c!r}", obj, comment=c)
        if ctx.enough():
            return
    nums = list(gen.NUMS) + ["1" * n for n in (5, 17, 18, 19, 25, 60)] + [str(Decimal(rng.randrange(10**12)).scaleb(-rng.randrange(20))) for _ in range(ctx.n(50, 500))]
    sv = base.body.segment.data.state_vector
    for s in nums:
        for unit in (None, m.PositionUnits.KM):
            obj = kvnspec.clone(base)
            sv = obj.body.segment.data.state_vector
            sv.x = m.PositionType(Decimal(s), unit)
            sv.z_dot = m.VelocityType(Decimal(s), m.VelocityUnits.KM_S if unit else None)
            ctx.case(("number", s, unit))
            check(f"number {s} with unit {unit}", obj, value=s)
        if ctx.enough():
            return
    # every unit of the schema, as written by the classes which carry it
    for key, name, obj in cases.seeds(ctx, ctx.n(3, 30), tag="p09", probs=(0.95,)):
        ctx.case((key,))
        check(key, obj)
        if ctx.enough():
            return
    # the line writer itself, where the tree has it
    fill = getattr(kvn, "_fill_str_out_kvn", None)
    proc = getattr(kvn.NdmKvnIo, "_pre_process_kvn_data", None)
    if fill is None or proc is None:
        return
    units = ["km", "km**2/s**2", "1/ER", "%", "m**3/(kg*s**2)", "REV/DAY**2", "u" * 30]
    for _ in range(ctx.n(1500,4000)):
        k = "".join(rng.choice("ABCXYZ_019") for _ in range(rng.choice([1, 3, 19, 20, 21, 35])))
        if k.startswith("COMMENT"):
            continue
        v = rng.choice(texts)
        u = rng.choice(units + [None, None])
        if u and "[" in v:
            continue
        try:
            line = fill(k, v, u) if u else fill(k, v)
            r = kvn.NdmKvnIo()
            r._pre_process_kvn_data("CCSDS_OPM_VERS = 2.0\n" + line)
            got = list(r._lines[-1])
        except (TypeError, AttributeError):
            return  # another interface: the lines are checked through the messages above
        ctx.case(("line", k, v, u))
        ctx.expect(got == [k, v] + ([u] if u else []) and len(r._lines) == 3, f"line for {(k, v, u)} is {line!r}, which reads as {got}")
        if ctx.enough():
            return
