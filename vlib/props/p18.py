"""P18 repeated blocks."""
import dataclasses
import random

from .. import cases, gen, kvnspec, snap
from ..verify import prove

RULE = "one case per KVN text (rendered by the checker) with several blocks of a kind and a distribution of the optional items over them; distinct by generator key"
LISTS = {
    "Aem": [("AemBody", "segment"), ("AemData", "attitude_state")],
    "Oem": [("OemBody", "segment"), ("OemData", "state_vector"), ("OemData", "covariance_matrix")],
    "Tdm": [("TdmBody", "segment"), ("TdmData", "observation")],
    "Opm": [("OpmData", "maneuver_parameters"), ("UserDefinedType", "user_defined")],
    "Apm": [("ApmData", "maneuver_parameters")],
    "Cdm": [("CdmBody", "segment")],
    "Rdm": [("RdmData", "maneuver_parameters"), ("RdmData", "user_defined_parameters")],
}


def contrast(ctx, name, key, i):
    """Blocks next to each other where one is as full and the other as empty as possible."""
    rng = random.Random(key)
    g = gen.Gen(ctx.models, key, p=0.5, maxlist=2)
    obj = g.make(getattr(ctx.models, name))

    def visit(o):
        for f in dataclasses.fields(o):
            v = getattr(o, f.name)
            if isinstance(v, list) and v and dataclasses.is_dataclass(v[0]) and f.metadata.get("max_occurs", 99) > 2:
                n = rng.randint(2, 4)
                new = []
                for k in range(n):
                    gg = gen.Gen(ctx.models, f"{key}/{f.name}/{k}", p=[0.05, 0.95][(k + i) % 2] if rng.random() < 0.8 else 0.5, maxlist=2)
                    new.append(gg.make(type(v[0])))
                v[:] = new
            for x in v if isinstance(v, list) else [v]:
                if dataclasses.is_dataclass(x) and not gen.is_value_type(type(x)):
                    visit(x)

    visit(obj)
    fixup(ctx, obj, key)
    return obj


def fixup(ctx, obj, key):
    """Attitude states must follow the metadata of their own segment again."""
    if type(obj).__name__ != "Aem":
        return
    g = gen.Gen(ctx.models, key + "/fix", p=0.5)
    for s in obj.body.segment:
        for st in s.data.attitude_state:
            g.att_state(st, s.metadata.attitude_type.value.upper(), s.metadata)


def run(ctx):
    prove(ctx)
    io = ctx.io

    def all_():
        for i in range(ctx.n(200, 800)):
            for name in LISTS:
                key = f"{ctx.seed}/p18/{name}/{i}"
                yield key, name, contrast(ctx, name, key, i)
        for name, ls in LISTS.items():
            for cls, attr in ls:
                for n in (1, 2, 3, 5, 9, 11, 24, 60):
                    key = f"{ctx.seed}/p18/{name}/{attr}/{n}"
                    if name == "Cdm" and n != 2:
                        continue
                    yield key, name, gen.message(ctx.models, name, key, p=0.5, maxlist=2, force={(cls, attr): n})
        for i in range(ctx.n(2, 12)):
            for name in LISTS:
                key = f"{ctx.seed}/p18/{name}/many/{i}"
                yield key, name, gen.message(ctx.models, name, key, p=0.7, maxlist=9)

    for i, (key, name, obj) in enumerate(all_()):
        text = cases.render(kvnspec.expected(obj), None if i % 2 else random.Random(key))
        ctx.case(key, sample={"message": key, "text": text[:200]})
        ok, back = ctx.guard(f"reading {key}", lambda: io.NdmIo().from_string(text), text=text)
        if ok:
            d = cases.kvn_roundtrip_diff(ctx, obj, back)
            ctx.expect(d is None, f"{key}: {d}", text=text)
        if ctx.enough():
            return
