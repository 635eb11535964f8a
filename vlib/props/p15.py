"""P15 user-defined parameters."""
import random

from .. import cases, gen, kvnspec
from ..verify import prove

RULE = "one case per list of parameters (names containing the prefix, keywords of the schema, repeated and empty values) in each message type that has them, written by the code and rendered by the checker; distinct by (type, list)"
NAMES = gen.PARAMS + ["USER_DEFINED", "USER_DEFINED_", "USER_DEFINED_USER_DEFINED_A", "XUSER_DEFINED_Y", "_", "-", "A.B", "9", "ORIGINATOR", "CCSDS_OPM_VERS", "MAN_DV_1", "A USER_DEFINED_B" .replace(" ", "_"), "COMMENT_1", "META_STOP", "x".upper() * 40]


def owners(ctx):
    for name in ("Opm", "Omm", "Rdm", "Apm", "Cdm", "Oem", "Aem", "Tdm"):
        obj = gen.message(ctx.models, name, f"{ctx.seed}/p15/{name}", p=0.6)
        seg = obj.body.segment if hasattr(obj.body, "segment") else None
        seg = seg[0] if isinstance(seg, list) else seg
        data = getattr(seg, "data", None)
        if data is not None and hasattr(data, "user_defined_parameters"):
            yield name


def judge(obj, name, text):
    """None, or what is wrong with the user-defined parameters in the KVN text of the object."""
    def of(ents):
        return [(e[1], e[2]) for e in ents if e[0] == "K" and e[1].startswith("USER_DEFINED")]

    want, got = of(kvnspec.expected(obj)), of(kvnspec.entries(text))
    return None if want == got else f"parameters {want} are written as {got}"


def run(ctx):
    prove(ctx)
    m, kvn, io = ctx.models, ctx.kvn, ctx.io
    F = io.NDMFileFormats
    names = list(owners(ctx))
    ctx.expect(names, "no message type has user-defined parameters")
    rng = random.Random(f"{ctx.seed}/p15")
    lists = [[(n, v)] for n in NAMES for v in ("x", "", "A = B", "1.0", "[km", "USER_DEFINED_X = 1")]
    for _ in range(ctx.n(200, 1000)):
        lists.append([(rng.choice(NAMES) + (str(i) if rng.random() < 0.7 else ""), rng.choice(gen.TEXTS + [""])) for i in range(rng.randint(1, 12))])
    for n in (41, 150, 400):
        lists.append([(rng.choice(NAMES) + (str(i) if rng.random() < 0.9 else ""), rng.choice(gen.TEXTS + [""])) for i in range(n)])
    for i, params in enumerate(lists):
        for name in names if i % 5 == 0 else names[i % len(names):][:1]:
            obj = gen.message(m, name, f"{ctx.seed}/p15/{name}/{i % 20}", p=0.5)
            data = obj.body.segment.data
            data.user_defined_parameters = m.UserDefinedType(
                comment=[rng.choice(gen.COMMENTS) for _ in range(rng.randint(0, 3))],
                user_defined=[m.UserDefinedParameterType(value=v, parameter=n) for n, v in params],
            )
            key = (name, i, tuple(params))
            ctx.case(key, sample={"type": name, "parameters": params})
            want = [("USER_DEFINED_" + n, v) for n, v in params]
            ok, text = ctx.guard(f"writing parameters {params} in {name}", lambda: io.NdmIo().to_string(obj, F.KVN))
            if ok:
                ents = kvnspec.entries(text)
                got = [(e[1], e[2]) for e in ents if e[0] == "K" and e[1].startswith("USER_DEFINED")]
                ctx.expect(got == want, f"parameters {params} in {name} are written as {got}", text=text)
            for what, t in (("written", text if ok else None), ("rendered", cases.render(kvnspec.expected(obj), random.Random(i)))):
                if t is None:
                    continue
                ok2, back = ctx.guard(f"reading parameters {params} in {name} ({what})", lambda: io.NdmIo().from_string(t), text=t)
                if not ok2:
                    continue
                u = getattr(back.body.segment.data, "user_defined_parameters", None)
                have = [(p.parameter, p.value or "") for p in u.user_defined] if u else None
                ctx.expect(have == params, f"parameters {params} in {name} ({what}) are read as {have}", text=t)
                ctx.expect(kvnspec.comments(back) == kvnspec.comments(obj), f"comments of parameters {params} in {name} ({what}): {kvnspec.comments(back)[-4:]} instead of {kvnspec.comments(obj)[-4:]}", text=t)
            if ctx.enough():
                return
