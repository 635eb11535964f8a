"""P17 vocabulary."""
from .. import kvnspec, snap

RULE = "one case per class, field and enumeration of the pinned schema; the space is finite and enumerated completely"


def run(ctx):
    pin, live = snap.pinned(), snap.live(ctx.models)
    def decide(name, ok, why):
        ctx.case(name)
        ctx.obligations.append({"name": name, "status": "discharged" if ok else "refuted", "why": why, "backends": {"evaluation": 1}})
        if not ok:
            ctx.fail(f"{name}: {why}")

    for n, want in pin["enums"].items():
        have = live["enums"].get(n)
        decide(f"enum {n}", have == want, f"is {diff(want, have)}")
    for n, want in pin["classes"].items():
        have = live["classes"].get(n)
        if have is None:
            decide(f"class {n}", False, "is missing")
            continue
        decide(f"class {n}", (have["meta"], have["qname"]) == (want["meta"], want["qname"]), f"is {have['meta']} {have['qname']} instead of {want['meta']} {want['qname']}")
        a, b = [f["attr"] for f in want["fields"]], [f["attr"] for f in have["fields"]]
        decide(f"items of {n}", a == b, f"are {diff(a, b)}")
        hf = {f["attr"]: f for f in have["fields"]}
        for f in want["fields"]:
            g = hf.get(f["attr"])
            decide(f"item {n}.{f['attr']}", g == f, f"is {g} instead of {f}")
    import dataclasses
    import enum

    import typing

    for n in snap.MESSAGES:  # the KVN keyword (attribute name in upper case) is the schema name
        seen = set()
        todo = [getattr(ctx.models, n)]
        while todo:
            c = todo.pop()
            if c in seen or not dataclasses.is_dataclass(c):
                continue
            seen.add(c)
            h = typing.get_type_hints(c)
            for f in dataclasses.fields(c):
                t = h[f.name]
                b = (typing.get_args(t) or (t,))[0]
                value = dataclasses.is_dataclass(b) and any(x.name == "value" for x in dataclasses.fields(b))
                if dataclasses.is_dataclass(b) and not value:
                    todo.append(b)
                elif f.metadata.get("type") == "Element" and f.name != "value" and f.metadata.get("name"):
                    k = f.metadata["name"]
                    decide(f"keyword of {c.__name__}.{f.name} in {n}", k == f.name.upper() or (value and len(dataclasses.fields(b)) > 2), f"is {k} in XML and {f.name.upper()} in KVN")
    ctx.functions.update(["model classes of " + "ccsds_ndm/models/ndmxml2 (class invariants)"])
    ctx.trusted += ["data/schema.json is the NDM XML 2.0.0 schema (pinned from the classes generated by xsdata from the XSD files)"]
    ctx.samples.append({"class": "Opm", "facts": pin["classes"]["Opm"]["fields"][:1]})


def diff(a, b):
    if b is None:
        return "missing"
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return f"{y!r} instead of {x!r} at {i}"
    return f"{len(b)} entries instead of {len(a)}"
