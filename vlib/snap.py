"""The pinned vocabulary: what the model classes of the tree must look like."""
import dataclasses
import enum
import json
import os
import typing
from decimal import Decimal

from . import env

PATH = os.path.join(env.VERIF, "data", "schema.json")
MESSAGES = ["Aem", "Apm", "Cdm", "Oem", "Omm", "Opm", "Rdm", "Tdm"]


def tname(t):
    o = typing.get_origin(t)
    if o is list:
        return "List[" + tname(typing.get_args(t)[0]) + "]"
    if o is typing.Union:
        a = [x for x in typing.get_args(t) if x is not type(None)]
        return "Optional[" + ",".join(tname(x) for x in a) + "]"
    return t.__name__


def meta_repr(v):
    if isinstance(v, Decimal):
        return "Decimal:" + str(v)
    if isinstance(v, (str, int, bool, type(None))):
        return v
    return repr(v)


_CTX = []


def _context():
    if not _CTX:
        from xsdata.formats.dataclass.context import XmlContext

        _CTX.append(XmlContext())
    return _CTX[0]


def describe_class(c):
    hints = typing.get_type_hints(c)
    out = []
    for f in dataclasses.fields(c):
        if f.default is not dataclasses.MISSING:
            d = "value:" + (str(f.default.value) if isinstance(f.default, enum.Enum) else repr(f.default))
        elif f.default_factory is not dataclasses.MISSING:
            d = "factory:" + f.default_factory.__name__
        else:
            d = "none"
        out.append(
            {
                "attr": f.name,
                "type": tname(hints[f.name]),
                "init": f.init,
                "default": d,
                "meta": {k: meta_repr(v) for k, v in sorted(f.metadata.items())},
            }
        )
    m = c.__dict__.get("Meta")
    return {
        "meta": {k: meta_repr(v) for k, v in sorted(vars(m).items()) if not k.startswith("__")} if m else None,
        "qname": _context().build(c).qname,
        "fields": out,
    }


def describe_enum(c):
    return [[n, meta_repr(m.value)] for n, m in c.__members__.items()]


def live(models):
    classes, enums = {}, {}
    for n in sorted(dir(models)):
        c = getattr(models, n)
        if isinstance(c, type) and issubclass(c, enum.Enum):
            enums[n] = describe_enum(c)
        elif dataclasses.is_dataclass(c) and isinstance(c, type):
            classes[n] = describe_class(c)
    return {"classes": classes, "enums": enums}


def pinned():
    with open(PATH) as f:
        return json.load(f)


if __name__ == "__main__":
    models, *_ = env.load()
    with open(PATH, "w") as f:
        json.dump(live(models), f, indent=0, sort_keys=True)
        f.write("\n")
