"""What a KVN text of an object tree has to contain, from the standard (not from the code).

`expected(obj)` lists the entries of the text in order; `entries(text)` reads the entries of a
text with the layout rules of the standard; `norm(obj)` is what a KVN reader can get back.

Entries:   ("K", keyword, value, unit or None)   keyword = value [unit]
           ("C", text)                           COMMENT text
           ("D", (token, ...))                   a line of columns
           ("O", keyword, epoch, value)          a tracking observation
           ("M", marker)                         META_START and the like
"""
import copy
import dataclasses
import enum
from decimal import Decimal

from . import snap

MARKERS = {
    "AemMetadata": "META", "OemMetadata": "META", "TdmMetadata": "META",
    "AemData": "DATA", "TdmData": "DATA",
}
ALL_MARKERS = [a + b for a in ("META", "DATA", "COVARIANCE") for b in ("_START", "_STOP")]
COV = [
    f"c{a}_{b}"
    for i, a in enumerate(["x", "y", "z", "x_dot", "y_dot", "z_dot"])
    for b in ["x", "y", "z", "x_dot", "y_dot", "z_dot"][: i + 1]
]
COLUMN_CLASSES = ("StateVectorAccType", "OemCovarianceMatrixType", "AttitudeStateType", "TrackingDataObservationType")

_PIN = None


def keyword(cls, attr):
    """The keyword of an attribute, from the pinned schema."""
    global _PIN
    if _PIN is None:
        _PIN = {c: {f["attr"]: f["meta"].get("name") for f in d["fields"]} for c, d in snap.pinned()["classes"].items()}
    k = _PIN.get(cls, {}).get(attr)
    return k if k else attr


def order(obj):
    """Attributes in the order of the pinned schema (unknown classes: as declared)."""
    keyword("", "")
    n = type(obj).__name__
    live = [f.name for f in dataclasses.fields(obj) if f.init]
    pin = [a for a in _PIN.get(n, {}) if a in live]
    return pin + [a for a in live if a not in pin]


def bare(v):
    """The text of a value, without its unit."""
    if dataclasses.is_dataclass(v):
        v = v.value
    if isinstance(v, enum.Enum):
        v = v.value
    return str(v)


def kv(cls, attr, v):
    if dataclasses.is_dataclass(v):
        kw = keyword(cls, attr)
        for f in dataclasses.fields(v):
            if f.name not in ("value", "units"):
                kw = getattr(v, f.name).value
        units = getattr(v, "units", None)
        return ("K", kw, bare(v), None if units is None else str(units.value))
    return ("K", keyword(cls, attr), bare(v), None)


def rotation_values(v):
    return [bare(getattr(v, f"rotation{i}")) for i in (1, 2, 3)]


def attitude_columns(st, qtype):
    """Columns of an attitude line (ADM): epoch, then the columns of the attitude type."""
    last = qtype is not None and qtype.upper() == "LAST"
    q = ["q1", "q2", "q3", "qc"] if last else ["qc", "q1", "q2", "q3"]
    name, v = [(f.name, getattr(st, f.name)) for f in dataclasses.fields(st) if getattr(st, f.name) is not None][0]
    cols = [v.epoch]
    if name.startswith("quaternion"):
        cols += [bare(getattr(v.quaternion, a)) for a in q]
        if name == "quaternion_derivative":
            cols += [bare(getattr(v.quaternion_rate, a + "_dot")) for a in q]
        if name == "quaternion_euler_rate":
            cols += rotation_values(v.rotation_rates)
    elif name.startswith("euler"):
        cols += rotation_values(v.rotation_angles)
        if name == "euler_angle_rate":
            cols += rotation_values(v.rotation_rates)
    else:
        cols += [bare(getattr(v, a)) for a in ("spin_alpha", "spin_delta", "spin_angle", "spin_angle_vel")]
        if name == "spin_nutation":
            cols += [bare(getattr(v, a)) for a in ("nutation", "nutation_per", "nutation_phase")]
    return cols


def expected(obj):
    out = [("K", obj.id, obj.version, None)]
    _block(obj, out, {})
    return out


def _block(obj, out, ctx):
    cls = type(obj).__name__
    if cls.endswith("Segment"):
        ctx = dict(ctx, q=getattr(getattr(obj, "metadata", None), "quaternion_type", None))
    if cls == "StateVectorAccType":
        out.append(("D", tuple(bare(getattr(obj, a)) for a in order(obj) if getattr(obj, a) is not None)))
        return
    if cls == "AttitudeStateType":
        q = ctx.get("q")
        out.append(("D", tuple(attitude_columns(obj, q.value if q is not None else None))))
        return
    if cls == "TrackingDataObservationType":
        a = [x for x in order(obj) if x != "epoch" and getattr(obj, x) is not None][0]
        out.append(("O", keyword(cls, a), obj.epoch, bare(getattr(obj, a))))
        return
    for a in order(obj):
        v = getattr(obj, a)
        if v is None or v == []:
            continue
        if a == "comment":
            out += [("C", c) for c in v]
        elif a == "user_defined":
            out += [("K", "USER_DEFINED_" + u.parameter.upper(), u.value or "", None) for u in v]
        elif isinstance(v, list):
            if type(v[0]).__name__ == "OemCovarianceMatrixType":
                out.append(("M", "COVARIANCE_START"))
                for x in v:
                    _covariance(x, out)
                out.append(("M", "COVARIANCE_STOP"))
            else:
                for x in v:
                    if dataclasses.is_dataclass(x) and not hasattr(x, "value"):
                        _sub(x, out, ctx)
                    else:
                        out.append(kv(cls, a, x))
        elif dataclasses.is_dataclass(v) and not hasattr(v, "value"):
            _sub(v, out, ctx)
        else:
            out.append(kv(cls, a, v))


def _sub(v, out, ctx):
    m = MARKERS.get(type(v).__name__)
    if m:
        out.append(("M", m + "_START"))
    _block(v, out, ctx)
    if m:
        out.append(("M", m + "_STOP"))


def _covariance(x, out):
    out += [("C", c) for c in x.comment]
    out.append(("K", "EPOCH", x.epoch, None))
    if x.cov_ref_frame is not None:
        out.append(("K", "COV_REF_FRAME", bare(x.cov_ref_frame), None))
    vals = [bare(getattr(x, a)) for a in COV]
    for n in range(6):
        k = n * (n + 1) // 2
        out.append(("D", tuple(vals[k : k + n + 1])))


def entries(text):
    """The entries of a KVN text, by the layout rules of the standard."""
    out = []
    for line in text.split("\n"):
        line = line.strip()
        if not line:
            continue
        if line.startswith("COMMENT"):
            c = line[7:].strip()
            if c.startswith("="):
                c = c[1:].strip()
            out.append(("C", c))
        elif "=" in line:
            k, _, v = line.partition("=")
            v, u = v.strip(), None
            if v.endswith("]") and "[" in v:
                v, _, u = v[:-1].partition("[")
                v, u = v.strip(), u.strip()
            out.append(("K", k.strip(), v, u))
        elif line in ALL_MARKERS:
            out.append(("M", line))
        else:
            out.append(("D", tuple(line.split())))
    return out


def same(exp, got):
    """Expected against actual entry."""
    if exp[0] == "O":
        return got[0] == "K" and got[1] == exp[1] and got[3] is None and tuple(got[2].split()) == exp[2:]
    return tuple(exp) == tuple(got)


def diff(exp, got):
    """None, or a description of the first difference."""
    for i, (e, g) in enumerate(zip(exp, got)):
        if not same(e, g):
            return f"entry {i}: expected {e!r}, got {g!r}"
    if len(exp) != len(got):
        n = min(len(exp), len(got))
        return f"expected {len(exp)} entries, got {len(got)}: first extra {(exp + got)[n] if len(got) < len(exp) else got[n]!r}"
    return None


# what comes back ------------------------------------------------------------
def comments(obj, out=None):
    """All comments of a tree, in order."""
    out = [] if out is None else out
    for a in order(obj):
        v = getattr(obj, a)
        if a == "comment":
            out.extend(v)
        else:
            for x in v if isinstance(v, list) else [v]:
                if dataclasses.is_dataclass(x):
                    comments(x, out)
    return out


def positions(obj, out=None, n=None):
    """How many values come before each comment: a comment may only be moved between blocks which adjoin."""
    out, n = [] if out is None else out, n or [0]
    for a in order(obj):
        v = getattr(obj, a)
        if a == "comment":
            out.extend(n[0] for _ in v)
        elif a != "units":
            for x in v if isinstance(v, list) else [v]:
                if dataclasses.is_dataclass(x):
                    positions(x, out, n)
                elif x is not None and not (a == "value" and isinstance(x, str) and x == ""):
                    n[0] += 1
    return out


def norm(obj, in_columns=False, keep_comments=False):
    """A comparable value: units of column data are dropped, empty optional blocks and comments too."""
    cls = type(obj).__name__
    in_columns = in_columns or cls in COLUMN_CLASSES
    items = []
    for a in order(obj):
        v = getattr(obj, a)
        if a == "comment" and not keep_comments:
            continue
        if a == "units" and in_columns:
            continue
        if isinstance(v, list):
            v = tuple(_norm1(x, in_columns, keep_comments) for x in v)
            if not v:
                continue
        else:
            v = None if a == "value" and isinstance(v, str) and v == "" else _norm1(v, in_columns, keep_comments)
        if v is None:
            continue
        items.append((a, v))
    if not items:
        return None
    return (cls, tuple(items))


def _norm1(v, in_columns, keep_comments):
    if dataclasses.is_dataclass(v):
        return norm(v, in_columns, keep_comments)
    if isinstance(v, enum.Enum):
        return ("enum", type(v).__name__, v.value)
    if isinstance(v, Decimal):
        return ("decimal", number(v))
    return (type(v).__name__, v) if v is not None else None


def number(v):
    """The exact value of a decimal (the representation 7.0E+3 of 7000 does not matter)."""
    if not v.is_finite():
        return str(v)
    s, d, e = v.as_tuple()
    t = "".join(map(str, d)).lstrip("0")
    k = t.rstrip("0")
    return "0" if not k else f"{'-' if s else ''}{k}E{e + len(t) - len(k)}"


def same_number(a, b):
    if a == b:
        return True
    try:
        return number(Decimal(a)) == number(Decimal(b))
    except (ArithmeticError, ValueError, TypeError):
        return False


def same_numbers(e, g):
    """Two entries of two texts, up to the representation of numbers."""
    if e == g:
        return True
    if e[0] != g[0] or len(e) != len(g):
        return False
    if e[0] == "D":
        return len(e[1]) == len(g[1]) and all(map(same_number, e[1], g[1]))
    if e[0] == "K":
        x, y = e[2].split(), g[2].split()
        return e[1] == g[1] and e[3] == g[3] and len(x) == len(y) and all(map(same_number, x, y))
    return False


def normdiff(a, b, path=""):
    if a == b:
        return None
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == 2 and len(b) == 2 and a[0] == b[0] and isinstance(a[1], tuple) and isinstance(b[1], tuple):
        da, db = a[1], b[1]
        try:
            ka, kb = dict(da), dict(db)
        except (TypeError, ValueError):
            ka = kb = None
        if ka is not None:
            for k in list(ka) + [k for k in kb if k not in ka]:
                if ka.get(k) != kb.get(k):
                    x, y = ka.get(k), kb.get(k)
                    if isinstance(x, tuple) and isinstance(y, tuple) and x and y and isinstance(x[0], tuple) and isinstance(y[0], tuple):
                        for i in range(max(len(x), len(y))):
                            xi, yi = x[i] if i < len(x) else None, y[i] if i < len(y) else None
                            if xi != yi:
                                return normdiff(xi, yi, f"{path}.{k}[{i}]")
                    return normdiff(x, y, f"{path}.{k}")
    return f"{path}: {a!r:.300} became {b!r:.300}"


def clone(obj):
    return copy.deepcopy(obj)
