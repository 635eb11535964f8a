"""Random well-formed object trees over the live model classes.

Well-formed (this is the precondition of the KVN properties; every bullet is something KVN
cannot represent or the NDM schema excludes):
  * required fields are set; lists respect min_occurs; enumerations come from the schema;
  * covariance frames are non-empty; texts are without line breaks or surrounding white space, and do not end in "]";
  * epochs are of the form dddd-... without white space;
  * an attitude state has exactly the member its segment's ATTITUDE_TYPE announces, with
    QUATERNION_TYPE / EULER_ROT_SEQ present when that type needs them and rotation component
    keywords following EULER_ROT_SEQ;
  * a tracking observation has exactly one observable;
  * accelerations of an ephemeris line are all present or all absent;
  * a block which has comments has at least one keyword of its own;
  * user-defined parameter names are KVN keywords (upper case, digits, "_" and "-").
"""
import copy
import dataclasses
import enum
import functools
import random
import typing
from decimal import Decimal

from .snap import MESSAGES

TEXTS = [
    "V", "Name x", "a-b", "3C/4", "A=B", "x = y = z", "q [r] s", "[lead", "a  b   c", "Ünïcødé Δv",
    "2007-01-01", "2007", "1.5", "META_START", "COMMENT", "EPOCH", "<&>\"'", "N/A", "0", "-", "x" * 70,
    "USER_DEFINED_X", "key = value [km] tail", "Type", "AngleType", "a;b,c", "%", "100 %", "_", "=", "= x", "==", "None", "false",
    "word " * 60 + "end", "y" * 1500, "\u00a0".join(["a", "b"]), "tab\tin it", "x\u2028y",
]
COMMENTS = TEXTS + [
    "", "plain comment", "KEY = VALUE [km]", "unit at end [km]", "2000-01-01T00:00:00 1 2 3", "META_STOP", "COMMENT COMMENT",
    "QUATERNION_TYPE = FIRST", "QUATERNION_TYPE = LAST", "ATTITUDE_TYPE = SPIN", "EULER_ROT_SEQ = 321", "USER_DEFINED_X = 1", "CCSDS_OPM_VERS = 2.0", "COVARIANCE_START",
    "COV_REF_FRAME = RTN", "MAN_EPOCH_IGNITION = 2000-01-01T00:00:00", "long comment " * 40 + "end", "OBJECT_NAME = X", "[all]", "COMMENT = y", "DATA_STOP", "]",
]
NUMS = [
    "0", "-0", "0.0", "0.000", "1", "-1", "1.50", "-12.3400", "1E+5", "1E-30", "-2.5E-10", "123456789.123456789123456789",
    "0.1000000000000000055511151231257827", "1e400", "99999999999999999999999999999999999999", "0.30", "7.0E3", "+5",
]
EPOCHS = ["2007-01-{:02d}T01:02:03.{:03d}", "2021-{:03d}T23:59:{:02d}", "1999-12-{:02d}T00:00:00.{:06d}Z", "2030-02-{:02d}T00:00:{:02d}",
          "1858-11-{:02d}T00:00:00.{:02d}", "2150-12-{:02d}T12:00:{:02d}", "9999-12-{:02d}T23:59:59.{:03d}", "0001-01-{:02d}T00:00:{:02d}Z", "2016-366T23:59:60.{:02d}{:02d}",
          "2010-04-{:02d}T09:08:07.123456789012345678901{:03d}Z"]
PARAMS = ["P", "EARTH_MODEL", "USER_DEFINED_X", "COMMENT", "X-1", "A_B_C", "OBJECT_NAME", "1", "EPOCH", "META_START", "VERS_USER_DEFINED_2", "A/B", "MIXED.1", "Ä", "P[1]", "USER_DEFINED_", "DATA_STOP", "LONG_PARAMETER_NAME_WITH_MANY_CHARACTERS_IN_IT"]


@functools.lru_cache(None)
def hints(c):
    return typing.get_type_hints(c)


def base_type(t):
    a = typing.get_args(t)
    return a[0] if a else t


def is_list(t):
    return typing.get_origin(t) is list


def is_value_type(c):
    return dataclasses.is_dataclass(c) and any(f.name == "value" for f in dataclasses.fields(c))


ATT = {
    "QUATERNION": "quaternion_state",
    "QUATERNION/DERIVATIVE": "quaternion_derivative",
    "QUATERNION/RATE": "quaternion_euler_rate",
    "EULER_ANGLE": "euler_angle",
    "EULER_ANGLE/RATE": "euler_angle_rate",
    "SPIN": "spin",
    "SPIN/NUTATION": "spin_nutation",
}


class Gen:
    def __init__(self, models, seed, p=0.5, maxlist=3, comments=True, exotic=True, force=None):
        self.m = models
        self.r = random.Random(seed)
        self.p, self.maxlist, self.comments, self.exotic = p, maxlist, comments, exotic
        self.n = 0
        self.force = force or {}

    # leaves -----------------------------------------------------------------
    def text(self, pool):
        self.n += 1
        if not self.exotic:
            return f"V{self.n}"
        t = self.r.choice(pool)
        if t and self.r.random() < 0.5:
            t += f" {self.n}" if self.r.random() < 0.5 else str(self.n)
        return t

    def leaf(self, t, f, owner=None):
        self.n += 1
        name = f.name if f is not None else ""
        if t is str:
            if name == "comment":
                return self.text(COMMENTS)
            if name == "parameter":
                return self.r.choice(PARAMS) + (str(self.n) if self.r.random() < 0.7 else "")
            if "epoch" in name or (f is not None and "pattern" in f.metadata):
                return self.r.choice(EPOCHS).format(self.r.randrange(1, 29), self.n % 60)
            v = self.text(TEXTS)
            while v.endswith("]"):
                v = self.text(TEXTS)
            if self.exotic and name not in ("cov_ref_frame", "value") and self.r.random() < 0.03:
                return ""
            return v
        if t is Decimal:
            return Decimal(self.r.choice(NUMS)) if self.exotic and self.r.random() < 0.6 else Decimal(f"{self.n}.{self.n:04d}")
        if t is int:
            return self.r.choice([0, 1, self.n, 10**20 + self.n]) if self.exotic else self.n
        if isinstance(t, type) and issubclass(t, enum.Enum):
            return self.r.choice(list(t))
        raise TypeError(t)

    # trees ------------------------------------------------------------------
    def make(self, c, **over):
        kw = {}
        h = hints(c)
        for f in dataclasses.fields(c):
            if not f.init:
                continue
            if f.name in over:
                kw[f.name] = over[f.name]
                continue
            t = h[f.name]
            b = base_type(t)
            req = f.metadata.get("required")
            if is_list(t):
                lo = f.metadata.get("min_occurs", 0)
                hi = f.metadata.get("max_occurs", max(lo, self.maxlist))
                if f.name == "comment" and not self.comments:
                    hi = 0
                elif f.name == "comment" and self.exotic and self.r.random() < 0.15:
                    hi += 4
                n = self.r.randint(lo, hi) if self.r.random() < self.p else lo
                if (c.__name__, f.name) in self.force:
                    n = self.force[c.__name__, f.name]
                l = kw[f.name] = []
                for _ in range(n):
                    if l and self.exotic and self.r.random() < 0.15:
                        l.append(copy.deepcopy(self.r.choice(l)))  # two entries may be equal
                    else:
                        l.append(self.make(b) if dataclasses.is_dataclass(b) else self.leaf(b, f))
            elif dataclasses.is_dataclass(b):
                if req or self.r.random() < self.p:
                    kw[f.name] = self.make(b)
            elif f.name == "units":
                if self.r.random() < self.p:
                    kw[f.name] = self.leaf(b, f)
            elif req or f.name == "value" or self.r.random() < self.p:
                kw[f.name] = self.leaf(b, f)
        o = c(**kw)
        self.fix(o)
        return o

    def rot(self, obj, seq):
        for nm, key, suf in (("rotation_angles", "angle", "_ANGLE"), ("rotation_rates", "rate", "_RATE")):
            rv = getattr(obj, nm, None)
            if rv is None:
                continue
            for i, ch in enumerate(seq):
                comp = getattr(rv, f"rotation{i + 1}")
                kt = base_type(hints(type(comp))[key])
                setattr(comp, key, kt["XYZ"[int(ch) - 1] + suf])

    def fix(self, o):
        """Make the tree consistent (see the module text)."""
        n = type(o).__name__
        m, r = self.m, self.r
        if n == "TrackingDataObservationType":
            fs = [f for f in dataclasses.fields(o) if f.name != "epoch"]
            pick = r.choice(fs)
            for f in fs:
                setattr(o, f.name, None)
            t = base_type(hints(type(o))[pick.name])
            setattr(o, pick.name, self.make(t) if dataclasses.is_dataclass(t) else self.leaf(t, pick))
        elif n == "AemSegment":
            at = r.choice(sorted(ATT))
            md = o.metadata
            md.attitude_type = r.choice([x for x in m.AttitudeTypeType if x.value.upper() == at])
            md.quaternion_type = r.choice(list(m.QuaternionTypeType)) if at.startswith("QUAT") else None
            euler = at.startswith("EUL") or at.endswith("RATE")
            md.euler_rot_seq = r.choice(list(m.RotseqType)) if euler else None
            for st in o.data.attitude_state:
                self.att_state(st, at, md)
        elif n == "EulerElementsThreeType":
            self.rot(o, o.euler_rot_seq.value if o.euler_rot_seq else "123")
        elif n == "StateVectorAccType":
            if any(a is None for a in (o.x_ddot, o.y_ddot, o.z_ddot)):
                o.x_ddot = o.y_ddot = o.z_ddot = None
        elif n == "Ndm":
            for k in MESSAGES:
                for x in getattr(o, k.lower()):
                    x.__class__ = getattr(m, k)
        if getattr(o, "comment", None) and not owns_keyword(o):
            # a block of comments only is not representable (own keywords exist but are unset)
            o.comment = []

    def att_state(self, st, at, md):
        for f in dataclasses.fields(st):
            setattr(st, f.name, None)
        p, self.p = self.p, 1
        v = self.make(base_type(hints(type(st))[ATT[at]]))
        self.p = p
        setattr(st, ATT[at], v)
        if md.euler_rot_seq:
            self.rot(v, md.euler_rot_seq.value)
        return st


def owns_keyword(o):
    """Some keyword of the block itself is set, or the block has no keywords but comments."""
    own = [
        f for f in dataclasses.fields(o)
        if f.init and f.name != "comment" and f.metadata.get("name", "").isupper()
    ]
    if not own:
        return True
    return any(getattr(o, f.name) not in (None, []) for f in own)


def message(models, name, seed, **kw):
    return Gen(models, seed, **kw).make(getattr(models, name))
