"""The messages KVN can represent, as symbolic inputs, and concrete instances of them."""
import dataclasses
import typing
from decimal import Decimal

import z3

from ..gen import ATT
from .core import SStr, Unsupported
from .values import SEnum, SList, SNum, SObj, SOpt, World, base_type, hints


def domval(it, var, pred, what):
    """pred(value) of a variable with finitely many values (decided by cases)."""
    ps = it.e.ps(SStr(var))
    if len(ps) == 1 and ps[0] is var:
        return it.e.splitdom(var, pred, what)
    if all(isinstance(p, str) for p in ps):
        return pred("".join(ps))
    raise Unsupported(what)


class KvnWorld(World):
    """Well-formed messages (see gen.py): the preconditions of the KVN properties."""

    def which(self, obj):
        """The observable which a tracking observation has."""
        path = obj.path + ":observable"
        if path not in self.vars:
            names = tuple(f.name for f in dataclasses.fields(obj.cls) if f.name != "epoch")
            self.var(path, "text", nonempty=True, dom=names)
        return self.vars[path]

    def metadata(self, obj):
        """The metadata of the segment an attitude state is part of."""
        seg = self.objs[obj.path.rpartition(".data.")[0]]
        return seg.get("metadata")

    def field(self, obj, name):
        cls = obj.cls.__name__
        f = next(f for f in dataclasses.fields(obj.cls) if f.name == name)
        t = base_type(hints(obj.cls)[name])
        path = f"{obj.path}.{name}"

        def opt(decide):
            return SOpt(path, lambda: self.make(t, path, f, obj), decide)

        if cls == "TrackingDataObservationType" and name != "epoch":
            return opt(lambda it: domval(it, self.which(obj), lambda x: x == name, "observable"))
        if cls == "AttitudeStateType":
            return opt(lambda it: domval(it, self.metadata(obj).get("attitude_type").var, lambda x: ATT.get(x.upper()) == name, "attitude type"))
        if cls == "AemMetadata" and name in ("quaternion_type", "euler_rot_seq"):
            at = obj.get("attitude_type").var
            need = (lambda x: x.upper().startswith("QUAT")) if name == "quaternion_type" else (lambda x: x.upper().startswith("EUL") or x.upper().endswith("RATE"))
            return opt(lambda it: domval(it, at, need, f"{name} needed") or it.e.key(("some", path), (True, False)))
        if cls == "StateVectorAccType" and name.endswith("ddot"):
            return opt(lambda it: it.e.key(("some", obj.path + ":accelerations"), (True, False)))
        if cls == "UserDefinedParameterType" and name == "value":
            return SOpt(path, lambda: self.make(t, path, f, obj))
        if ".attitude_state[" in obj.path and dataclasses.is_dataclass(t) and name != "units":
            return self.make(t, path, f, obj)  # all columns of an attitude line are there
        return super().field(obj, name)


class Build:
    """A concrete instance of a symbolic object, for a sample of a path."""

    def __init__(self, vc, smp, same=()):
        self.same = same  # lists whose elements are all the generic one
        self.vc, self.smp, self.r = vc, smp, vc.rng
        self.z = z3.Solver()
        self.z.add(*smp.s.z)
        self.lens = {}

    def text(self, s):
        return self.smp.text(s)

    def present(self, opt):
        it = self.vc.it
        if opt.decide is not None:
            old, trail, pos = it.e.store, it.e.trail, it.e.pos
            for k in range(6):
                # decided by what the sample says
                it.e.store = old.copy()
                st = self.smp.s.copy()
                for v in it.w.vars.values():
                    if self.vc.e.F(v).dom is not None or st.facts.get(v) is not None and st.facts[v].dom is not None:
                        if v not in st.bind:
                            st.bind[v] = (self.smp.get(v),)
                it.e.store = st
                it.e.trail, it.e.pos = [[self.r.randrange(2), 2, ""] for _ in range(4)], 0
                try:
                    r = opt.decide(it)
                    for k_, v_ in st.keys.items():
                        self.smp.s.keys.setdefault(k_, v_)
                    return r
                finally:
                    it.e.store, it.e.trail, it.e.pos = old, trail, pos
        k = ("some", opt.path)
        if k not in self.smp.s.keys:
            self.smp.s.keys[k] = self.r.random() < 0.6
        return self.smp.s.keys[k]

    def len(self, l):
        if l.path not in self.lens:
            lo, hi = l.field.metadata.get("min_occurs", 0), l.field.metadata.get("max_occurs") or 3
            opts = [k for k in range(0, 4) if lo <= k <= hi]
            self.r.shuffle(opts)
            if self.r.random() < 0.5:
                opts.sort(key=lambda k: k != 1)
            for k in opts:
                if self.z.check(l.len == k) == z3.sat:
                    self.z.add(l.len == k)
                    self.lens[l.path] = k
                    break
            else:
                raise LookupError(f"length of {l.path}")
        return self.lens[l.path]

    def make(self, v):
        if isinstance(v, SOpt):
            return self.make(v.inner()) if self.present(v) else None
        if isinstance(v, SObj):
            kw = {}
            for f in dataclasses.fields(v.cls):
                if f.init:
                    kw[f.name] = self.make(v.get(f.name))
            return v.cls(**kw)
        if isinstance(v, SList):
            n = self.len(v)
            g = self.r.randrange(n) if n else 0
            return [self.make(v.element("*" if i == g or v.path in self.same else str(i))) for i in range(n)]
        if isinstance(v, SEnum):
            x = self.smp.get(v.var)
            return next(m for m in v.cls if str(m.value) == x)
        if isinstance(v, SNum):
            x = self.text(v.text)
            try:
                n = v.cls(x)
            except (ValueError, ArithmeticError):
                raise LookupError(x) from None
            if str(n) != x:
                raise LookupError(x)
            return n
        if isinstance(v, (SStr, str)):
            return self.text(v)
        return v
