"""P10, P11, P13, P15: the KVN text of every message of a type (proved for all trees, all list lengths)."""
import dataclasses
import itertools
import time

from .. import kvnspec, snap
from .core import Infeasible, SStr, Unsupported
from .interp import SJoin
from .kvnworld import Build, KvnWorld
from .sample import Sampler, consistent
from .values import Case, Chunk, Earlier, ForEach, SEnum, SList, SNum, SObj, SOpt
from .vc import VC, Found, Refuted, outcome_of
from .vcs_lines import equal, spec_line, strip

TOP = {"Aem": "aem", "Oem": "oem", "Tdm": "tdm"}


# the specification: nodes are entries, ForEach of nodes, or functions giving nodes in the current case
def txt(it, v):
    v = it.force(v)
    if isinstance(v, SObj):
        v = it.force(v.get("value"))
    if isinstance(v, SEnum):
        return it.e.simp(SStr(v.var))
    if isinstance(v, SNum):
        return v.text
    if isinstance(v, (str, SStr)):
        return v
    return str(v)


def is_value(c):
    return dataclasses.is_dataclass(c) and any(f.name == "value" for f in dataclasses.fields(c))


def order(cls):
    kvnspec.keyword("", "")
    live = [f.name for f in dataclasses.fields(cls) if f.init]
    pin = [a for a in kvnspec._PIN.get(cls.__name__, {}) if a in live]
    return pin + [a for a in live if a not in pin]


def leaf(cls, a, v):
    """keyword = value [unit]"""
    def unit(it):
        kw = kvnspec.keyword(cls.__name__, a)
        if isinstance(v, SObj):
            for n in v.names():
                if n not in ("value", "units"):
                    kw = txt(it, v.get(n))
            u = it.force(v.get("units")) if "units" in v.names() else None
            return [("K", kw, txt(it, v), None if u is None else txt(it, u))]
        return [("K", kw, txt(it, v), None)]

    return unit


def item(cls, a, v, ctx):
    if isinstance(v, SObj) and not is_value(v.cls):
        m = kvnspec.MARKERS.get(v.cls.__name__)
        return ([("M", m + "_START")] if m else []) + block(v, ctx) + ([("M", m + "_STOP")] if m else [])
    return [leaf(cls, a, v)]


def block(obj, ctx):
    cls, n = obj.cls, obj.cls.__name__
    if n.endswith("Segment") and "metadata" in obj.names() and "quaternion_type" in obj.get("metadata").names():
        ctx = dict(ctx, q=obj.get("metadata").get("quaternion_type"))
    if n == "StateVectorAccType":
        def columns(it):
            vals = [it.force(obj.get(a)) for a in order(cls)]
            return [("D", [txt(it, v) for v in vals if v is not None])]
        return [columns]
    if n == "AttitudeStateType":
        return [lambda it: attitude(it, obj, ctx)]
    if n == "TrackingDataObservationType":
        def one(it):
            for a in order(cls):
                if a != "epoch":
                    v = it.force(obj.get(a))
                    if v is not None:
                        return [("O", kvnspec.keyword(n, a), txt(it, obj.get("epoch")), txt(it, v))]
            return []
        return [one]
    if n == "OemCovarianceMatrixType":
        out = item_of(cls, obj, "comment", ctx)
        out.append(leaf(cls, "epoch", obj.get("epoch")))
        out += item_of(cls, obj, "cov_ref_frame", ctx)
        for i in range(6):
            k = i * (i + 1) // 2
            out.append(lambda it, k=k, i=i: [("D", [txt(it, obj.get(a)) for a in kvnspec.COV[k:k + i + 1]])])
        return out
    out = []
    for a in order(cls):
        out += item_of(cls, obj, a, ctx)
    return out


def item_of(cls, obj, a, ctx):
    v = obj.get(a)
    if isinstance(v, SOpt):
        def opt(it):
            x = it.force(v)
            return [] if x is None else item(cls, a, x, ctx)
        return [opt]
    if isinstance(v, SList):
        x = v.element()
        if a == "comment":
            return [ForEach(v, [("C", x)])]
        if a == "user_defined":
            def user(it):
                u = it.force(x.get("value"))
                return [("K", it.e.concat("USER_DEFINED_", x.get("parameter")), "" if u is None else u, None)]
            return [ForEach(v, [user])]
        f = ForEach(v, item(cls, a, x, ctx))
        if v.elem.__name__ == "OemCovarianceMatrixType":
            def cov(it):
                it.w.ensure(v)
                return [("M", "COVARIANCE_START"), f, ("M", "COVARIANCE_STOP")] if it.e.ztruth(v.len > 0) else []
            return [cov]
        return [f]
    return item(cls, a, v, ctx)


def attitude(it, obj, ctx):
    q = it.force(ctx["q"])
    last = False
    if q is not None:
        from .kvnworld import domval

        last = domval(it, q.var, lambda x: x.upper() == "LAST", "quaternion type")
    qs = ["q1", "q2", "q3", "qc"] if last else ["qc", "q1", "q2", "q3"]
    name, v = next((a, x) for a in order(obj.cls) for x in [it.force(obj.get(a))] if x is not None)
    cols = [txt(it, v.get("epoch"))]

    def rot(o):
        return [txt(it, o.get(f"rotation{i}")) for i in (1, 2, 3)]

    if name.startswith("quaternion"):
        cols += [txt(it, v.get("quaternion").get(a)) for a in qs]
        if name == "quaternion_derivative":
            cols += [txt(it, v.get("quaternion_rate").get(a + "_dot")) for a in qs]
        if name == "quaternion_euler_rate":
            cols += rot(v.get("rotation_rates"))
    elif name.startswith("euler"):
        cols += rot(v.get("rotation_angles"))
        if name == "euler_angle_rate":
            cols += rot(v.get("rotation_rates"))
    else:
        cols += [txt(it, v.get(a)) for a in ("spin_alpha", "spin_delta", "spin_angle", "spin_angle_vel")]
        if name == "spin_nutation":
            cols += [txt(it, v.get(a)) for a in ("nutation", "nutation_per", "nutation_phase")]
    return [("D", cols)]


class Mismatch:
    def __init__(self, store, why):
        self.store, self.why = store, why


class Compare:
    """Do the lines G hold exactly the entries S, in every case?"""

    def __init__(self, it, limit=20000, hunt=None):
        self.it, self.e, self.left = it, it.e, limit
        self.hunt, self.hunts = hunt, 6

    def entry(self, g, s):
        """None, or why the line g is not the entry s (current case)."""
        it, e = self.it, self.e
        want = spec_line(e, g)
        if want is None:
            return f"a blank line instead of {s!r}"
        kind = s[0]
        if kind == "C":
            ok = want[0] == "COMMENT" and len(want) == 2 and equal(it, want[1], s[1])
        elif kind == "M":
            ok = len(want) == 1 and equal(it, want[0], s[1])
        elif kind == "K":
            parts = [s[1], s[2]] + ([] if s[3] is None else [s[3]])
            ok = isinstance(want, list) and len(want) == len(parts) and all(equal(it, a, b) for a, b in zip(want, parts))
        else:
            if kind == "O":
                ok = isinstance(want, list) and len(want) == 2 and equal(it, want[0], s[1])
                text, toks = want[-1], s[2:]
            else:
                ok, text, toks = len(want) == 1, want[0], s[1]
            if ok:
                w = e.words(text) if isinstance(text, SStr) else text.split()
                ok = len(w) == len(toks) and all(equal(it, a, b) for a, b in zip(w, toks))
        return None if ok else f"{g!r} (read as {want!r}) instead of {s!r}"

    def blank(self, g):
        return isinstance(g, str) and not g.strip()

    def seq(self, G, S):
        """A Mismatch or None, for the sequences in the current case (all subcases)."""
        e = self.e
        self.left -= 1
        if self.left < 0:
            raise Unsupported("comparison with the specification too long")
        i = j = 0
        G = list(G)
        while True:
            while i < len(G) and (self.blank(G[i]) or isinstance(G[i], Case) and len(G[i].arms) == 1):
                if isinstance(G[i], Case):
                    e.reassume(G[i].arms[0][0])
                    G[i:i + 1] = G[i].arms[0][1]
                    continue
                i += 1
            if i >= len(G) and j >= len(S):
                return None
            g = G[i] if i < len(G) else None
            s = S[j] if j < len(S) else None
            gl = g is not None and not isinstance(g, (Chunk, SJoin))
            sl = s is not None and isinstance(s, tuple)
            if gl and sl:
                bad = self.within(lambda: self.entry_or_skip(g, s))
                if bad:
                    return bad
                i, j = i + 1, j + 1
                continue
            if isinstance(g, ForEach) and isinstance(s, ForEach) and g.src is s.src:
                bad = self.each(g, s)
                if bad:
                    return bad
                i, j = i + 1, j + 1
                continue
            if (g is None or gl) and (s is None or sl):
                return Mismatch(e.store.copy(), f"{g!r} instead of {s!r}")
            first = None
            for a, b in ((1, 1), (0, 1), (1, 0), (2, 1), (1, 2), (2, 2), (3, 1), (1, 3), (3, 2), (2, 3), (3, 3), (1, len(S) - j), (len(G) - i, 1), (len(G) - i, len(S) - j), (4, 1), (1, 4), (1, 5), (1, 6), (1, 7), (1, 8)):
                if i + a > len(G) or j + b > len(S):
                    continue
                bad = self.group(G[i:i + a], S[j:j + b])
                if bad is None:
                    i, j = i + a, j + b
                    break
                first = first or bad
                if first is bad and self.hunt and self.hunts > 0:
                    self.hunts -= 1
                    self.hunt(bad)
            else:
                return first or Mismatch(e.store.copy(), f"{g!r} instead of {s!r}")

    def entry_or_skip(self, g, s):
        why = self.entry(g, s)
        return Mismatch(self.e.store.copy(), why) if why else None

    def within(self, fn):
        for st, r in self.e.explore(fn):
            if r[0] != "ok":
                raise Unsupported(f"specification: {r[1]!r}")
            if r[1] is not None:
                return r[1]
        return None

    def flat(self, items):
        out = []
        for x in items:
            if isinstance(x, Case):
                out += self.flat(self.it.pick(x))
            elif isinstance(x, Chunk):
                raise Unsupported("a line with a part for each element of a list")
            else:
                out.append(x)
        return out

    def each(self, g, s):
        def run():
            self.it.w.ensure(g.src)
            if not self.e.zfeasible(g.src.len > 0):
                raise Infeasible
            self.e.zassume(g.src.len > 0)
            self.e.setkey(("generic", g.src.path), True)
            return self.seq(g.items, s.items)

        return self.within(run)

    def group(self, G, S):
        def run():
            g2, s2 = [], []
            grown = False
            for g in G:
                if isinstance(g, SJoin):
                    g2.append(self.it.e.concat(*[y for x in self.flat(g.items) for y in (g.sep, x)][1:]))
                    grown = True
                elif isinstance(g, Case):
                    g2 += self.it.pick(g)
                    grown = True
                elif isinstance(g, Earlier):
                    raise Unsupported("earlier iterations")
                else:
                    g2.append(g)
            for s in S:
                if callable(s):
                    s2 += s(self.it)
                    grown = True
                else:
                    s2.append(s)
            g3, s3 = [], []
            for x in g2:
                if isinstance(x, ForEach) and not any(isinstance(y, ForEach) and y.src is x.src for y in s2):
                    if not self.e.zfeasible(x.src.len > 0):
                        grown = True
                        continue
                g3.append(x)
            for x in s2:
                if isinstance(x, ForEach) and not any(isinstance(y, ForEach) and y.src is x.src for y in g2):
                    self.it.w.ensure(x.src)
                    if not self.e.zfeasible(x.src.len > 0):
                        grown = True
                        continue
                s3.append(x)
            if not grown:
                return Mismatch(self.e.store.copy(), f"{g2!r:.300} instead of {s2!r:.300}")
            return self.seq(g3, s3)

        return self.within(run)


class Writer(VC):
    """NdmKvnIo.to_string gives exactly the entries of the object, in order."""

    def __init__(self, ctx, name, judge):
        super().__init__(ctx, f"NdmKvnIo.to_string: the text of every {name.upper()} is its entries in schema order", merging=True, budget=150)
        self.judge = judge
        self.it.w = KvnWorld(self.e)
        self.cls = getattr(ctx.models, name)
        self.obj = SObj(self.cls, name.lower(), self.it.w)
        self.it.w.objs[self.obj.path] = self.obj
        self.name_ = name

    def body(self, it):
        return it.call(self.ctx.kvn.NdmKvnIo().to_string, (self.obj,), {})

    def lines(self, v):
        if isinstance(v, SJoin) and v.sep == "\n":
            return list(v.items)
        if isinstance(v, (str, SStr)):
            return self.e.split(v, "\n") if isinstance(v, SStr) else v.split("\n")
        raise Unsupported(f"other representation of the text: {v!r:.100}")

    def post(self, it, outcome):
        if outcome[0] != "ok":
            raise Refuted(f"raises {outcome[1]!r:.200}")
        G = self.lines(outcome[1])
        S = [("K", self.pin("id"), self.pin("version"), None)] + block(self.obj, {})
        def hunt(bad):
            """Is this a failure already?"""
            got = self.confirm(bad.store, outcome, bad.why, 12)
            if got:
                raise Found(*got)

        before, it.e.deadline = it.e.deadline, min(it.e.deadline, time.time() + max(5, self.budget / 2))
        try:
            bad = Compare(it, hunt=hunt).seq(G, S)
        except Unsupported:
            it.e.deadline = before
            got = self.confirm(it.e.store, outcome, "the text cannot be compared with the specification", 100)
            if got:
                raise Found(*got) from None
            raise
        it.e.deadline = before
        if bad is not None:
            keep = it.e.store
            it.e.store.facts, it.e.store.bind, it.e.store.keys, it.e.store.z = bad.store.facts, bad.store.bind, bad.store.keys, bad.store.z
            raise Refuted(bad.why)

    def pin(self, a):
        d = snap.pinned()["classes"][self.name_]
        return next(f["default"] for f in d["fields"] if f["attr"] == a).partition(":")[2].strip("'\"")

    # instances ------------------------------------------------------------
    def walk(self, G):
        """A case of the text: (store, lines)."""
        e, r = self.e, self.rng
        out = []

        def go(items):
            for x in items:
                if isinstance(x, Case):
                    arms = list(x.arms)
                    r.shuffle(arms)
                    for log, sub in arms:
                        keep = e.store
                        e.store = keep.copy()
                        try:
                            e.reassume(log)
                        except Infeasible:
                            e.store = keep
                            continue
                        go(sub)
                        break
                    else:
                        raise LookupError("no case")
                elif isinstance(x, ForEach):
                    self.it.w.ensure(x.src)
                    for k in r.sample([0, 1], 2) + [2, 3]:
                        if e.zfeasible(x.src.len == k):
                            e.zassume(x.src.len == k)
                            self.same.add(x.src.path)
                            for _ in range(k):
                                go(x.items)
                            break
                    else:
                        raise LookupError("length")
                elif isinstance(x, Earlier):
                    pass
                elif isinstance(x, SJoin):
                    keep, n = list(out), len(out)
                    go(x.items)
                    out[:] = keep + [e.concat(*[y for z in out[n:] for y in (x.sep, z)][1:])]
                else:
                    out.append(x)

        go(G)
        return out

    def instance(self, store, outcome, show=True):
        """(object, predicted text) of a random case."""
        e = self.e
        base = e.store
        trail, pos = e.trail, e.pos
        e.store = store.copy()
        e.trail, e.pos = [], 0
        self.same = set()
        try:
            out = self.walk(self.lines(outcome[1])) if outcome[0] == "ok" else None
            smp = Sampler(e, e.store, self.rng)
            if not consistent(e.store, smp):
                raise LookupError
            obj = Build(self, smp, self.same).make(self.obj)
            return obj, None if out is None or not show else "\n".join(self.shown(smp, x) for x in out)
        except Infeasible:
            raise LookupError from None
        finally:
            e.store, e.trail, e.pos = base, trail, pos

    def shown(self, smp, x):
        return x.sep.join(self.shown(smp, y) for y in x.items) if isinstance(x, SJoin) else smp.text(x)

    native = True

    def crosscheck(self, store, outcome):
        n = 0
        for _ in range(60):
            try:
                obj, text = self.instance(store, outcome)
            except LookupError:
                continue
            n += 1
            self.crosschecks += 1
            st, real = outcome_of(lambda: self.ctx.kvn.NdmKvnIo().to_string(obj))
            if st != outcome[0] or st == "ok" and real != text:
                d = next(((i, a, b) for i, (a, b) in enumerate(itertools.zip_longest((text or "").split("\n"), str(real).split("\n"))) if a != b), None)
                self.mismatches.append(f"predicted {outcome[0]} {d!r:.300}, got {st} in {real!r:.400}")
            if n >= self.samples:
                break
        return 1 if n else 0

    def confirm(self, store, outcome, why, tries=150):
        for _ in range(tries):
            try:
                obj, _ = self.instance(store, outcome, False)
            except LookupError:
                continue
            w = self.see(obj)
            if w:
                return f"{why:.200}: {w}", {"message": self.name_, "object": repr(obj)[:4000]}
        return None

    def see(self, obj):
        st, text = outcome_of(lambda: self.ctx.kvn.NdmKvnIo().to_string(obj))
        if st == "exc":
            return f"writing raised {text!r:.200}"
        return self.judge(obj, type(obj).__name__, text)


def writers(ctx, names, judge):
    for n in names:
        Writer(ctx, n, judge).run()


def p10(ctx):
    from ..props import p10

    writers(ctx, snap.MESSAGES, p10.judge)


def p11(ctx):
    from ..props import p11

    writers(ctx, ("Aem", "Oem", "Tdm"), p11.judge)


def p13(ctx):
    from ..props import p13

    writers(ctx, snap.MESSAGES, p13.check)


def p15(ctx):
    from ..props import p15

    writers(ctx, sorted(p15.owners(ctx)), p15.judge)


def p03(ctx):
    from ..props import p03

    writers(ctx, snap.MESSAGES, p03.header)
