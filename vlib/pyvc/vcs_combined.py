"""P04: combined messages."""
import z3

from .. import gen, snap
from .core import PyExc, SStr, Unsupported
from .values import Chunk, ForEach, Opaque, SList, SObj, World
from .vc import VC, Refuted, outcome_of
from . import vcs_xml
from .kvnworld import Build


class FullWorld(World):
    """The members of a combined message have their full classes, as after reading."""

    def __init__(self, eng, models, root):
        super().__init__(eng)
        self.models, self.root = models, root

    def list(self, path, elem, f, obj):
        l = super().list(path, elem, f, obj)
        if obj is not None and obj.path == self.root and f.name.capitalize() in snap.MESSAGES:
            l.elem = getattr(self.models, f.name.capitalize())
        return l


def lists(obj):
    return {n.lower(): obj.get(n.lower()) for n in snap.MESSAGES}


def total(it, obj):
    for l in lists(obj).values():
        it.w.ensure(l)
    return z3.Sum([l.len for l in lists(obj).values()])


def counts(vc, smp, obj):
    """Numbers of members that satisfy the path."""
    s = z3.Solver()
    s.add(*smp.s.z)
    ls = lists(obj)
    for l in ls.values():
        s.add(l.len >= 0)
    s.push()
    s.add(*[l.len <= 3 for l in ls.values()])
    salt = vc.rng.sample(list(ls), 3)
    s.push()
    s.add(*[ls[n].len >= 1 for n in salt[:2]])
    for _ in range(3):
        if s.check() == z3.sat:
            m = s.model()
            return {n: m.eval(l.len, model_completion=True).as_long() for n, l in ls.items()}
        s.pop()
    raise LookupError


def build(ctx, n, tag="combined"):
    """n: the number of members of each kind, and the items of the combined message itself."""
    m = ctx.models
    obj = m.Ndm(**n.get("head", {"message_id": "ID-1", "comment": ["a comment", "another"]}))
    for name, k in counted(n):
        for i in range(k):
            getattr(obj, name).append(gen.message(m, name.capitalize(), f"{tag}/{name}/{i}", p=0.3, comments=False))
    return obj


def counted(n):
    return [(name, k) for name, k in n.items() if name != "head"]


def members(n, obj):
    return [x for name, _ in counted(n) for x in getattr(obj, name)]


def see_read(ctx, n):
    obj = build(ctx, n)
    text = ctx.xml.NdmXmlIo().to_string(obj)
    st, got = outcome_of(lambda: ctx.xml.NdmXmlIo().from_string(text))
    if st != "ok":
        return f"a combined message with {n} is refused: {got!r:.200}"
    ms = members(n, obj)
    want = ms[0] if len(ms) == 1 else obj
    if got != want or type(got) is not type(want):
        return f"a combined message with {n} is read as {type(got).__name__} {got!r:.200}"
    if want is obj:
        for a, b in zip(members(n, got), ms):
            if type(a) is not type(b):
                return f"a member of a combined message is read as {type(a).__name__} instead of {type(b).__name__}"
    return None


def see_write(ctx, n):
    obj = build(ctx, n)
    st, got = outcome_of(lambda: ctx.kvn.NdmKvnIo().to_string(obj))
    ms = members(n, obj)
    if len(ms) == 1:
        want = ctx.kvn.NdmKvnIo().to_string(ms[0])
        return None if (st, got) == ("ok", want) else f"KVN of a combined message with {n} is {got!r:.200} instead of that of its only member"
    return None if st == "exc" and isinstance(got, NotImplementedError) else f"KVN of a combined message with {n} gives {st} {got!r:.200}"


class Strip(VC):
    def __init__(self, ctx):
        super().__init__(ctx, "_strip_multi_ndm: for all numbers of members of each kind, the only member or else the combined message", samples=1, budget=200)
        self.it.w = FullWorld(self.e, ctx.models, "ndm")
        self.obj = SObj(ctx.models.Ndm, "ndm", self.it.w)

    def body(self, it):
        return it.call(self.ctx.xml._strip_multi_ndm, (self.obj,), {})

    def post(self, it, outcome):
        if outcome[0] != "ok":
            raise Refuted(f"raises {outcome[1]!r:.100}")
        v, e = outcome[1], it.e
        t = total(it, self.obj)
        if isinstance(v, SObj) and v.path == "ndm":
            if e.zfeasible(t == 1):
                e.zassume(t == 1)
                raise Refuted("a single message is not taken out of the combined message")
            return
        for l in lists(self.obj).values():
            if isinstance(v, SObj) and v.path == f"{l.path}[0]":
                bad = z3.Or(t != 1, l.len != 1)
                if e.zfeasible(bad):
                    e.zassume(bad)
                    raise Refuted(f"{v.path} is returned alone although there may be other members")
                return
        raise Refuted(f"{v!r:.100} is returned")

    def native(self, smp, it):
        n = counts(self, smp, self.obj)
        n["head"] = {f: Build(self, smp).make(self.obj.get(f)) for f in ("message_id", "comment")}
        self.n = n
        obj = build(self.ctx, n)
        return n, obj, outcome_of(lambda: self.ctx.xml._strip_multi_ndm(obj))

    def agree(self, smp, outcome, nat):
        n, obj, (st, got) = nat
        if st != outcome[0]:
            return False
        v = outcome[1]
        return st == "exc" or isinstance(v, SObj) and got is (obj if v.path == "ndm" else getattr(obj, v.path.split(".")[1][:-3])[0])

    def wrong(self, smp, nat):
        return see_read(self.ctx, nat[0]) or see_write(self.ctx, nat[0])

    def data(self, smp):
        return {"members": getattr(self, "n", None)}


class Write(Strip):
    def __init__(self, ctx):
        VC.__init__(self, ctx, "NdmKvnIo.to_string: a combined message is written as its only member, or refused, for all numbers of members", samples=1, budget=200)
        self.it.w = FullWorld(self.e, ctx.models, "ndm")
        self.obj = SObj(ctx.models.Ndm, "ndm", self.it.w)

        def collate(it, a, k):
            it.append(it.ghost, [("collate", a[1:], k)])

        self.it.stubs["NdmKvnIo._collate_str_out"] = collate

    def body(self, it):
        try:
            return ("value", it.call(self.ctx.kvn.NdmKvnIo().to_string, (self.obj,), {})), list(it.ghost)
        except PyExc as x:
            return ("raised", x.exc), list(it.ghost)

    def post(self, it, outcome):
        (kind, v), ghost = outcome[1]
        e = it.e
        t = total(it, self.obj)
        if kind == "raised":
            if not isinstance(v, NotImplementedError):
                raise Refuted(f"raises {v!r:.100}")
            if ghost:
                raise Unsupported("writing is begun before the refusal")
            if e.zfeasible(t == 1):
                e.zassume(t == 1)
                raise Refuted("a single message is refused")
            return
        calls = [g for g in ghost if isinstance(g, tuple) and g[0] == "collate"]
        if e.zfeasible(t != 1):
            e.zassume(t != 1)
            raise Refuted("a combined message which has not exactly one member is written")
        if len(calls) != 1:
            raise Unsupported("written in another way")
        args = list(calls[0][1]) + list(calls[0][2].values())
        for n, l in lists(self.obj).items():
            if e.zfeasible(l.len != 1):
                continue
            if not isinstance(args[1], SObj) or args[1].path != f"{l.path}[0]":
                raise Refuted(f"{args[1]!r} is written")
            head = f"CCSDS_{n.upper()}_VERS"
            if not isinstance(v, str) or not v.startswith(head):
                raise Refuted(f"the header of a {n} is {v!r:.60}")
            return
        raise Unsupported("which member?")

    def native(self, smp, it):
        n = counts(self, smp, self.obj)
        n["head"] = {f: Build(self, smp).make(self.obj.get(f)) for f in ("message_id", "comment")}
        self.n = n
        obj = build(self.ctx, n)
        return n, obj, outcome_of(lambda: self.ctx.kvn.NdmKvnIo().to_string(obj))

    def agree(self, smp, outcome, nat):
        return (outcome[1][0][0] == "value") == (nat[2][0] == "ok")


class Members(VC):
    """Each member gets the full class of its kind; nothing else of the parsed object changes."""

    def __init__(self, ctx):
        super().__init__(ctx, "NdmXmlIo.from_string: every member of a combined message gets the class of its kind, for all numbers of members", budget=200)
        g = self.g = vcs_xml.Glue(ctx, "", vcs_xml.check_read)
        g.e = self.e
        g.it = self.it
        self.it.stubs.update(vcs_xml.Glue.stub_table(g))
        self.it.method_stubs.update({("XmlParser", "from_string"): g.parse, ("XmlParser", "from_bytes"): g.parse})
        self.it.write_hook = g.write_hook
        self.src = SStr(self.it.w.var("source0", "text"))

    def body(self, it):
        it.e.setkey(("root", "source0"), "ndm")
        it.e.setkey(("refused", "source0"), False)
        io = it.call(self.ctx.xml.NdmXmlIo, (), {})
        return it.call(io.from_string, (self.src,), {}), list(it.ghost)

    def post(self, it, outcome):
        if outcome[0] != "ok":
            raise Refuted(f"raises {outcome[1]!r:.100}")
        v, ghost = outcome[1]
        path = "message in source0 (ndm)"
        if isinstance(v, Opaque) and v.what == "member":
            v = v.info["of"]
        if not isinstance(v, SObj) or not v.path.startswith(path):
            raise Refuted(f"{v!r:.100} is returned")
        obj = it.w.objs[path]
        seen = {}
        for g in ghost:
            if isinstance(g, ForEach):
                if len(g.items) != 1 or not isinstance(g.items[0], tuple) or g.items[0][0] != "class" or g.items[0][1] != g.src.element().path:
                    raise Unsupported(f"effects {g!r:.200}")
                seen.setdefault(g.src.path, []).append(g.items[0][2])
            elif isinstance(g, Chunk):
                raise Unsupported(f"effects {g!r:.200}")
            elif g[0] == "class":
                raise Unsupported(f"effects {g!r:.200}")
        for n, l in lists(obj).items():
            want = getattr(self.ctx.models, n.capitalize())
            got = seen.pop(l.path, [])
            it.w.ensure(l)
            if (not got or got[-1] is not want) and it.e.zfeasible(l.len > 0):
                raise Refuted(f"the members in {n} become {got}")
        if seen:
            raise Refuted(f"other classes change: {seen}")

    native = None

    def observe(self, store, outcome, why):
        for n in [{k.lower(): 2} for k in snap.MESSAGES] + [{k.lower(): 1 + i % 2 for i, k in enumerate(snap.MESSAGES)}] + [{k.lower(): 1} for k in snap.MESSAGES]:
            w = see_read(self.ctx, n)
            if w:
                return w, {"members": n}
        return None


def p04(ctx):
    vcs_xml.trust(ctx)
    Strip(ctx).run()
    Write(ctx).run()
    Members(ctx).run()
