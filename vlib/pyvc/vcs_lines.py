"""P08, P09: lines and their parts."""
from .. import cases, gen, kvnspec, snap
from .core import SStr, PyExc, Unsupported
from .values import CTRL, Case, Chunk, ForEach, TextList, VList
from .vc import VC, Refuted, outcome_of

SKIP = "skip"


def strip(e, s):
    return e.rstrip(e.lstrip(s))


def spec_line(e, line):
    """The parts of a line, by the layout rules of the standard (None: a blank line)."""
    t = strip(e, line)
    if not e.truth(t):
        return None
    if e.startswith(t, "COMMENT"):
        c = strip(e, e.cut(t, 7)[1])
        if e.startswith(c, "="):
            c = strip(e, e.cut(c, 1)[1])
        return ["COMMENT", c]
    r = e.partition(t, "=")
    if r is None:
        return [t]
    k, v = strip(e, r[0]), strip(e, r[1])
    if e.endswith(v, "]"):
        q = e.partition(v, "[")
        if q is not None:
            unit = e.rcut(q[1], 1)[0]
            if e.contains(unit, "[") or e.contains(unit, "]"):
                return SKIP  # brackets within brackets: not defined
            return [k, strip(e, q[0]), strip(e, unit)]
    return [k, v]


def spec_concrete(line):
    from .core import Engine

    e = Engine()
    return e.explore(lambda: spec_line(e, line))[0][1][1]


def equal(it, a, b):
    """a and b are the same text for all values of this path."""
    if it.e.same(a, b):
        return True
    return it.e.eq(a, b)


def tokens_equal(it, got, want):
    if not isinstance(got, (list, tuple)):
        return False
    if any(isinstance(g, Chunk) for g in got):
        got = it.settle(got)
    if len(got) != len(want):
        return False
    return all(equal(it, g, w) for g, w in zip(got, want))


class Lines(VC):
    """The parts of every line, for every text."""

    def __init__(self, ctx, part):
        super().__init__(ctx, f"NdmKvnIo._pre_process_kvn_data: the parts of {part}", merging=True, budget=120)
        self.it.merge_loops = False
        self.part = part
        w = self.it.w
        self.blank = TextList("blank", w, kind="ws", ws=True, excl="\n")
        self.rest = TextList("line", w, kind="line", excl="\n")
        self.head = SStr(w.var("header", "line", excl="\n")) if part == "the header line" else SStr("  CCSDS_OPM_VERS = 2.0 ")
        self.src = SStr(self.e.fresh("source"))
        self.it.split_stub = lambda it, s: it.vlist([ForEach(self.blank, [self.blank.element()]), self.head] + ([ForEach(self.rest, [self.rest.element()])] if part != "the header line" else [ForEach(self.blank, [self.blank.element()])])) if it.e.ps(s) == list(self.src.pieces) else None

    def body(self, it):
        # the first line which is not blank
        if not it.e.truth(strip(it.e, self.head)):
            from .core import Infeasible

            raise Infeasible
        if self.e.startswith(strip(self.e, self.head), "COMMENT") or self.e.partition(strip(self.e, self.head), "=") is None:
            from .core import Infeasible

            raise Infeasible  # no header line: see P03
        r = self.ctx.kvn.NdmKvnIo()
        it.call(r._pre_process_kvn_data, (self.src,), {})
        return it.attr(r, "_lines"), it.attr(r, "_keys")

    def post(self, it, outcome):
        e = it.e
        if outcome[0] != "ok":
            raise Refuted(f"raises {outcome[1]!r:.100}")
        lines, keys = outcome[1]
        if not isinstance(lines, list) or not isinstance(keys, list):
            raise Unsupported("other representation of the lines")
        lines, keys = list(lines), list(keys)
        want = spec_line(e, self.head)
        if want == SKIP:
            return
        if e.choose(2, "lines or keys") == 1:
            if len(keys) < 2 or keys[0] != "id" or keys[1] != "version":
                raise Refuted(f"keys begin with {keys[:2]!r}")
            self.rest_ok(it, keys[2:], lambda g, w: equal(it, g, w[0]), "key")
            return
        if len(lines) < 2 or not tokens_equal(it, lines[0], ["id", want[0]]) or not tokens_equal(it, lines[1], ["version"] + want[1:]):
            raise Refuted(f"header line gives {lines[:2]!r}")
        self.rest_ok(it, lines[2:], lambda g, w: tokens_equal(it, g, w), "line")

    def rest_ok(self, it, items, same, what):
        if self.part == "the header line":
            if items:
                raise Refuted(f"the {what}s of blank lines are {items!r:.200}")
            return
        if len(items) != 1 or not isinstance(items[0], ForEach) or items[0].src is not self.rest:
            raise Refuted(f"the {what}s of the text are {items!r:.200}")
        chunk = items[0].items
        while len(chunk) == 1 and isinstance(chunk[0], Case):
            log, chunk = chunk[0].arms[it.e.choose(len(chunk[0].arms), "case")]
            it.e.reassume(log)
        if any(isinstance(x, Chunk) for x in chunk):
            raise Unsupported("lines")
        want = spec_line(it.e, self.rest.element())
        if want == SKIP:
            return
        if want is None:
            if chunk:
                raise Refuted(f"a blank line gives {chunk!r:.100}")
        elif len(chunk) != 1 or not same(chunk[0], want):
            raise Refuted(f"a {what} is {chunk!r:.200} instead of {want!r:.200}")

    def text(self, smp):
        head = smp.text(self.head)
        body = [smp.text(self.rest.element())] if self.part != "the header line" else []
        return head, body

    def native(self, smp, it):
        head, body = self.text(smp)

        def go():
            r = self.ctx.kvn.NdmKvnIo()
            r._pre_process_kvn_data("\n".join([" \t", "", head] + body + [""]))
            return [list(x) for x in r._lines]

        return outcome_of(go)

    def agree(self, smp, outcome, nat):
        if nat[0] != outcome[0]:
            return False
        if nat[0] == "exc":
            return True
        got = nat[1]
        items = list(outcome[1][0])
        exp = [[smp.text(x) for x in l] for l in items if not isinstance(l, Chunk)]
        if got[:len(exp)] != exp:
            return False
        return True

    def wrong(self, smp, nat):
        head, body = self.text(smp)
        for line in body:
            w = observe(self.ctx, line)
            if w:
                self.shown = line
                return w
        return None

    def data(self, smp):
        return {"line": self.text(smp)[1] or self.text(smp)[0]}


def observe(ctx, line):
    """Does reading a message with this line (keyword replaced by one the message knows) differ from the rules?"""
    if "\n" in line:
        return None
    want = spec_concrete(line)
    if want in (None, SKIP) or len(want) == 1:
        return None
    base = ["CCSDS_OPM_VERS = 2.0", "CREATION_DATE = 2000-01-01T00:00:00", "ORIGINATOR = O", "OBJECT_NAME = N", "OBJECT_ID = I", "CENTER_NAME = C", "REF_FRAME = R", "TIME_SYSTEM = UTC",
            "EPOCH = 2000-01-01T00:00:00", "X = 1", "Y = 2", "Z = 3", "X_DOT = 1", "Y_DOT = 2", "Z_DOT = 3"]
    printable = all(c == "\t" or c.isprintable() or c.isspace() for c in line)
    if not printable or any(ord(c) < 32 and c not in "\t\r" for c in line) or any("\ud800" <= c <= "\udfff" for c in line):
        return None

    def read(text):
        return outcome_of(lambda: ctx.kvn.NdmKvnIo().from_string(text))

    if want[0] == "COMMENT":
        if any(not c.isprintable() for c in want[1]):
            return None
        st, v = read("\n".join([base[0], line] + base[1:]))
        exp = [want[1]]
        if st == "exc":
            return f"reading the line {line!r} raised {v!r:.200}"
        got = [c or "" for c in v.header.comment]
        return None if got == exp else f"the comment line {line!r} is read as {got!r} instead of {exp!r}"
    if any(not c.isprintable() for c in want[1]) or len(want) == 3 and any(not c.isprintable() for c in want[2]):
        return None
    k = "USER_DEFINED_Q"
    i = line.index("=")
    lead = line[: len(line) - len(line.lstrip())]
    key = line[len(lead):i]
    line2 = lead + k + key[len(key.rstrip()):] + line[i:]
    st, v = read("\n".join(base + [line2]))
    if st == "exc":
        return f"reading the line {line2!r} raised {v!r:.200}"
    try:
        got = [(u.parameter, u.value or "") for u in v.body.segment.data.user_defined_parameters.user_defined]
    except AttributeError:
        got = []
    if got != [("Q", want[1])]:
        return f"the line {line2!r} is read as {got!r} instead of {[('Q', want[1])]!r}"
    if len(want) == 3:
        # the unit is checked when reading a number
        num = lead + "X" + key[len(key.rstrip()):] + "= 1" + line[i:][line[i:].index("["):].replace(want[2], "km", 1) if want[2] else None
        if num:
            st, v = read("\n".join([num if b.startswith("X =") else b for b in base]))
            if st == "exc":
                return f"reading the line {num!r} raised {v!r:.200}"
            if v.body.segment.data.state_vector.x.units is None:
                return f"reading the line {num!r} loses the unit"
    return None


class FillAndRead(VC):
    """A written keyword line or comment line reads back as what was written."""

    def __init__(self, ctx, kind):
        self.kind = kind
        super().__init__(ctx, f"_fill_str_out_kvn then _pre_process_kvn_data: {kind}, of all lengths")
        w = self.it.w
        txt = dict(nonempty=True, lt=True, rt=True, excl=CTRL)
        if kind == "comment":
            self.key, self.val, self.unit = "comment", SStr(w.var("comment", "comment", **txt)), None
        else:
            self.key = SStr(w.var("keyword", "key", nonempty=True, nows=True, up=True, excl=CTRL | {"="}, npre=["COMMENT"]))
            if kind == "value with unit":
                self.val = SStr(w.var("value", "num", nonempty=True, nows=True, num=True, up=True, only="0123456789+-.E"))
                self.unit = SStr(w.var("unit", "unit", **dict(txt, excl=CTRL | {"[", "]"})))
            else:
                self.val = SStr(w.var("value", "text", nsuf=["]"], **txt))
                self.unit = None

    def body(self, it):
        kvn = self.ctx.kvn
        args = (self.key, self.val) + ((self.unit,) if self.unit is not None else ())
        line = it.call(kvn._fill_str_out_kvn, args, {})
        r = kvn.NdmKvnIo()
        it.call(r._pre_process_kvn_data, (it.e.concat("CCSDS_OPM_VERS = 2.0\n", line, "\n"),), {})
        return line, it.attr(r, "_lines")

    def want(self):
        return [self.key if self.kind != "comment" else "COMMENT", self.val] + ([self.unit] if self.unit is not None else [])

    def post(self, it, outcome):
        if outcome[0] != "ok":
            raise Refuted(f"raises {outcome[1]!r:.100}")
        line, lines = outcome[1]
        if not isinstance(lines, list):
            raise Unsupported("other representation of the lines")
        if len(lines) != 3 or not tokens_equal(it, lines[2], self.want()):
            raise Refuted(f"the line {line!r} reads back as {list(lines[2:])!r:.200}")

    def native(self, smp, it):
        t = lambda s: None if s is None else smp.text(s)

        def go():
            kvn = self.ctx.kvn
            a = (t(self.key), t(self.val)) + ((t(self.unit),) if self.unit is not None else ())
            line = kvn._fill_str_out_kvn(*a)
            r = kvn.NdmKvnIo()
            r._pre_process_kvn_data("CCSDS_OPM_VERS = 2.0\n" + line + "\n")
            return line, [list(x) for x in r._lines]

        return outcome_of(go)

    def agree(self, smp, outcome, nat):
        if nat[0] != outcome[0]:
            return False
        return nat[0] == "exc" or (smp.text(outcome[1][0]), [[smp.text(x) for x in l] for l in outcome[1][1]]) == nat[1]

    def wrong(self, smp, nat):
        """Through a message: written, read, compared."""
        m, kvn = self.ctx.models, self.ctx.kvn
        key, val = smp.text(self.key), smp.text(self.val)
        obj = gen.message(m, "Opm", "vc", p=0.9, comments=False)
        if self.kind == "comment":
            obj.header.comment = [val]
        elif self.unit is not None:
            from decimal import Decimal

            obj.body.segment.data.state_vector.x = m.PositionType(Decimal(val), m.PositionUnits.KM)
        else:
            obj.header.originator = val
            obj.body.segment.data.user_defined_parameters = m.UserDefinedType(user_defined=[m.UserDefinedParameterType(value=val, parameter=key)])
        st, text = outcome_of(lambda: kvn.NdmKvnIo().to_string(obj))
        if st == "exc":
            return f"writing {val!r} raised {text!r:.200}"
        d = kvnspec.diff(kvnspec.expected(obj), kvnspec.entries(text))
        if d:
            return f"the line written for {key!r}, {val!r}: {d}"
        st, back = outcome_of(lambda: kvn.NdmKvnIo().from_string(text))
        if st == "exc":
            return f"reading the line written for {key!r}, {val!r} raised {back!r:.200}"
        d = kvnspec.normdiff(kvnspec.norm(obj), kvnspec.norm(back), "Opm") or (None if kvnspec.comments(obj) == kvnspec.comments(back) else f"comments {kvnspec.comments(obj)} became {kvnspec.comments(back)}")
        return f"{key!r}, {val!r}: {d}" if d else None

    def data(self, smp):
        return {"keyword": smp.text(self.key), "value": smp.text(self.val), "unit": smp.text(self.unit) if self.unit is not None else None}


def p08(ctx):
    for part in ("the header line", "every other line, for any number of lines"):
        Lines(ctx, part).run()


def p09(ctx):
    for k in ("comment", "value", "value with unit"):
        FillAndRead(ctx, k).run()


class Header(VC):
    """A text whose header keyword belongs to no message type is refused, whatever follows."""

    def __init__(self, ctx, rest):
        super().__init__(ctx, "NdmKvnIo.from_string: a text " + ("of any lines headed by a keyword of no message type is refused" if rest else "which ends after such a header is refused"), merging=True, budget=60)
        self.it.merge_loops = False
        w = self.it.w
        self.blank = TextList("blank", w, kind="ws", ws=True, excl="\n")
        self.rest = TextList("line", w, kind="line", excl="\n") if rest else None
        self.head = SStr(w.var("header", "line", excl="\n"))
        self.src = SStr(self.e.fresh("source"))
        self.ids = [f"CCSDS_{n.upper()}_VERS" for n in snap.MESSAGES]

        def split(it, s):
            if it.e.ps(s) != list(self.src.pieces):
                return None
            return it.vlist([ForEach(self.blank, [self.blank.element()]), self.head] + ([ForEach(self.rest, [self.rest.element()])] if rest else []))

        self.it.split_stub = split

    def body(self, it):
        from .core import Infeasible

        want = spec_line(self.e, self.head)
        if want is None or want == SKIP:
            raise Infeasible
        for i in self.ids:
            if self.e.eq(want[0], i):
                raise Infeasible
        try:
            return it.call(self.ctx.kvn.NdmKvnIo().from_string, (self.src,), {})
        except Unsupported as x:
            return x  # not refused so far

    def post(self, it, outcome):
        if outcome[0] == "ok":
            raise Refuted(f"such a text is read, up to: {outcome[1]}" if isinstance(outcome[1], Unsupported) else "such a text is read")

    def text(self, smp):
        return "\n".join([" ", smp.text(self.head)] + ([smp.text(self.rest.element())] if self.rest else []))

    def native(self, smp, it):
        return outcome_of(lambda: self.ctx.kvn.NdmKvnIo().from_string(self.text(smp)))

    def agree(self, smp, outcome, nat):
        return nat[0] == outcome[0] or outcome[0] == "ok" and isinstance(outcome[1], Unsupported)

    def wrong(self, smp, nat):
        """With a complete message behind the header."""
        head = smp.text(self.head)
        want = spec_concrete(head)
        if want in (None, SKIP) or want[0] in self.ids:
            return None
        for n in snap.MESSAGES:
            body = cases.render(kvnspec.expected(gen.message(self.ctx.models, n, "header", p=0.2))).split("\n")[1:]
            self.shown = "\n".join([head] + body)
            st, v = outcome_of(lambda: self.ctx.kvn.NdmKvnIo().from_string(self.shown))
            if st == "ok":
                return f"a KVN text headed {head!r} is read as {type(v).__name__}"
        return None

    def data(self, smp):
        return {"text": getattr(self, "shown", None) or self.text(smp)}


def p03(ctx):
    Header(ctx, True).run()
    Header(ctx, False).run()
