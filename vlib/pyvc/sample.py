"""Concrete values for the variables of a path."""
import z3

from .core import F, SStr, Var, Unsupported

POOLS = {
    "text": ["V", "Name x", "a-b", "A=B", "x = y = z", "q [r] s", "[lead", "a  b   c", "Ünï Δv", "2007-01-01", "1.5", "META_START", "COMMENT", "COMMENTX", "EPOCH", "<&>\"'",
             "N/A", "0", "x" * 41, "USER_DEFINED_X", "k = v [km] tail", "Type", "%", "= x", "==", "tail =", "None", "x]y", "Straße", "y" * 19, "w" * 18, "FIRST", "LAST", "QUATERNION_TYPE"],
    "comment": ["plain", "KEY = VALUE [km]", "unit [km]", "2000-01-01T00:00:00 1 2 3", "META_STOP", "COMMENT x", "= x", "=", "== b ==", "[all]", "]", "USER_DEFINED_P = 1", "x" * 50, "e ="],
    "num": ["0", "0.0", "1", "-1", "1.50", "-12.3400", "1E+5", "1E-30", "123456789.123456789123456789", "0.1000000000000000055511151231257827", "-0", "7.0E3", "0.000"],
    "lit": [".5", "+.5", "-.5e3", "5.", "1e5", "+1", "0007", "-0.0", "1E-400", ".4e-7", "12345678901234567890.123", "2", "-3.25"],
    "int": ["0", "1", "-1", "7", "12", "123456789012345678901234567890", "25"],
    "epoch": ["2007-01-02T01:02:03.004", "2021-123T23:59:01", "1999-12-03T00:00:00.000006Z", "2150-02-03T00:00:01", "1858-11-17T00:00:00", "9999-365T01:00:00Z", "0001-01-01"],
    "ws": ["", " ", "  ", "\t", " \t ", "    ", "\r"],
    "key": ["EPOCH", "X", "OBJECT_NAME", "EARTH_MODEL", "A-1", "USER_DEFINED_A", "LONG_KEYWORD_OF_MORE_THAN_TWENTY_CHARACTERS", "COMMENT_1", "USER_DEFINED_USER_DEFINED_B"],
    "unit": ["km", "km/s", "m**2", "deg/s", "%", "km**3/s**2", "1/ER"],
    "line": ["", " ", "x", "A = B", "COMMENT c", "COMMENT = c", "COMMENT", "COMMENT=", "COMMENT  = = c", "A=B [km]", "A = 1[km]", " A = [x] y", "A = b [u] c]", "1999-01-01 2 3", "=", "= 5", "A =", "A = ]", "A = [", "A = [ ]", "META_START",
             "A = B = C [km]", "COMMENT A = B [km]", "A [b] = c", "A [b] = c [d]", "A = x ] [km]", "A = [km", "COMMENTx", "[km]", "x]"],
}


class Sampler:
    def __init__(self, engine, store, rng):
        self.e, self.s, self.r = engine, store, rng
        self.val = {}
        self.parent = {}
        for v, ps in store.bind.items():
            for p in ps:
                if not isinstance(p, str):
                    self.parent.setdefault(p, v)

        self.want = self.lengths()

    def lengths(self):
        """Lengths of the texts about whose length something has been assumed."""
        vs = self.e.lenvars
        if not vs:
            return {}
        used = {}
        for c in self.s.z:
            names = free(c)
            if len(names) == 1 and c.num_args() == 2 and c.decl().kind() == z3.Z3_OP_GE and z3.is_int_value(c.arg(1)) and c.arg(1).as_long() <= 1:
                continue
            used.update((n, vs[n]) for n in names if n in vs)
        if not used:
            return {}
        s = z3.Solver()
        s.set("timeout", 5000)
        s.add(*self.s.z)
        out = {}
        items = list(used.values())
        self.r.shuffle(items)
        for v, z in items:
            cand = [1, 2, 3, 5, 8, 12, 17, 18, 19, 20, 21, 25, 30, 41, 60, 100]
            self.r.shuffle(cand)
            for n in cand[:6]:
                if s.check(z == n) == z3.sat:
                    break
            else:
                if s.check() != z3.sat:
                    raise LookupError("lengths")
                n = s.model().eval(z, model_completion=True).as_long()
            s.add(z == n)
            out[v] = n
        return out

    def number(self, n, kind):
        """A canonical number of n characters."""
        r = self.r
        if n <= 0:
            return ""
        sign = "-" if n > 1 and r.random() < 0.3 else ""
        n -= len(sign)
        x = "".join([r.choice("123456789")] + [r.choice("0123456789") for _ in range(n - 1)])
        if kind == "num" and n > 2 and r.random() < 0.7:
            k = r.randint(1, n - 2)
            x = x[:k] + "." + x[k + 1:]
        return sign + x

    def defined(self, v):
        """The outermost text of which v is a part and which is a function of others."""
        top, seen = None, set()
        while v is not None and v not in seen:
            seen.add(v)
            if ("def", v) in self.s.keys:
                top = v
            v = self.parent.get(v)
        return top

    def divide(self, v, x):
        """Give the parts of v values which make up x."""
        ps = self.s.bind.get(v)
        if v in self.val:
            if self.val[v] != x:
                raise LookupError
            return
        if not (self.s.facts.get(v) or self.e.initial.get(v) or F()).holds(x):
            raise LookupError
        self.val[v] = x
        if ps is None:
            return

        def rec(i, k):
            if i == len(ps):
                return [] if k == len(x) else None
            p = ps[i]
            if isinstance(p, str):
                return rec(i + 1, k + len(p)) if x.startswith(p, k) else None
            f = self.s.facts.get(p) or self.e.initial.get(p) or F()
            for j in range(k, len(x) + 1):
                if p in self.val and self.val[p] != x[k:j] or not f.holds(x[k:j]):
                    continue
                r = rec(i + 1, j)
                if r is not None:
                    return [(p, x[k:j])] + r
            return None

        r = rec(0, 0)
        if r is None:
            raise LookupError(f"{v} {x!r}")
        for p, y in r:
            self.divide(p, y)

    def vary(self, f, kind):
        r = self.r
        if f.dom is not None:
            return r.choice(f.dom)
        pool = POOLS.get(kind, POOLS["text"])
        mode = r.random()
        if f.ws:
            n = f.flen if f.flen is not None else r.randint(1 if f.nonempty else 0, 4)
            chars = [c for c in " \t " if c not in f.excl and (f.only is None or c in f.only)] or [" "]
            return "".join(r.choice(chars) for _ in range(n))
        if kind in ("num", "int", "lit") and f.flen is None and not f.digits and mode < 0.6:
            return r.choice(pool)
        if f.only is not None or f.digits or f.flen is not None and f.flen <= 64:
            chars = [c for c in (sorted(f.only) if f.only is not None else "0123456789" if f.digits else "abcXYZ019-_.=[] eE+(){}<>" if kind not in ("num", "lit") else "0123456789.") if f.allows_char(c)]
            if not chars:
                return ""
            top = 8 if r.random() < 0.8 else 45
            n = f.flen if f.flen is not None else r.randint(max(f.minlen, 1 if f.nonempty else 0), max(f.minlen, min(f.maxlen if f.maxlen is not None else top - 2, top)))
            return "".join(r.choice(chars) for _ in range(n))
        x = r.choice(pool)
        if mode < 0.15 and not f.nonempty:
            return ""
        if mode < 0.4:
            x = "".join(c for c in x if f.allows_char(c))
        if mode < 0.5 and kind not in ("num", "epoch", "int", "lit"):
            x = x.strip() + r.choice("abcXYZ019-_.;")
        if mode > 0.93 and kind not in ("epoch",):
            x = r.choice("abcXYZ019-_.;=[]COMENT\"") if kind not in ("num", "int", "lit") else r.choice("0123456789")
        if f.flen is not None and f.flen > 64:
            if f.flen > 50_000_000:
                return x
            pad = "7" if kind in ("num", "lit") else "z"
            return (x + pad * f.flen)[: f.flen]
        if f.minlen and len(x) < f.minlen:
            if f.minlen > 5_000_000:
                return x
            pad = "7" if kind in ("num", "lit") else " z" if not f.nows and f.allows_char(" ") else "z"
            x = x + pad * (f.minlen - len(x))
        return x

    def get(self, v):
        if v in self.val:
            return self.val[v]
        d = self.s.keys.get(("def", v))
        if d is None:
            top = self.defined(v)
            if top is not None:
                self.get(top)
                if v in self.val:
                    return self.val[v]
        if d is not None:
            x = d[0](self.text(d[1]) if isinstance(d[1], (SStr, str)) else self.get(d[1]))
            if v in self.s.bind:
                self.divide(v, x)
        elif v in self.s.bind:
            x = self.whole(v)
            if x is None:
                x = "".join(p if isinstance(p, str) else self.get(p) for p in self.s.bind[v])
        else:
            f = self.s.facts.get(v) or self.e.initial.get(v) or F()
            for _ in range(300):
                x = self.vary(f, v.kind)
                if v in self.want and len(x) != self.want[v]:
                    x = self.sized(x, self.want[v], f, v.kind)
                if v.kind == "num" and f.up and f.num and f.flen is None:
                    x = canonical(x)
                if f.holds(x):
                    break
            else:
                raise LookupError(f"no value for {v} {f}")
            self.val[v] = x
            return x
        f = self.s.facts.get(v) or self.e.initial.get(v)
        if f is not None and not f.holds(x):
            raise LookupError(f"{v}")
        self.val[v] = x
        return x

    def sized(self, x, n, f, kind):
        if kind in ("num", "int") and not f.digits:
            return self.number(n, kind)
        chars = [c for c in x + "abcXYZ019" if f.allows_char(c)] or [""]
        return x[:n] if len(x) > n else x + "".join(self.r.choice(chars) for _ in range(n - len(x)))

    def whole(self, v):
        """A value of a variable which has parts: numbers are not made of parts at random."""
        f = self.s.facts.get(v) or self.e.initial.get(v) or F()
        if not f.num and v not in self.want or any(not isinstance(p, str) and p in self.val for p in self.s.bind[v]):
            return None
        for _ in range(25):
            x = self.vary(f, v.kind)
            if v in self.want and len(x) != self.want[v]:
                x = self.sized(x, self.want[v], f, v.kind)
            elif f.num and f.flen is None and v.kind != "lit" and self.r.random() < 0.5:
                x = self.number(self.r.choice([1, 2, 5, 12, 19, 30, 45]), v.kind)
            if f.num and f.up:
                x = canonical(x)
            if not f.holds(x):
                continue
            keep = dict(self.val)
            try:
                self.divide(v, x)
                self.val.pop(v)
                return x
            except LookupError:
                self.val = keep
        return None

    def text(self, s):
        return s if isinstance(s, str) else "".join(p if isinstance(p, str) else self.get(p) for p in s.pieces)


def canonical(x):
    """The text of the number."""
    from decimal import Decimal

    try:
        return str(Decimal(x))
    except ArithmeticError:
        return x


def free(c):
    """The names of the integer variables of a condition."""
    out, todo, seen = set(), [c], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(str(x))
        todo += x.children()
    return out


def consistent(store, smp):
    """All facts and side conditions of the path hold for the sample."""
    for v in list(store.bind) + list(store.facts):
        try:
            x = smp.get(v)
        except RecursionError:
            return False
        if not (store.facts.get(v) or smp.e.initial.get(v) or F()).holds(x):
            return False
    for k, val in store.keys.items():
        if isinstance(k, tuple) and k[0] == "neq" and val:
            if "".join(p if isinstance(p, str) else smp.get(p) for p in k[1]) == k[2]:
                return False
        elif isinstance(k, tuple) and k[0] == "neqv" and val:
            a, b = tuple(k[1])
            if smp.get(a) == smp.get(b):
                return False
        elif isinstance(k, tuple) and k[0] in ("startswith", "endswith") and val is False:
            if getattr("".join(p if isinstance(p, str) else smp.get(p) for p in k[1]), k[0])(k[2]):
                return False
        elif isinstance(k, tuple) and k[0] == "has":
            if k[2] not in smp.get(k[1]):
                return False
        elif isinstance(k, tuple) and k[0] == "zero":
            from decimal import Decimal

            if (Decimal(smp.get(k[1])) == 0) != val:
                return False
        elif isinstance(k, tuple) and k[0] == "num":
            from .core import is_num

            if is_num("".join(p if isinstance(p, str) else smp.get(p) for p in k[1])) != val:
                return False
    if smp.want:
        names = set().union(*map(free, store.z))
        lens = [x for n, x in smp.e.lenvars.items() if n in names]
        q = z3.Solver()
        q.set("timeout", 5000)
        q.add(*store.z)
        q.add(*[z == len(smp.get(v)) for v, z in lens])
        return q.check() != z3.unsat
    return True
