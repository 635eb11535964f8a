"""Exploration of paths, the store of assumptions, and symbolic strings.

A symbolic string is a sequence of literal pieces and variables.  What is known about a variable
is kept in the store of the current path (facts F, or a binding to more pieces).  An operation whose
result depends on something not known chooses one of the possible cases, which the exploration
enumerates completely, and records what it assumed.
"""
import re
import z3

WS = "\t\n\x0b\x0c\r\x1c\x1d\x1e\x1f \x85\xa0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000"
BREAKS = "\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029"


class Unsupported(Exception):
    """The engine cannot decide; the obligation stays undecided (never a violation)."""


class Infeasible(Exception):
    pass


class PyExc(Exception):
    """A Python exception of the interpreted program."""

    def __init__(self, exc):
        self.exc = exc
        super().__init__(repr(exc))


class Var:
    __slots__ = ("name", "kind")

    def __init__(self, name, kind="text"):
        self.name, self.kind = name, kind

    def __repr__(self):
        return f"<{self.name}>"


E0 = frozenset()


class F:
    """Facts about a string variable; each is a necessary condition (see holds)."""

    FIELDS = dict(nonempty=False, lt=False, rt=False, excl=E0, nows=False, ws=False, only=None, dom=None, npre=E0, nsuf=E0, nsub=E0,
                  neq=E0, nfirst=E0, nlast=E0, flen=None, maxlen=None, minlen=0, num=None, up=False, digits=None)
    __slots__ = tuple(FIELDS)

    def __init__(self, **kw):
        for k, d in F.FIELDS.items():
            v = kw.get(k, d)
            if isinstance(v, (str, list, set)):
                v = tuple(v) if k == "dom" else frozenset(v)
            setattr(self, k, v)
        if self.flen is not None and self.flen > 0 or self.minlen > 0:
            self.nonempty = True
        if self.only is not None and not any(c.isspace() for c in self.only):
            self.nows = True

    def upd(self, **kw):
        d = {k: getattr(self, k) for k in F.FIELDS}
        for k, v in kw.items():
            if k in ("excl", "npre", "nsuf", "nsub", "neq", "nfirst", "nlast"):
                d[k] = d[k] | frozenset(v)
            elif k == "dom":
                d[k] = tuple(v) if d[k] is None else tuple(x for x in d[k] if x in v)
            elif k == "only":
                d[k] = frozenset(v) if d[k] is None else d[k] & frozenset(v)
            elif k == "maxlen":
                d[k] = v if d[k] is None else min(d[k], v)
            elif k == "minlen":
                d[k] = max(d[k], v)
            elif k in ("flen", "num", "digits"):
                if d[k] is not None and v is not None and d[k] != v:
                    raise Infeasible
                d[k] = v if v is not None else d[k]
            else:
                d[k] = d[k] or v
        f = F(**d)
        if f.dom is not None:
            g = tuple(x for x in f.dom if f.holds(x))
            if not g:
                raise Infeasible
            f.dom = g
        elif not f.feasible():
            raise Infeasible
        return f

    def feasible(self):
        if self.nonempty and (self.ws and (self.lt or self.rt or self.nows) or self.maxlen == 0 or self.flen == 0):
            return False
        if self.only is not None and self.nonempty and not (self.only - self.excl):
            return False
        if self.num and self.only is not None and not any(c.isnumeric() or c in "infatyINFATY" for c in self.only - self.excl):
            return False
        if self.maxlen is not None and self.minlen > self.maxlen:
            return False
        if self.flen is not None and (self.flen < self.minlen or (self.maxlen is not None and self.flen > self.maxlen)):
            return False
        return True

    def holds(self, s):
        if self.nonempty and not s or len(s) < self.minlen:
            return False
        if s:
            if self.lt and s[0].isspace() or self.rt and s[-1].isspace():
                return False
            if s[0] in self.nfirst or s[-1] in self.nlast:
                return False
            if self.ws and not s.isspace():
                return False
        if self.nows and any(c.isspace() for c in s):
            return False
        if any(c in self.excl for c in s):
            return False
        if self.only is not None and any(c not in self.only for c in s):
            return False
        if self.dom is not None and s not in self.dom:
            return False
        if any(s.startswith(p) for p in self.npre) or any(s.endswith(p) for p in self.nsuf) or any(p in s for p in self.nsub) or s in self.neq:
            return False
        if self.flen is not None and len(s) != self.flen or self.maxlen is not None and len(s) > self.maxlen:
            return False
        if self.num is not None and is_num(s) != self.num:
            return False
        if self.up and s.upper() != s:
            return False
        if self.digits is not None and s.isnumeric() != self.digits and s:
            return False
        return True

    def allows_char(self, c):
        return not (c in self.excl or self.nows and c.isspace() or self.ws and not c.isspace() or self.only is not None and c not in self.only
                    or self.digits and not c.isnumeric() or self.dom is not None and not any(c in d for d in self.dom)
                    or self.num and c not in "0123456789+-.eE_infatyINFATY \t")

    def sub(self, **kw):
        """Facts every part of such a string has."""
        return F(**{**dict(excl=self.excl, nows=self.nows, ws=self.ws, only=self.only, nsub=self.nsub, maxlen=self.flen if self.flen is not None else self.maxlen,
                           digits=True if self.digits else None, up=False), **kw})

    def __repr__(self):
        return "F(" + ",".join(f"{k}={sorted(v) if isinstance(v, frozenset) else v}" for k in F.FIELDS for v in [getattr(self, k)] if v != F.FIELDS[k]) + ")"


NOTHING = F()


def is_num(s):
    try:
        float(s)
        return True
    except ValueError:
        return False


class SStr:
    __slots__ = ("pieces",)

    def __init__(self, *pieces):
        self.pieces = pieces

    def __repr__(self):
        return "".join(p if isinstance(p, str) else repr(p) for p in self.pieces).join("‹›")

    def _no(self, *a, **k):
        raise Unsupported("symbolic text used outside the engine")

    __eq__ = __ne__ = __bool__ = __iter__ = __len__ = __contains__ = __getitem__ = __add__ = __radd__ = __lt__ = __gt__ = _no

    __hash__ = _no

    def __deepcopy__(self, memo):
        return self


class Store:
    def __init__(self):
        self.facts, self.bind, self.keys, self.z = {}, {}, {}, []
        self.log = []

    def copy(self):
        s = Store()
        s.facts, s.bind, s.keys, s.z = dict(self.facts), dict(self.bind), dict(self.keys), list(self.z)
        return s


class Engine:
    """Enumerates all combinations of choices of a computation."""

    def __init__(self, max_paths=4000):
        self.trail, self.pos, self.store = [], 0, Store()
        self.max_paths = max_paths
        self.paths = self.queries = 0
        self.solver_s = 0.0
        self.depth = 0
        self.dice = None
        self.counter = 0
        self.deadline = None
        self.lenvars = {}
        self.initial = {}
        self.memo = {}

    # exploration ------------------------------------------------------------
    def choose(self, n, what=""):
        if n <= 0:
            raise Infeasible
        if n == 1:
            return 0
        if self.pos < len(self.trail):
            c = self.trail[self.pos][0]
        else:
            c = self.dice.randrange(n) if self.dice is not None and self.depth == 1 else 0
            self.trail.append([c, n, what])
        self.pos += 1
        return c

    def explore(self, fn, each=None, limit=None):
        """All (store, outcome) of fn(); outcome is ("ok", value) or ("exc", exception)."""
        import time

        base, trail0, pos0 = self.store, self.trail, self.pos
        out, trail = [], []
        self.depth += 1
        if self.depth > 60:
            raise Unsupported("exploration nested too deeply")
        n = 0
        try:
            while True:
                self.trail, self.pos = trail, 0
                self.store = base.copy()
                self.paths += 1
                n += 1
                if n > (limit or self.max_paths):
                    raise Unsupported("too many paths; last choices: " + ", ".join(str(t[2]) for t in trail[-4:]))
                if self.deadline and time.time() > self.deadline:
                    raise Unsupported("out of time")
                try:
                    r = ("ok", fn())
                except PyExc as e:
                    r = ("exc", e.exc)
                except Infeasible:
                    r = None
                if r is not None:
                    if each is not None:
                        try:
                            each(self.store, r)
                        except Infeasible:
                            r = None
                    if r is not None:
                        out.append((self.store, r))
                while trail and trail[-1][0] + 1 >= trail[-1][1]:
                    trail.pop()
                if not trail:
                    return out
                trail[-1][0] += 1
        finally:
            self.depth -= 1
            self.store, self.trail, self.pos = base, trail0, pos0

    def hunt(self, fn, each, rng, until):
        """Paths at random, first those which differ in one choice from the first one."""
        import time

        base, trail0, pos0 = self.store, self.trail, self.pos
        todo = [[]]
        first = True
        self.depth += 1
        try:
            while time.time() < until:
                self.trail = todo.pop(0) if todo else []
                self.dice = None if first or todo or self.trail else rng
                self.pos, self.store = 0, base.copy()
                self.paths += 1
                try:
                    r = ("ok", fn())
                except PyExc as e:
                    r = ("exc", e.exc)
                except Infeasible:
                    r = None
                trail = self.trail
                self.dice = None
                if r is not None:
                    try:
                        each(self.store, r)
                    except Infeasible:
                        pass
                if first:
                    todo = [[list(t) for t in trail[:i]] + [[c, t[1], t[2]]] for i, t in enumerate(trail) for c in range(1, t[1])]
                    rng.shuffle(todo)
                    first = False
        finally:
            self.depth -= 1
            self.dice = None
            self.store, self.trail, self.pos = base, trail0, pos0

    def fresh(self, name, kind="text", **facts):
        self.counter += 1
        v = Var(f"{name}", kind)
        self.initial[v] = F(**facts)
        return v

    # assumptions ------------------------------------------------------------
    def F(self, v):
        return self.store.facts.get(v) or self.initial.get(v) or NOTHING

    def assume(self, v, **kw):
        return self.assume_(v, kw)

    def assume_(self, v, kw):
        old = self.F(v)
        k = (id(old), id(kw))
        hit = self.memo.get(k)
        if hit is None:
            try:
                f = old.upd(**kw)
            except Infeasible:
                f = None
            if f is not None and all(getattr(f, x) == getattr(old, x) for x in F.FIELDS):
                f = old
            self.memo[k] = hit = (old, kw, f)  # the references keep the ids valid
        f = hit[2]
        if f is None:
            raise Infeasible
        self.store.facts[v] = f
        self.store.log.append(("fact", v, kw))
        return f

    def bind(self, v, *pieces):
        pieces = tuple(p for p in pieces if p != "")
        if not pieces or all(isinstance(p, str) for p in pieces):
            if not self.F(v).holds("".join(pieces)):
                raise Infeasible
        self.store.bind[v] = pieces
        self.store.log.append(("bind", v, pieces))

    def setkey(self, k, val):
        old = self.store.keys.get(k)
        if old is not None and old != val:
            raise Infeasible
        self.store.keys[k] = val
        self.store.log.append(("key", k, val))

    def key(self, k, options=(True, False), what=None):
        """The (memoised) choice of a value for a fact about the inputs."""
        if k in self.store.keys:
            return self.store.keys[k]
        v = options[self.choose(len(options), what or k)]
        self.setkey(k, v)
        return v

    def reassume(self, log):
        """Assume again what an earlier path assumed; Infeasible if it contradicts."""
        for r in log:
            if r[0] == "fact":
                v = r[1]
                if v in self.store.bind:
                    self.push(v, r[2])
                else:
                    self.assume_(v, r[2])
            elif r[0] == "bind":
                v, pieces = r[1], r[2]
                if v in self.store.bind:
                    if self.store.bind[v] != pieces and not self.compatible(SStr(*self.store.bind[v]), SStr(*pieces)):
                        raise Infeasible
                else:
                    self.bind(v, *pieces)
            elif r[0] == "key":
                self.setkey(r[1], r[2])
            elif r[0] == "z":
                if self.zfeasible(r[1]):
                    self.zassume(r[1])
                else:
                    raise Infeasible

    def possible(self, log):
        """May the assumptions hold here?  (cheap and without effect; True when in doubt)"""
        for r in log:
            if r[0] == "key" and self.store.keys.get(r[1], r[2]) != r[2]:
                return False
        keep = self.store
        self.store = keep.copy()
        try:
            self.reassume([r for r in log if r[0] != "z"])
            return True
        except Infeasible:
            return False
        finally:
            self.store = keep

    def push(self, v, kw):
        """A fact about a bound variable: use the parts that are easy, drop the rest (weaker)."""
        ps = self.norm(SStr(v)).pieces
        if all(isinstance(p, str) for p in ps):
            if not F().upd(**kw).holds("".join(ps)):
                raise Infeasible
            return
        if kw.get("npre") and isinstance(ps[0], str) and any(ps[0].startswith(x) for x in kw["npre"]):
            raise Infeasible
        if kw.get("nsuf") and isinstance(ps[-1], str) and any(ps[-1].endswith(x) for x in kw["nsuf"]):
            raise Infeasible
        if kw.get("ws"):
            for p in ps:
                if isinstance(p, str):
                    if not p.isspace():
                        raise Infeasible
                else:
                    self.assume(p, ws=True)
        for c in kw.get("excl", ()):
            for p in ps:
                if isinstance(p, str):
                    if c in p:
                        raise Infeasible
                else:
                    self.assume(p, excl=c)

    def compatible(self, a, b):
        a, b = self.norm(a).pieces, self.norm(b).pieces
        if a == b:
            return True
        if all(isinstance(p, str) for p in a + b):
            return "".join(a) == "".join(b)
        if a and b and isinstance(a[0], str) and isinstance(b[0], str):
            n = min(len(a[0]), len(b[0]))
            if a[0][:n] != b[0][:n]:
                return False
        for x, y in ((a, b), (b, a)):
            if len(y) == 1 and isinstance(y[0], str) or not y:
                lit = y[0] if y else ""
                return bool(self.match_literal(x, lit, 1))
        return True

    # numbers ----------------------------------------------------------------
    def zassume(self, e):
        self.store.z.append(e)
        self.store.log.append(("z", e))

    def zcheck(self, extra):
        import time

        t = time.time()
        s = z3.Solver()
        s.set("timeout", 20000)
        s.add(*self.store.z)
        s.add(*extra)
        r = s.check()
        self.queries += 1
        self.solver_s += time.time() - t
        return r, s

    def zfeasible(self, e):
        r, _ = self.zcheck([e])
        if r == z3.unknown:
            raise Unsupported("solver gave no answer")
        return r == z3.sat

    def ztruth(self, e, what="cond"):
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        t, f = self.zfeasible(e), self.zfeasible(z3.Not(e))
        opts = [x for x, ok in ((True, t), (False, f)) if ok]
        b = opts[self.choose(len(opts), what)]
        if len(opts) > 1:
            self.zassume(e if b else z3.Not(e))
        return b

    # strings ----------------------------------------------------------------
    def norm(self, s):
        if isinstance(s, str):
            return SStr(s) if s else SStr()
        out = []

        def add(p):
            if isinstance(p, str):
                if p:
                    if out and isinstance(out[-1], str):
                        out[-1] += p
                    else:
                        out.append(p)
            elif p in self.store.bind:
                for q in self.store.bind[p]:
                    add(q)
            else:
                out.append(p)

        for p in s.pieces:
            add(p)
        return SStr(*out)

    def simp(self, s):
        """A plain str where the text is fully known."""
        n = self.norm(s)
        if not n.pieces:
            return ""
        if len(n.pieces) == 1 and isinstance(n.pieces[0], str):
            return n.pieces[0]
        return n

    def ps(self, s):
        return list(self.norm(s).pieces)

    def mk(self, pieces):
        return self.simp(SStr(*pieces))

    def concat(self, *ss):
        out = []
        for s in ss:
            if isinstance(s, str):
                out.append(s)
            elif isinstance(s, SStr):
                out.extend(s.pieces)
            else:
                raise PyExc(TypeError("can only concatenate str"))
        return self.mk(out)

    def splitdom(self, v, pred, what):
        """Divide the finite domain of v by pred and choose a part."""
        d = self.F(v).dom
        parts = {}
        for x in d:
            parts.setdefault(pred(x), []).append(x)
        ks = list(parts)
        k = ks[self.choose(len(ks), what)]
        if len(parts[k]) == 1:
            self.bind(v, parts[k][0])
        elif len(ks) > 1:
            self.assume(v, dom=parts[k])
        return k

    def is_empty(self, v):
        """Decide whether v is empty (v is then bound to nothing, or known to be non-empty)."""
        f = self.F(v)
        if f.nonempty:
            return False
        if not f.holds(""):
            self.assume(v, nonempty=True)
            return False
        if f.maxlen == 0:
            self.bind(v)
            return True
        if self.choose(2, f"{v} empty") == 0:
            self.assume(v, nonempty=True)
            return False
        self.bind(v)
        return True

    def truth(self, s):
        ps = self.ps(s)
        if any(isinstance(p, str) or self.F(p).nonempty for p in ps):
            return True
        for p in ps:
            if not self.is_empty(p):
                return True
        return False

    def lstrip(self, s, chars=None):
        ps = self.ps(s)
        while ps:
            p = ps[0]
            if isinstance(p, str):
                q = p.lstrip(chars)
                if q:
                    ps[0] = q
                    break
                ps.pop(0)
                continue
            f = self.F(p)
            if f.dom is not None:
                for x in self.fork_dom(p):
                    ps[0] = x
                continue
            if chars is None:
                if f.ws:
                    ps.pop(0)
                    continue
                stop = f.lt or f.nows
            else:
                if f.only is not None and f.only <= set(chars):
                    ps.pop(0)
                    continue
                stop = not any(f.allows_char(c) for c in chars) or set(chars) <= f.nfirst | (set(WS) if f.lt else set())
            if stop:
                if self.is_empty(p):
                    ps.pop(0)
                    continue
                break
            # all strippable, or strippable part and rest
            if f.ws and chars is not None:
                raise Unsupported("strip of particular characters from white space")
            if self.choose(2, f"{p} begins with text") == 1:
                if chars is None:
                    self.assume(p, ws=True)
                else:
                    self.assume(p, only=chars)
                ps.pop(0)
                continue
            if chars is None:
                w = self.fresh(p.name + ".l", "ws", **self.part(f, ws=True, only=None))
                t = self.fresh(p.name + ".t", p.kind, **self.part(f, nonempty=True, lt=True, rt=f.rt, nlast=f.nlast, nsuf=f.nsuf))
            else:
                w = self.fresh(p.name + ".l", "ws", **self.part(f, only=frozenset(chars)))
                t = self.fresh(p.name + ".t", p.kind, **self.part(f, nonempty=True, nfirst=frozenset(chars), rt=f.rt, nlast=f.nlast, nsuf=f.nsuf))
            self.bind(p, w, t)
            ps[0] = t
            break
        return self.mk(ps)

    def rstrip(self, s, chars=None):
        ps = self.ps(s)
        while ps:
            p = ps[-1]
            if isinstance(p, str):
                q = p.rstrip(chars)
                if q:
                    ps[-1] = q
                    break
                ps.pop()
                continue
            f = self.F(p)
            if f.dom is not None:
                for x in self.fork_dom(p):
                    ps[-1] = x
                continue
            if chars is None:
                if f.ws:
                    ps.pop()
                    continue
                stop = f.rt or f.nows
            else:
                if f.only is not None and f.only <= set(chars):
                    ps.pop()
                    continue
                stop = not any(f.allows_char(c) for c in chars) or set(chars) <= f.nlast | (set(WS) if f.rt else set())
            if stop:
                if self.is_empty(p):
                    ps.pop()
                    continue
                break
            if f.ws and chars is not None:
                raise Unsupported("strip of particular characters from white space")
            if self.choose(2, f"{p} ends with text") == 1:
                if chars is None:
                    self.assume(p, ws=True)
                else:
                    self.assume(p, only=chars)
                ps.pop()
                continue
            if chars is None:
                t = self.fresh(p.name + ".t", p.kind, **self.part(f, nonempty=True, rt=True, lt=f.lt, nfirst=f.nfirst, npre=f.npre))
                w = self.fresh(p.name + ".r", "ws", **self.part(f, ws=True, only=None))
            else:
                t = self.fresh(p.name + ".t", p.kind, **self.part(f, nonempty=True, nlast=frozenset(chars), lt=f.lt, nfirst=f.nfirst, npre=f.npre))
                w = self.fresh(p.name + ".r", "ws", **self.part(f, only=frozenset(chars)))
            self.bind(p, t, w)
            ps[-1] = t
            break
        return self.mk(ps)

    def part(self, f, **kw):
        g = f.sub(**kw)
        if not g.feasible():
            raise Infeasible
        return {k: getattr(g, k) for k in F.FIELDS}

    def fork_dom(self, v):
        d = self.F(v).dom
        x = d[self.choose(len(d), f"{v}")]
        self.bind(v, x)
        return [x] if x else []

    def startswith(self, s, lit):
        return self.remember("startswith", s, lit, self.startswith_)

    def endswith(self, s, lit):
        return self.remember("endswith", s, lit, self.endswith_)

    def remember(self, op, s, lit, fn):
        """A negative answer about several pieces is kept with them."""
        k = (op, tuple(self.ps(s)), lit)
        if self.store.keys.get(k) is False:
            return False
        r = fn(s, lit)
        if not r and sum(1 for p in k[1] if not isinstance(p, str)) > 1:
            k = (op, tuple(self.ps(s)), lit)
            if k not in self.store.keys:
                self.setkey(k, False)
        return r

    def startswith_(self, s, lit):
        ps = self.ps(s)
        r = lit
        while r:
            if not ps:
                return False
            p = ps[0]
            if isinstance(p, str):
                n = min(len(p), len(r))
                if p[:n] != r[:n]:
                    return False
                r = r[n:]
                ps[0] = p[n:]
                if not ps[0]:
                    ps.pop(0)
                continue
            f = self.F(p)
            if f.dom is not None:
                rest_maybe = len(ps) > 1

                def cls(x, r=r):
                    if x.startswith(r):
                        return "yes"
                    if r.startswith(x) and rest_maybe:
                        return x
                    return "no"

                k = self.splitdom(p, cls, f"{p} starts with {r!r}")
                if k == "yes":
                    return True
                if k == "no":
                    return False
                ps.pop(0)
                r = r[len(k):]
                continue
            can = self.can_start(f, r)
            shorter = []
            if len(ps) > 1:
                for k in range(len(r)):
                    if f.holds(r[:k]) and self.peek(ps[1:], r[k:]):
                        shorter.append(k)
            opts = (["yes"] if can else []) + shorter + ["no"]
            if any(r.startswith(x) for x in f.npre if x):  # already known not to begin so
                opts = shorter + ["no"]
            if f.flen is not None and f.flen < len(r):
                opts = [o for o in opts if o != "yes"]
            o = opts[self.choose(len(opts), f"{p} starts with {r!r}")]
            if o == "no":
                if can:
                    self.assume(p, npre=[r])
                if 0 in shorter:
                    self.assume(p, nonempty=True)
                return False
            if o == "yes":
                if f.flen == len(r):
                    self.bind(p, r)
                    return True
                q = self.fresh(p.name + "'", p.kind, **self.part(f, rt=f.rt, nlast=f.nlast, nsuf=f.nsuf, flen=None if f.flen is None else f.flen - len(r)))
                self.bind(p, r, q)
                return True
            self.bind(p, r[:o])
            ps.pop(0)
            r = r[o:]
        return True

    def can_start(self, f, r):
        if not all(f.allows_char(c) for c in r):
            return False
        if f.lt and r[0].isspace() or r[0] in f.nfirst or any(r.startswith(x) for x in f.npre) or any(x in r for x in f.nsub):
            return False
        if f.maxlen is not None and f.maxlen < len(r):
            return False
        return True

    def can_end(self, f, r):
        if not all(f.allows_char(c) for c in r):
            return False
        if f.rt and r[-1].isspace() or r[-1] in f.nlast or any(r.endswith(x) for x in f.nsuf) or any(x in r for x in f.nsub):
            return False
        if f.maxlen is not None and f.maxlen < len(r):
            return False
        return True

    def peek(self, ps, r):
        """Could the pieces start with r?"""
        if not r:
            return True
        if not ps:
            return False
        p = ps[0]
        if isinstance(p, str):
            n = min(len(p), len(r))
            return p[:n] == r[:n] and self.peek(ps[1:], r[n:])
        f = self.F(p)
        if f.dom is not None:
            return any(x.startswith(r) or r.startswith(x) and self.peek(ps[1:], r[len(x):]) for x in f.dom)
        return self.can_start(f, r) or any(f.holds(r[:k]) and self.peek(ps[1:], r[k:]) for k in range(len(r)))

    def endswith_(self, s, lit):
        ps = self.ps(s)
        r = lit
        while r:
            if not ps:
                return False
            p = ps[-1]
            if isinstance(p, str):
                n = min(len(p), len(r))
                if p[-n:] != r[-n:]:
                    return False
                r = r[:-n]
                ps[-1] = p[:-n]
                if not ps[-1]:
                    ps.pop()
                continue
            f = self.F(p)
            if f.dom is not None:
                def cls(x, r=r):
                    return "yes" if x.endswith(r) else ("no" if not r.endswith(x) or len(ps) == 1 else x)

                k = self.splitdom(p, cls, f"{p} ends with {r!r}")
                if k == "yes":
                    return True
                if k == "no":
                    return False
                ps.pop()
                r = r[: len(r) - len(k)]
                continue
            if len(r) > 1 and len(ps) > 1:
                raise Unsupported("endswith across pieces")
            can = self.can_end(f, r)
            opts = (["yes"] if can else []) + (["empty"] if len(ps) > 1 and f.holds("") else []) + ["no"]
            o = opts[self.choose(len(opts), f"{p} ends with {r!r}")]
            if o == "no":
                if can:
                    self.assume(p, nsuf=[r])
                if "empty" in opts:
                    self.assume(p, nonempty=True)
                return False
            if o == "empty":
                self.bind(p)
                ps.pop()
                continue
            q = self.fresh(p.name + "'", p.kind, **self.part(f, lt=f.lt, nfirst=f.nfirst, npre=f.npre))
            self.bind(p, q, r)
            return True
        return True

    def partition(self, s, sep, last=False):
        """(before, after) around the first (last) sep, or None."""
        ps = self.ps(s)
        rng = range(len(ps)) if not last else range(len(ps) - 1, -1, -1)
        if len(sep) > 1:
            self.no_straddle(ps, sep)
        for i in rng:
            p = ps[i]
            if isinstance(p, str):
                k = p.rfind(sep) if last else p.find(sep)
                if k >= 0:
                    return self.mk(ps[:i] + [p[:k]]), self.mk([p[k + len(sep):]] + ps[i + 1:])
                continue
            f = self.F(p)
            if not all(f.allows_char(c) for c in sep) or sep in f.nsub:
                continue
            if f.dom is not None:
                if self.splitdom(p, lambda x: sep in x, f"{p} holds {sep!r}"):
                    for _ in self.fork_dom(p) if p not in self.store.bind else ():
                        pass
                    return self.partition(s, sep, last)
                continue
            if self.store.keys.get(("has", p, sep)) is not True and self.choose(2, f"{p} holds {sep!r}") == 0:
                if len(sep) == 1:
                    self.assume(p, excl=sep)
                else:
                    self.assume(p, nsub=[sep])
                continue
            no = dict(excl=f.excl | {sep}) if len(sep) == 1 else dict(nsub=f.nsub | {sep})
            a = self.fresh(p.name + ".a", p.kind, **self.part(f, lt=f.lt, nfirst=f.nfirst, flen=None, npre=[x for x in f.npre if sep not in x], **({} if last else no)))
            b = self.fresh(p.name + ".b", p.kind, **self.part(f, rt=f.rt, nlast=f.nlast, flen=None, nsuf=[x for x in f.nsuf if sep not in x], **(no if last else {})))
            if len(sep) > 1:
                raise Unsupported("a variable which holds a long separator")
            if f.lt and sep.isspace() or sep in f.nfirst:
                self.assume(a, nonempty=True)
            if f.rt and sep.isspace() or sep in f.nlast:
                self.assume(b, nonempty=True)
            self.bind(p, a, sep, b)
            return self.mk(ps[:i] + [a]), self.mk([b] + ps[i + 1:])
        return None

    def no_straddle(self, ps, sep):
        for i, p in enumerate(ps):
            if isinstance(p, str):
                continue
            f = self.F(p)
            if f.allows_char(sep[0]) and i + 1 < len(ps) and not (f.dom is not None and not any(x.endswith(sep[:k]) for x in f.dom for k in range(1, len(sep)))) \
                    and any(self.peek(ps[i + 1:], sep[k:]) and self.can_end(f, sep[:k]) for k in range(1, len(sep))):
                raise Unsupported(f"{sep!r} might straddle {p}")
            if i and isinstance(ps[i - 1], str) and any(ps[i - 1].endswith(sep[:k]) and self.can_start(f, sep[k:]) for k in range(1, len(sep))):
                raise Unsupported(f"{sep!r} might straddle {p}")

    def contains(self, s, lit):
        if lit == "":
            return True
        return self.partition(s, lit) is not None

    def split(self, s, sep=None, maxsplit=-1):
        if sep is None:
            return self.words(s, maxsplit)
        out = []
        while maxsplit != 0:
            ps = self.ps(s)
            if maxsplit < 0:
                # an unbounded number of separators is out of reach
                for p in ps:
                    if not isinstance(p, str) and self.F(p).dom is None and all(self.F(p).allows_char(c) for c in sep):
                        if len(sep) == 1 and self.choose(2, f"{p} holds {sep!r}") == 0:
                            self.assume(p, excl=sep)
                        else:
                            raise Unsupported(f"unbounded split of {p} at {sep!r}")
            r = self.partition(s, sep)
            if r is None:
                break
            out.append(r[0])
            s = r[1]
            maxsplit -= 1
        out.append(self.simp(s))
        return out

    def words(self, s, maxsplit=-1):
        ps = self.ps(s)
        out, cur, i = [], [], 0
        while i < len(ps):
            p = ps[i]
            if maxsplit >= 0 and len(out) >= maxsplit and not cur:
                rest = self.rstrip(self.lstrip(self.mk(ps[i:])))
                # (the rest keeps its trailing white space in CPython; only used stripped)
                if rest != "" if isinstance(rest, str) else True:
                    out.append(self.lstrip(self.mk(ps[i:])))
                return out
            if isinstance(p, str):
                w = p.split()
                if not w:
                    if cur:
                        out.append(self.mk(cur))
                        cur = []
                else:
                    if p[0].isspace() and cur:
                        out.append(self.mk(cur))
                        cur = []
                    for j, x in enumerate(w):
                        cur.append(x)
                        if j + 1 < len(w) or p[-1].isspace():
                            out.append(self.mk(cur))
                            cur = []
                i += 1
                continue
            f = self.F(p)
            if f.dom is not None:
                ps[i:i + 1] = self.fork_dom(p)
                continue
            if f.ws:
                if cur and not self.is_empty(p):
                    out.append(self.mk(cur))
                    cur = []
                i += 1
                continue
            if f.nows:
                if cur or not self.is_empty(p):
                    cur.append(p)
                i += 1
                continue
            raise Unsupported(f"words of {p}")
        if cur:
            out.append(self.mk(cur))
        if maxsplit >= 0 and len(out) > maxsplit + 1:
            raise Unsupported("split() with a limit")
        return out

    def replace(self, s, a, b, count=-1):
        if a == "":
            raise Unsupported("replace of nothing")
        ps = self.ps(s)
        if count >= 0:
            out = []
            while count > 0:
                r = self.partition(s, a)
                if r is None:
                    break
                out += [r[0], b]
                s = r[1]
                count -= 1
            return self.concat(*out, s)
        if len(a) > 1:
            self.no_straddle(ps, a)
        out = []
        for p in ps:
            if isinstance(p, str):
                out.append(p.replace(a, b))
                continue
            f = self.F(p)
            if not all(f.allows_char(c) for c in a) or a in f.nsub:
                out.append(p)
            elif f.dom is not None:
                out += [x.replace(a, b) for x in self.fork_dom(p)]
            elif len(a) == 1 and self.store.keys.get(("has", p, a)) is not True and self.choose(2, f"{p} holds {a!r}") == 0:
                self.assume(p, excl=a)
                out.append(p)
            else:
                if len(a) == 1 and ("has", p, a) not in self.store.keys:
                    self.setkey(("has", p, a), True)
                out.append(self.derived("replace", p, (a, b), lambda x: x.replace(a, b), excl=f.excl | ({a} if len(a) == 1 and a not in b else set()) - set(b)))
        return self.mk(out)

    def derived(self, op, v, args, fn, **facts):
        """The result of a function on a variable, the same one whenever it is asked for."""
        k = ("derived", op, v, args)
        if k not in self.store.keys:
            w = self.fresh(f"{op}({v.name})", v.kind, **facts)
            self.store.keys[k] = w
            self.store.keys[("def", w)] = (fn, v)
            self.store.log.append(("key", k, w))
            self.store.log.append(("key", ("def", w), self.store.keys[("def", w)]))
        return self.store.keys[k]

    def upper(self, s):
        out = []
        for p in self.ps(s):
            if isinstance(p, str):
                out.append(p.upper())
                continue
            f = self.F(p)
            if f.up or f.num or f.digits or f.ws:
                out.append(p)
            elif f.dom is not None:
                if all(x.upper() == x for x in f.dom):
                    out.append(p)
                else:
                    out.append(self.derived("upper", p, (), str.upper, dom=tuple(dict.fromkeys(x.upper() for x in f.dom)), up=True))
                    self.link_dom(p, out[-1], str.upper)
            else:
                # upper() neither makes nor removes white space or uncased characters
                ex = frozenset(c for c in f.excl if c.isascii() and not c.isalpha())
                out.append(self.derived("upper", p, (), str.upper, nonempty=f.nonempty, lt=f.lt, rt=f.rt, nows=f.nows, excl=ex, up=True,
                                        nlast=frozenset(c for c in f.nlast if c.isascii() and not c.isalpha())
                                        | frozenset(x for x in f.nsuf if len(x) == 1 and x.isascii() and not x.isalpha())))
        return self.mk(out)

    def lower(self, s):
        out = []
        for p in self.ps(s):
            if isinstance(p, str):
                out.append(p.lower())
                continue
            f = self.F(p)
            if f.digits or f.ws:
                out.append(p)
            elif f.dom is not None:
                out += self.fork_dom(p)
                out[-1:] = [out[-1].lower()] if out else []
            else:
                out.append(self.derived("lower", p, (), str.lower, nonempty=f.nonempty, lt=f.lt, rt=f.rt, nows=f.nows,
                                        excl=frozenset(c for c in f.excl if c.isascii() and not c.isalpha())))
        return self.mk(out)

    def link_dom(self, v, w, fn):
        """Decide the value of v together with that of w = fn(v)."""
        groups = {}
        for x in self.F(v).dom:
            groups.setdefault(fn(x), []).append(x)
        ks = list(groups)
        k = ks[self.choose(len(ks), f"{v}")]
        if w not in self.store.bind:
            self.bind(w, k)
        if len(groups[k]) == 1:
            self.bind(v, groups[k][0])
        else:
            self.assume(v, dom=groups[k])

    def cut(self, s, k):
        """(first k characters, rest); shorter texts give (text, "")."""
        ps = self.ps(s)
        left = []
        while k > 0 and ps:
            p = ps[0]
            if isinstance(p, str):
                if len(p) <= k:
                    left.append(p)
                    k -= len(p)
                    ps.pop(0)
                else:
                    left.append(p[:k])
                    ps[0] = p[k:]
                    k = 0
                continue
            f = self.F(p)
            if f.dom is not None:
                ps[0:1] = self.fork_dom(p)
                continue
            n = f.flen
            if n is None:
                # at least k characters, or fewer
                lasting = len(ps) == 1
                opts = ["long"]
                if lasting:
                    if f.minlen < k:
                        opts.append("short")
                else:
                    if k > 12:
                        raise Unsupported("slice through a variable")
                    opts += [j for j in range(f.minlen, k) if not (f.nonempty and j == 0)]
                if f.maxlen is not None:
                    opts = [o for o in opts if not (o == "long" and f.maxlen < k)]
                o = opts[self.choose(len(opts), f"{p} length {k}")]
                if o == "short":
                    self.assume(p, maxlen=k - 1)
                    left.append(p)
                    ps.pop(0)
                    return self.mk(left), ""
                if o != "long":
                    if o == 0:
                        self.bind(p)
                        ps.pop(0)
                        continue
                    self.assume(p, flen=o)
                    n = o
                else:
                    a = self.fresh(p.name + f"[:{k}]", p.kind, **self.part(f, flen=k, lt=f.lt, nfirst=f.nfirst, npre=f.npre, maxlen=None))
                    b = self.fresh(p.name + f"[{k}:]", p.kind, **self.part(f, rt=f.rt, nlast=f.nlast, nsuf=f.nsuf, maxlen=None if f.maxlen is None else f.maxlen - k))
                    self.bind(p, a, b)
                    return self.mk(left + [a]), self.mk([b] + ps[1:])
            if n <= k:
                left.append(p)
                ps.pop(0)
                k -= n
                continue
            a = self.fresh(p.name + f"[:{k}]", p.kind, **self.part(f, flen=k, lt=f.lt, nfirst=f.nfirst, npre=f.npre, maxlen=None))
            b = self.fresh(p.name + f"[{k}:]", p.kind, **self.part(f, flen=n - k, rt=f.rt, nlast=f.nlast, nsuf=f.nsuf, maxlen=None))
            self.bind(p, a, b)
            return self.mk(left + [a]), self.mk([b] + ps[1:])
        return self.mk(left), self.mk(ps)

    def rcut(self, s, k):
        """(rest, last k characters)."""
        ps = self.ps(s)
        right = []
        while k > 0 and ps:
            p = ps[-1]
            if isinstance(p, str):
                if len(p) <= k:
                    right.insert(0, p)
                    k -= len(p)
                    ps.pop()
                else:
                    right.insert(0, p[-k:])
                    ps[-1] = p[:-k]
                    k = 0
                continue
            f = self.F(p)
            if f.dom is not None:
                ps[-1:] = self.fork_dom(p)
                continue
            if f.flen is not None and f.flen <= k:
                right.insert(0, p)
                k -= f.flen
                ps.pop()
                continue
            if k > 1 and not (len(ps) == 1):
                raise Unsupported("slice from the end through a variable")
            if f.flen is None and (f.minlen < k):
                if k == 1:
                    if self.is_empty(p):
                        ps.pop()
                        continue
                elif self.choose(2, f"{p} length {k}") == 1:
                    self.assume(p, maxlen=k - 1)
                    return "", self.mk([p] + right)
            a = self.fresh(p.name + f"[:-{k}]", p.kind, **self.part(f, flen=None if f.flen is None else f.flen - k, lt=f.lt, nfirst=f.nfirst, npre=f.npre, maxlen=None))
            b = self.fresh(p.name + f"[-{k}:]", p.kind, **self.part(f, flen=k, rt=f.rt, nlast=f.nlast, nsuf=f.nsuf, maxlen=None))
            self.bind(p, a, b)
            return self.mk(ps[:-1] + [a]), self.mk([b] + right)
        return self.mk(ps), self.mk(right)

    def length(self, s):
        n = 0
        for p in self.ps(s):
            if isinstance(p, str):
                n = n + len(p)
            else:
                f = self.F(p)
                if f.flen is not None:
                    n = n + f.flen
                elif f.dom is not None and len({len(x) for x in f.dom}) == 1:
                    n = n + len(f.dom[0])
                else:
                    z = z3.Int("len:" + p.name + str(id(p)))
                    lo = max(f.minlen, 1 if f.nonempty else 0)
                    if ("len", p) not in self.store.keys:
                        self.store.keys[("len", p)] = z
                        self.lenvars[str(z)] = (p, z)
                        self.zassume(z >= lo)
                        if f.maxlen is not None:
                            self.zassume(z <= f.maxlen)
                    n = n + z
        return n

    # equality ---------------------------------------------------------------
    def eq(self, a, b):
        """Decide a == b, splitting cases where needed."""
        for _ in range(50):
            x, y = self.ps(a), self.ps(b)
            while x and y and x[0] == y[0]:
                x.pop(0), y.pop(0)
            while x and y and x[-1] == y[-1]:
                x.pop(), y.pop()
            if x and y and isinstance(x[0], str) and isinstance(y[0], str):
                n = min(len(x[0]), len(y[0]))
                if x[0][:n] != y[0][:n]:
                    return False
                x[0], y[0] = x[0][n:], y[0][n:]
                x, y = [p for p in x if p != ""], [p for p in y if p != ""]
            if x and y and isinstance(x[-1], str) and isinstance(y[-1], str):
                n = min(len(x[-1]), len(y[-1]))
                if x[-1][-n:] != y[-1][-n:]:
                    return False
                x[-1], y[-1] = x[-1][:-n], y[-1][:-n]
                x, y = [p for p in x if p != ""], [p for p in y if p != ""]
            if not x and not y:
                return True
            if not x or not y:
                return not self.truth(self.mk(x or y))
            # characters that one side must have and the other cannot
            for u, v in ((x, y), (y, x)):
                for p in u:
                    if isinstance(p, str):
                        for c in p:
                            if not any((c in q) if isinstance(q, str) else self.F(q).allows_char(c) for q in v):
                                return False
            # first and last characters
            for u, v in ((x, y), (y, x)):
                if isinstance(u[0], str) and not isinstance(v[0], str) and self.F(v[0]).nonempty and self.F(v[0]).dom is None and not self.can_start(self.F(v[0]), u[0][0]):
                    return False
                if isinstance(u[-1], str) and not isinstance(v[-1], str) and self.F(v[-1]).nonempty and self.F(v[-1]).dom is None and not self.can_end(self.F(v[-1]), u[-1][-1]):
                    return False
            for u, v in ((x, y), (y, x)):
                if len(v) == 1 and isinstance(v[0], str):
                    if len(u) == 1 and self.F(u[0]).dom is not None:
                        return self.splitdom(u[0], lambda d: d == v[0], f"{u[0]} is {v[0]!r}")
                    sols = self.match_literal(u, v[0], 8)
                    if not sols:
                        return False
                    k = ("neq", tuple(u), v[0])
                    if self.store.keys.get(k):
                        return False
                    o = self.choose(len(sols) + 1, f"{self.mk(u)} is {v[0]!r}")
                    if o == len(sols):
                        if len(u) == 1:
                            self.assume(u[0], neq=[v[0]])
                        else:
                            self.setkey(k, True)
                        return False
                    for p, val in sols[o].items():
                        self.bind(p, val)
                    return True
            if len(x) == 1 and len(y) == 1:
                fx, fy = self.F(x[0]), self.F(y[0])
                if fx.dom is not None and fy.dom is not None and not set(fx.dom) & set(fy.dom):
                    return False
                if fx.flen is not None and fy.flen is not None and fx.flen != fy.flen:
                    return False
                k = ("neqv", frozenset((x[0], y[0])))
                if self.store.keys.get(k):
                    return False
                if self.choose(2, f"{x[0]} is {y[0]}") == 0:
                    self.setkey(k, True)
                    return False
                f = fx
                d = {n: getattr(fy, n) for n in F.FIELDS if getattr(fy, n) != F.FIELDS[n]}
                self.assume(x[0], **d)
                self.bind(y[0], x[0])
                return True
            if all(isinstance(p, str) or self.F(p).nows for p in x + y):  # the same white space
                u, v = ("".join(c for p in z if isinstance(p, str) for c in p if c.isspace()) for z in (x, y))
                if u != v:
                    return False
            n = [self.nwords(z) for z in (x, y)]
            if None not in n:
                if n[0] != n[1]:
                    return False
                u, v = self.groups(x), self.groups(y)
                if len(u) == len(v) > 1:
                    k = ("neqw", frozenset((tuple(x), tuple(y))))
                    if self.store.keys.get(k):
                        return False
                    if self.choose(2, f"{self.mk(x)} is {self.mk(y)}") == 0:
                        self.setkey(k, True)
                        return False
                    for i, j in zip(u, v):
                        if not self.eq(self.mk(i), self.mk(j)):
                            raise Infeasible
                    return True
            raise Unsupported(f"comparison of {self.mk(x)} and {self.mk(y)}")
        raise Unsupported("comparison")

    def same(self, a, b):
        """True if provably equal on this path; False if not provable."""
        return self.ps(a) == self.ps(b)

    def match_literal(self, pieces, lit, limit):
        out = []

        def rec(i, k, sol):
            if len(out) >= limit + 1:
                return
            if i == len(pieces):
                if k == len(lit):
                    out.append(dict(sol))
                return
            p = pieces[i]
            if isinstance(p, str):
                if lit.startswith(p, k):
                    rec(i + 1, k + len(p), sol)
                return
            if p in sol:
                if lit.startswith(sol[p], k):
                    rec(i + 1, k + len(sol[p]), sol)
                return
            f = self.F(p)
            ends = range(k, len(lit) + 1) if i + 1 < len(pieces) else [len(lit)]
            for e in ends:
                if f.holds(lit[k:e]):
                    sol[p] = lit[k:e]
                    rec(i + 1, e, sol)
                    del sol[p]

        rec(0, 0, {})
        if len(out) > limit:
            raise Unsupported("too many ways to match")
        return out

    # predicates -------------------------------------------------------------
    def groups(self, ps):
        """The words and white spaces of a text for which nwords is known."""
        out = []
        for p in ps:
            for q in re.findall(r"\s+|\S+", p) if isinstance(p, str) else [p]:
                ws = q.isspace() if isinstance(q, str) else self.F(q).ws
                if not out or out[-1][0] != ws:
                    out.append((ws, []))
                out[-1][1].append(q)
        return [g for _, g in out]

    def nwords(self, ps):
        """The number of words of a text, or None."""
        t = ""
        for p in ps:
            f = None if isinstance(p, str) else self.F(p)
            if f is not None and not (f.ws or f.nows and f.nonempty):
                return None
            t += p if f is None else "x" if f.nows else " " if f.nonempty else "\0"
        return None if re.search(r"[^\s\0]\0+[^\s\0]", t) else len(t.replace("\0", "").split())

    def is_number(self, s):
        """Does float(s) accept the text?"""
        ps = self.ps(s)
        if not ps:
            return False
        if all(isinstance(p, str) for p in ps):
            return is_num("".join(ps))
        vs = [p for p in ps if not isinstance(p, str)]
        if len(ps) == 1:
            f = self.F(ps[0])
            if f.num is not None:
                return f.num
            if f.dom is not None:
                return self.splitdom(ps[0], is_num, f"{ps[0]} numeric")
            if f.ws:
                return False
            b = self.choose(2, f"{ps[0]} numeric") == 0
            self.assume(ps[0], num=b)
            return b
        k = ("num", tuple(ps))
        if any(isinstance(p, str) and any(c not in "0123456789+-.eE_infatyINFATY \t" for c in p) for p in ps):
            return False
        # an epoch (dddd-...) or a text with a "-" between digits is not a number
        return self.key(k, (True, False))

    def isnumeric(self, s):
        ps = self.ps(s)
        if not ps:
            return False
        res = True
        for p in ps:
            if isinstance(p, str):
                if not p.isnumeric():
                    return False
                continue
            f = self.F(p)
            if f.digits is True or f.only is not None and all(c.isnumeric() for c in f.only):
                if not f.nonempty and len(ps) == 1 and self.is_empty(p):
                    return False
                continue
            if f.digits is False:
                return False
            if f.dom is not None:
                if not self.splitdom(p, str.isnumeric, f"{p} digits"):
                    return False
                continue
            if not f.nonempty and self.is_empty(p):
                if len(ps) == 1:
                    return False
                continue
            if self.choose(2, f"{p} digits") == 0:
                self.assume(p, digits=True)
            else:
                self.assume(p, digits=False)
                return False
        return res
