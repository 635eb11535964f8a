"""Termination (P16): loop variants, recursion measures, and loops over finite collections.

The functions reachable from an entry point are executed on abstract values: integers and lengths are exact (z3),
texts and objects of dependencies are unknown.  Loops are cut by invariants, recursive functions by contracts; both
are found as the largest consistent set of candidates (order relations between integers, lengths and measures), so
that nothing refers to the names or the layout of the code.  Once they are stable, one more pass over all paths
decides the obligations:
  * each `while` loop has a variant: an integer or length that moves towards a bound in every iteration;
  * each `for` loop runs over a collection that is not extended by its body;
  * each recursive call gets a smaller measure (the height of a class in the tree of the model classes), or belongs
    to an acyclic set of calls with an equal one.
"""
import ast
import builtins
import copy
import dataclasses
import enum
import itertools
import os
import sys
import time
import types

import z3

from .core import Unsupported

GROW = {"append", "extend", "insert"}
SAME = {"sort", "reverse", "copy"}
SHRINK = {"pop", "remove", "clear"}
MODULES = {"builtins", "copy", "lxml", "xsdata", "re", "dataclasses", "enum", "decimal", "typing", "collections", "datetime",
           "operator", "io", "os", "pathlib", "string", "xml", "posixpath", "genericpath", "inspect", "abc", "types", "json", "math", "functools", "_io", "_operator", "_collections", "warnings", "textwrap", "contextlib"}
FINITE = {"chain", "islice", "groupby", "accumulate", "takewhile", "dropwhile", "product", "zip_longest", "combinations", "permutations", "filterfalse", "starmap", "compress", "pairwise", "tee"}
MEASURE = {"_NdmElement": "clazz"}  # the measure of an element is that of its class


class Dead(Exception):
    """The path ends here."""


class Raised(Exception):
    def __init__(self, exc=None):
        self.exc = exc


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Restart(Exception):
    """The set of contract functions has changed."""


# values --------------------------------------------------------------------------
class Opaque:
    """Any value; foreign: of a dependency, it does not share lists with the objects of the code."""

    def __init__(self, foreign=False, region=None):
        self.foreign, self.region, self.truth, self.len, self.meth = foreign, region, None, None, None


class Int:
    def __init__(self, z):
        self.z = z


class Bool:
    def __init__(self, z):
        self.z = z


class Lst:
    def __init__(self, t, length, elem, items=None, region=None, site=None, mutable=True):
        self.len, self.elem_, self.items = length, elem, items
        self.region = region or ("local", id(self))
        self.serial = next(t.serial)
        self.site, self.mm, self.mutable = site, None, mutable

    def elem(self, t):
        """A fresh element (the list is not empty)."""
        if self.items is not None:
            if not self.items:
                raise Dead
            return self.items[t.choose(len(self.items))]
        return self.elem_(t)


class Rec:
    """A tuple (with names, for a namedtuple)."""

    def __init__(self, vals, cls=None):
        self.vals, self.cls = list(vals), cls


class Obj:
    """An object of a class of the code."""

    def __init__(self, cls, m=None):
        self.cls, self.m = cls, m


class Cls:
    """A value with a measure: the height of the class (0 for all that is not a dataclass)."""

    def __init__(self, m):
        self.m = m


class Der:
    """Metadata of the dataclass with the given measure: vars, fields, field."""

    def __init__(self, m, stage):
        self.m, self.stage = m, stage


class Dct:
    def __init__(self, length, pair):
        self.len, self.pair = length, pair


class Map:
    """A dictionary; where: what holds the kinds of its keys and values."""

    def __init__(self, t, where, region=None):
        self.where, self.region = where, region or ("local", next(t.serial))


VALUES = ("field", Map, "values")  # where the values of dictionaries are


class Live:
    """A module, class or function of the program."""

    def __init__(self, o):
        self.o = o


class Fun:
    """A function of the code (bound to `self` if given)."""

    def __init__(self, node, glob, cls, name, bound=(), env=None, live=None, file=""):
        self.node, self.glob, self.cls, self.name, self.bound, self.env, self.live, self.file = node, glob, cls, name, bound, env, live, file


class Meth:
    def __init__(self, recv, name):
        self.recv, self.name = recv, name


class Frame:
    def __init__(self, fn, env):
        self.fn, self.env, self.ghosts = fn, env, {}
        self.chain = ()


class Loop:
    """What is known of a loop: the invariant candidates and the kinds of the variables."""

    def __init__(self, name):
        self.name = name
        self.kinds = {}  # variable -> kinds
        self.cands = None  # candidates of the invariant
        self.sites = {}  # extended lists: site -> kinds of the elements
        self.ecands = {}  # site -> candidates of the elements
        self.variants = None
        self.why = ""


class Contract:
    def __init__(self, fn):
        self.fn = fn
        self.params = {}  # name -> kinds
        self.pre = None
        self.results = {}  # head -> kind
        self.post = {}  # head -> candidates
        self.grown, self.escaped, self.alias = set(), set(), False
        self.pairs, self.where = set(), {}  # which parameters may be the same list; where the lists may come from
        self.vin = self.vout = 0
        self.last = None
        self.params_order = [a.arg for a in fn.node.args.posonlyargs + fn.node.args.args + fn.node.args.kwonlyargs]


def files(root):
    for d, _, fs in os.walk(root):
        for f in fs:
            if f.endswith(".py"):
                yield os.path.join(d, f)


class Term:
    def __init__(self, package, entry, models_dir="models", deadline=None, log=None):
        """package: the root directory of the code; entry: (class, method name)."""
        self.root, self.entry, self.deadline = package, entry, deadline
        self.skip = os.path.join(package, models_dir)
        self.trees, self.nodes = {}, {}
        self.methods = set()
        self.loops, self.contracts, self.heap, self.tables = {}, {}, {}, {}
        self.heads = set()  # recursive functions, used by contract
        self.measured, self.reset = set(), False
        self.vectors, self.shared, self.merged, self.wild = set(), set(), set(), False
        self.inlined = set()  # functions which change the lists of their callers
        self.serial = itertools.count()
        self.scanned, self.names = {}, {}
        self.changed = self.final = self.own = False
        self.hv, self.reads = 0, {}
        self.queries, self.paths, self.solver_s = 0, 0, 0.0
        self.for_bad, self.for_seen, self.edges, self.functions = {}, set(), {}, set()
        self.log = log or (lambda *_: None)
        for f in files(package):
            if not f.startswith(self.skip):
                for c in ast.walk(self.tree(f)):
                    if isinstance(c, ast.ClassDef):
                        self.methods |= {n.name for n in c.body if isinstance(n, (ast.FunctionDef,))}

    # sources ----------------------------------------------------------------------
    def tree(self, path):
        if path not in self.trees:
            with open(path) as f:
                self.trees[path] = t = ast.parse(f.read(), path)
            for n in ast.walk(t):
                if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                    first = min([n.lineno] + [d.lineno for d in getattr(n, "decorator_list", [])])
                    self.nodes.setdefault((path, first), []).append(n)
        return self.trees[path]

    def ours(self, fn):
        code = getattr(fn, "__code__", None)
        return code is not None and os.path.realpath(code.co_filename).startswith(os.path.realpath(self.root) + os.sep)

    def function(self, fn, bound=()):
        path = os.path.realpath(fn.__code__.co_filename)
        self.tree(path)
        ns = [n for n in self.nodes.get((path, fn.__code__.co_firstlineno), []) if getattr(n, "name", "<lambda>") == fn.__name__]
        if len(ns) != 1:
            raise Unsupported(f"the source of {fn.__qualname__}")
        parts = fn.__qualname__.split(".")
        return Fun(ns[0], fn.__globals__, parts[-2] if len(parts) > 1 and parts[-2] != "<locals>" else None, fn.__qualname__, bound, None, fn, os.path.relpath(path, os.path.dirname(self.root)))

    # paths ------------------------------------------------------------------------
    def explore(self, body):
        todo = [[]]
        while todo:
            if self.deadline and time.time() > self.deadline:
                raise Unsupported("out of time")
            self.prefix = todo.pop()
            self.taken, self.open = [], []
            self.s = z3.Solver()
            self.s.set("timeout", 20000)
            self.frames, self.active, self.trys = [], [], 0
            self.aliases = {}
            self.paths += 1
            try:
                body()
            except (Dead, Raised):
                pass
            todo.extend(self.open)

    def choose(self, n):
        if n == 1:
            return 0
        i = len(self.taken)
        if i < len(self.prefix):
            k = self.prefix[i]
        else:
            k = 0
            for j in range(1, n):
                self.open.append(self.taken + [j])
        self.taken.append(k)
        return k

    def check(self, *z):
        t = time.time()
        self.queries += 1
        r = self.s.check(*z)
        self.solver_s += time.time() - t
        return r

    def replay(self):
        """Up to the last choice, the path is one that has been taken: what was checked on it holds."""
        return len(self.taken) < len(self.prefix)

    def assume(self, z):
        if isinstance(z, bool):
            if not z:
                raise Dead
            return
        self.s.add(z)
        if not self.replay() and self.check() == z3.unsat:
            raise Dead

    def proves(self, z):
        return self.check(z3.Not(z)) == z3.unsat

    def branch(self, z):
        z = z3.simplify(z)
        if z3.is_true(z):
            return True
        if z3.is_false(z):
            return False
        i = len(self.taken)
        if i >= len(self.prefix):
            if self.check(z) == z3.unsat:
                self.taken.append(1)
                self.s.add(z3.Not(z))
                return False
            if self.check(z3.Not(z)) == z3.unsat:
                self.taken.append(0)
                self.s.add(z)
                return True
        k = self.choose(2)
        self.s.add(z if k == 0 else z3.Not(z))
        return k == 0

    def fresh(self, hint="i", low=None):
        v = z3.Int(f"{hint}!{next(self.serial)}")
        if low is not None:
            self.s.add(v >= low)
        return v

    def opaque(self, **k):
        return Opaque(**k)

    def may_raise(self):
        if self.trys and self.choose(2):
            raise Raised()

    # kinds: what is kept of a value where it is generalised ---------------------------------------
    def kinds(self, v):
        """{head: kind}"""
        if v is None:
            return {"none": None}
        if isinstance(v, bool) or isinstance(v, Bool):
            return {"bool": None}
        if isinstance(v, int) or isinstance(v, Int):
            return {"int": None}
        if isinstance(v, Lst):
            if v.items is not None and 0 < len(v.items) < 4 and v.site not in self.vectors and not (v.site and v.site[0] == "live"):
                return {("vec", len(v.items)): (v.site, [self.kinds(x) for x in v.items])}
            return {"list": self.elem_kinds(v)}
        if isinstance(v, Rec):
            return {("rec", len(v.vals)): (v.cls, [self.kinds(x) for x in v.vals])}
        if isinstance(v, Map):
            return {"map": self.map_kinds(v)}
        if isinstance(v, Obj):
            return {("obj", v.cls): None}
        if isinstance(v, Cls):
            return {"cls": None}
        if isinstance(v, Der):
            return {("der", v.stage): None}
        if isinstance(v, Opaque) and v.foreign:
            return {"foreign": None}
        if isinstance(v, Live) and isinstance(v.o, type) or isinstance(v, Live) and self.ours(v.o):
            return {("live", id(v.o)): v.o}
        return {"any": None}

    def elem_kinds(self, l):
        if l.items is not None:
            out = {}
            for x in l.items:
                out = self.join(out, self.kinds(x))
            return out
        if getattr(l, "ekinds", None) is None:
            return {"any": None}
        return l.ekinds() if callable(l.ekinds) else l.ekinds

    def join(self, a, b):
        if "any" in a or "any" in b:
            # all values have a measure
            if set(a) | set(b) <= {"any", "cls"}:
                return {"cls": None} if "cls" in a or "cls" in b else {"any": None}
            return {"any": None}
        out = dict(a)
        vecs = {h for h in set(a) | set(b) if isinstance(h, tuple) and h[0] == "vec"}
        if vecs and (len(vecs) > 1 or "list" in a or "list" in b or any(a[h][0] != b[h][0] for h in vecs if h in a and h in b)):
            # lists of different kinds: only their elements are kept
            a, b = self.unvec(a), self.unvec(b)
            return self.join(a, b)
        for h, k in b.items():
            if h not in out:
                out[h] = k
            elif h == "list":
                out[h] = self.join(out[h], k)
            elif h == "map":
                out[h] = tuple(self.join(x, y) for x, y in zip(out[h], k))
            elif isinstance(h, tuple) and h[0] == "vec":
                out[h] = (k[0], [self.join(x, y) for x, y in zip(out[h][1], k[1])])
            elif isinstance(h, tuple) and h[0] == "rec":
                out[h] = (out[h][0] if out[h][0] is k[0] else None, [self.join(x, y) for x, y in zip(out[h][1], k[1])])
        if len(out) > 6:
            return {"any": None}
        return out

    def unvec(self, a):
        out = {}
        for h, k in a.items():
            if isinstance(h, tuple) and h[0] == "vec":
                self.merged.add(k[0])
                if self.wild and k[0] not in self.vectors:
                    self.vectors.add(k[0])
                    raise Restart
                ks = {}
                for x in k[1]:
                    ks = self.join(ks, x)
                h, k = "list", ks
            out = self.join(out, {h: k}) if h in out else {**out, h: k}
        return out

    def map_kinds(self, m):
        w = m.where
        if isinstance(w, tuple) and w[0] == "kinds":
            return w[1]
        if isinstance(w, tuple) and w[0] == "field":
            return self.heap.get(w[1:], {}).get("map", ({}, {}))
        return self.tables.get(w, {"map": ({}, {})})["map"]

    def map_set(self, m, k, v):
        """An entry is set: its kinds are added wherever the dictionary may be."""
        new = {"map": (k, v)}
        if isinstance(m, Map) and m.where[0] == "site" and m.region[0] == "local":
            self.note(self.tables, m.where, new)
            return
        for key, old in list(self.heap.items()):
            if isinstance(old, dict) and "map" in old and (not isinstance(m, Map) or m.where[0] != "field" or m.where[1:] == key or m.where[1:] in self.shared or key in self.shared):
                self.note(self.heap, key, new, "heap")
        for key, old in list(self.tables.items()):
            if isinstance(old, dict) and "map" in old:
                self.note(self.tables, key, new, "heap")
        for c in self.contracts.values():
            for tab in (c.params, c.results):
                for key, old in list(tab.items()) if tab is c.params else [("results", c.results)]:
                    if isinstance(old, dict) and "map" in old:
                        self.note(tab if tab is c.params else c.__dict__, key, new, "heap")

    def ch(self, what):
        """Something that is known has changed."""
        self.changed = True
        if what == "heap":
            self.hv += 1
        elif what == "own":
            self.own = True
        elif what[0] == "in":
            what[1].vin += 1
        else:
            what[1].vout += 1

    def note(self, table, key, v, what="own"):
        """Join the kinds of a value to those of a table."""
        k = self.kinds(v) if not isinstance(v, dict) else v
        old = table.get(key)
        new = k if old is None else self.join(old, k)
        if old is None or repr(old) != repr(new):
            table[key] = new
            self.ch(what)

    def make(self, kinds, region=None, site=None, low=None):
        """A fresh value of some kinds."""
        if not kinds:
            raise Dead
        heads = sorted(kinds, key=repr)
        h = heads[self.choose(len(heads))]
        k = kinds[h]
        if h == "none":
            return None
        if h == "bool":
            return Bool(z3.Bool(f"b!{next(self.serial)}"))
        if h == "int":
            return Int(self.fresh())
        if h == "list":
            l = Lst(self, self.fresh("len", 0), None, region=region or ("some", next(self.serial)), site=site)
            l.ekinds = k
            l.elem_ = lambda t, k=k: t.make(k)
            return l
        if h == "map":
            return Map(self, ("field",) + region[1:] if region and region[0] == "field" and region != VALUES else ("kinds", k), region or ("some", next(self.serial)))
        if h[0] == "vec":
            l = Lst(self, z3.IntVal(h[1]), None, [self.make(x) for x in k[1]], region=region or ("some", next(self.serial)), site=site)
            l.origin = k[0] or ('none',)
            return l
        if h == "cls":
            return Cls(self.fresh("m", 0))
        if h == "foreign":
            return Opaque(foreign=True)
        if h == "any":
            return Opaque(region=region)
        if h[0] == "rec":
            return Rec([self.make(x) for x in k[1]], k[0])
        if h[0] == "obj":
            return self.obj(h[1])
        if h[0] == "live":
            return Live(k)
        if h[0] == "der":
            return Der(self.fresh("m", 0), h[1])
        raise Unsupported(f"kind {h}")

    def obj(self, cls, m=None):
        if m is None and cls.__name__ in MEASURE:
            m = self.fresh("m", 0)
        return Obj(cls, m)

    def comps(self, v, name, out, depth=0):
        """The integers in a value."""
        if isinstance(v, bool):
            return
        if isinstance(v, int):
            out[name] = z3.IntVal(v)
        elif isinstance(v, Int):
            out[name] = v.z
        elif isinstance(v, Lst):
            out["len " + name] = v.len
            if v.items is not None and len(v.items) < 4 and depth < 3:
                for i, x in enumerate(v.items):
                    self.comps(x, f"{name}.{i}", out, depth + 1)
        elif isinstance(v, (Obj, Cls, Der)) and v.m is not None:
            out["height " + name] = v.m
        elif isinstance(v, Rec) and depth < 3:
            for i, x in enumerate(v.vals):
                self.comps(x, f"{name}.{i}", out, depth + 1)

    @staticmethod
    def numeric(n):
        return not n.split("~")[-1].startswith("height")

    def relations(self, left, right, pairs=False):
        """Candidates between the names of left and right."""
        out = set()
        for a in left:
            if self.numeric(a):
                out.add(("0<=", a))
                out |= {("max", a), ("maxold", a)}
                if pairs:
                    out |= {("max2", a, x, y) for x, y in itertools.combinations(sorted(n for n in right if self.numeric(n) and n.startswith("old~")), 2)}
            for b in right:
                if not b.startswith("top~") and a != b and self.numeric(a) == self.numeric(b):
                    out |= {("<=", a, b), ("<=", b, a), ("<", a, b), ("<", b, a)}
        return out

    @staticmethod
    def zmax(zs):
        return [z3.IntVal(0), *zs]

    def formula(self, c, env, bound):
        """The candidate over the components (None: one of them is missing)."""
        if any(n not in env for n in c[1:]):
            return None
        if c[0] == "0<=":
            return env[c[1]] >= 0
        if c[0] == "max":
            return z3.Or([env[c[1]] <= z for z in bound])
        if c[0] == "maxold":
            top = [n for n in env if n.startswith("top~")] or [n for n in env if n.startswith("old~") and self.numeric(n)]
            return z3.Or([env[c[1]] <= 0] + [env[c[1]] <= env[n] for n in top])
        if c[0] == "max2":
            return z3.Or(env[c[1]] <= env[c[2]], env[c[1]] <= env[c[3]])
        a, b = env[c[1]], env[c[2]]
        return a <= b if c[0] == "<=" else a < b

    def filter(self, cands, env, bound, what="own"):
        """Drop the candidates which do not hold here."""
        if self.replay():
            return
        live = {}
        for c in sorted(cands, key=repr):
            f = self.formula(c, env, bound)
            if f is None:
                continue
            live[c] = f
        while live:
            q = z3.Or([z3.Not(f) for f in live.values()])
            r = self.check(q)
            if r == z3.unsat:
                return
            if r == z3.unknown:
                gone = list(live)
            else:
                m = self.model(q)
                gone = [c for c, f in live.items() if z3.is_false(m.eval(f, model_completion=True))]
                if not gone:
                    gone = list(live)
            for c in gone:
                cands.discard(c)
                live.pop(c)
            self.ch(what)

    def model(self, q):
        self.s.push()
        try:
            self.s.add(q)
            self.check()
            return self.s.model()
        finally:
            self.s.pop()

    def suppose(self, cands, env, bound):
        for c in cands:
            f = self.formula(c, env, bound)
            if f is not None:
                self.s.add(f)
        if not self.replay() and self.check() == z3.unsat:
            raise Dead

    # statements -----------------------------------------------------------------------
    @property
    def frame(self):
        return self.frames[-1]

    def block(self, body):
        for s in body:
            self.stmt(s)

    def stmt(self, s):
        f = getattr(self, "s_" + type(s).__name__, None)
        if f is None:
            raise Unsupported(f"{type(s).__name__} statement")
        return f(s)

    def s_Pass(self, s):
        pass

    def s_Import(self, s):
        raise Unsupported("import in a function")

    s_ImportFrom = s_Import

    def s_Expr(self, s):
        self.ev(s.value)

    def s_Return(self, s):
        raise Ret(self.ev(s.value) if s.value else None)

    def s_Break(self, s):
        raise Brk

    def s_Continue(self, s):
        raise Cont

    def s_Raise(self, s):
        if s.exc:
            self.ev(s.exc)
        raise Raised()

    def s_Assert(self, s):
        if not self.truth(self.ev(s.test)):
            raise Raised()

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.frame.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                v = self.ev(t.value)
                if isinstance(v, Lst):
                    self.shrunk(v)
            else:
                self.ev(t.value)

    def s_FunctionDef(self, s):
        if s.decorator_list:
            raise Unsupported("decorated local function")
        fr = self.frame
        self.frame.env[s.name] = Fun(s, fr.fn.glob, fr.fn.cls, f"{fr.fn.name}.{s.name}", (), fr.env, None, fr.fn.file)

    def s_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))

    def s_AugAssign(self, s):
        t = s.target
        v = self.ev(s.value)
        if isinstance(t, ast.Name):
            old = self.ev(ast.Name(t.id, ast.Load()))
            if isinstance(old, (Lst, Opaque)) and isinstance(s.op, (ast.Add, ast.Mult)) and not (isinstance(old, Lst) and not old.mutable):
                if isinstance(old, Lst) and isinstance(s.op, ast.Add):
                    self.method(old, "extend", [v], {}, s)
                    return
                self.grow(old)
            self.frame.env[t.id] = self.binop(s.op, old, v)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            old = self.attr(o, t.attr)
            if isinstance(old, Lst):
                self.method(old, "extend", [v], {}, s)
            else:
                if isinstance(old, Opaque):
                    self.grow(old)
                self.setattr(o, t.attr, self.binop(s.op, old, v))
        else:
            o = self.ev(t.value)
            old = self.subscript(o, t.slice)
            if isinstance(old, Lst):
                self.method(old, "extend", [v], {}, s)
            elif isinstance(old, Opaque):
                self.grow(old)
            self.setitem(o, t.slice, self.binop(s.op, old, v))

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.frame.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if isinstance(v, Rec) and not star:
                if len(v.vals) != n:
                    raise Raised()
                vs = v.vals
            elif isinstance(v, Lst) and v.items is not None and not star:
                if len(v.items) != n:
                    raise Raised()
                vs = v.items
            else:
                self.may_raise()
                vs = [self.opaque(region=("any",)) if i in star else self.instance(v) for i in range(n)]
            for x, y in zip(t.elts, vs):
                self.assign(x.value if isinstance(x, ast.Starred) else x, y)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value), t.slice, v)
        else:
            raise Unsupported("assignment")

    def setitem(self, o, sl, v):
        self.escape(v, VALUES if isinstance(o, Map) else ("any",))
        if isinstance(sl, ast.Slice):
            for x in (sl.lower, sl.upper, sl.step):
                if x is not None:
                    self.ev(x)
            if isinstance(o, (Lst, Opaque)):
                self.grow(o, {"any": None})
            if isinstance(o, Lst):
                self.forget(o)
            return
        i = self.ev(sl)
        self.may_raise()
        if isinstance(o, Map):
            self.escape(i)
            self.mutated_map(o)
            self.map_set(o, self.kinds(i), self.kinds(v))
            return
        if isinstance(o, Opaque) and not o.foreign and self.region(o)[0] != "local":
            self.map_set(None, {"any": None}, self.kinds(v))
        if isinstance(o, Lst):
            self.mutate(o, self.kinds(v), resize=False)
            if o.items is not None and isinstance(i, int) and -len(o.items) <= i < len(o.items):
                if self.inloop(o):
                    self.touched(o, v)
                o.items[i] = v
            elif o.items is not None:
                if self.inloop(o):
                    self.touched(o, v)
                else:
                    self.forget(o)
            else:
                self.touched(o, v)
                old, ek, w = o.elem_, o.ekinds, v
                o.elem_ = lambda t: old(t) if t.choose(2) == 0 else w
                o.ekinds = self.join(ek() if callable(ek) else ek or {"any": None}, self.kinds(v))
                o.mm = None

    def mutated_map(self, m):
        """A dictionary changes: not one that a loop runs over."""
        self.grow_region(m.region)

    def mutate(self, o, new=None, resize=True):
        """A list changes (new: the kinds of the elements that are added)."""
        r = o.region
        if getattr(o, "origin", None) is not None:
            if o.origin not in self.vectors:
                self.vectors.add(o.origin)
            raise Restart
        if r[0] not in ("local", "param", "field") or r == VALUES:
            if resize or new is None or self.join(self.elem_kinds(o), new) != self.join(self.elem_kinds(o), {}):
                raise Unsupported("a list of unknown origin is changed")
            self.wild = True
            if not self.merged <= self.vectors:
                self.vectors |= self.merged
                raise Restart
        if r[0] == "field":
            if r[1:] in self.shared:
                raise Unsupported("a list that two attributes share is changed")
            if new is not None:
                self.note(self.heap, r[1:], {"list": new}, "heap")
                cands = self.heap.get(("elements",) + r[1:])
                if cands and any(not (h in ("none", "any", "bool", "int", "foreign")) for h in new):
                    cands.clear()
                    self.ch("heap")
        for v in self.visible():
            if v is not o and self.may_alias(r, v.region):
                self.touched(v)
                if new is not None:
                    for h in new:
                        for a in self.active:
                            if v.serial < a["start"]:
                                self.note(a["loop"].sites, v.site, {h: new[h]})
                    ek = self.join(self.elem_kinds(v), new)
                    v.ekinds, v.elem_ = ek, (lambda t, k=ek: t.make(k))
                else:
                    ek = self.elem_kinds(v)
                    v.ekinds, v.elem_ = ek, (lambda t, k=ek: t.make(k))
                v.items, v.len, v.mm = None, self.fresh("len", 0), None

    def visible(self):
        """The lists which the variables hold."""
        seen, out = set(), []

        def walk(v):
            if isinstance(v, Rec):
                for x in v.vals:
                    walk(x)
            elif isinstance(v, Lst) and id(v) not in seen:
                seen.add(id(v))
                out.append(v)
                for x in v.items or ():
                    walk(x)

        for fr in self.frames:
            for v in fr.env.values():
                walk(v)
        return out

    def forget(self, l):
        """Nothing is known of the list any more."""
        l.items, l.len, l.mm = None, self.fresh("len", 0), None
        l.ekinds = {"any": None}
        l.elem_ = lambda t: Opaque(region=("any",))

    def escape(self, v, region=("any",)):
        if isinstance(v, (Lst, Map)) and v.region[0] == "local":
            v.region = region
        elif isinstance(v, (Lst, Map)) and v.region[0] == "param":
            c = self.contract_now
            if c is not None and v.region[1] not in c.escaped:
                c.escaped.add(v.region[1])
                self.ch(("out", c))
            v.region = ("any",)
        elif isinstance(v, (Lst, Map, Opaque)) and v.region and v.region[0] == "field" and v.region != region and region[0] == "field":
            # the same list in two fields
            if not {v.region[1:], region[1:]} <= self.shared:
                self.shared |= {v.region[1:], region[1:]}
                self.ch("heap")
        elif isinstance(v, Opaque) and v.region and v.region[0] == "local":
            v.region = region
        elif isinstance(v, Rec):
            for x in v.vals:
                self.escape(x, region)

    # truth and branching --------------------------------------------------------------
    def truth(self, v):
        if v is None or isinstance(v, (bool, int, str, bytes, float)):
            return bool(v)
        if isinstance(v, Bool):
            return self.branch(v.z)
        if isinstance(v, Int):
            return self.branch(v.z != 0)
        if isinstance(v, Lst):
            return self.branch(v.len > 0)
        if isinstance(v, Dct):
            return self.branch(v.len > 0)
        if isinstance(v, Rec):
            return bool(v.vals)
        if isinstance(v, Opaque):
            if v.truth is None:
                v.truth = self.choose(2) == 0
            return v.truth
        if isinstance(v, (Obj, Cls, Live, Fun, Meth)):
            if isinstance(v, Obj) and (hasattr(v.cls, "__bool__") or hasattr(v.cls, "__len__")) or isinstance(v, Live) and not isinstance(v.o, (type, types.FunctionType, types.ModuleType)) or isinstance(v, Cls):
                return self.choose(2) == 0
            return True
        return self.choose(2) == 0

    def s_If(self, s):
        self.block(s.body if self.truth(self.ev(s.test)) else s.orelse)

    def s_With(self, s):
        for i in s.items:
            self.ev(i.context_expr)
            self.may_raise()
            if i.optional_vars is not None:
                self.assign(i.optional_vars, Opaque(foreign=True))
        self.block(s.body)

    def s_Try(self, s):
        self.trys += 1
        depth = len(self.frames)
        active = len(self.active)
        try:
            try:
                self.block(s.body)
            finally:
                self.trys -= 1
        except Raised:
            del self.frames[depth:], self.active[active:]
            k = self.choose(len(s.handlers) + 1)
            if k == len(s.handlers):
                self.block(s.finalbody)
                raise
            h = s.handlers[k]
            if h.name:
                self.frame.env[h.name] = Opaque()
            try:
                self.block(h.body)
            except (Ret, Brk, Cont, Raised):
                self.block(s.finalbody)
                raise
        except (Ret, Brk, Cont):
            self.block(s.finalbody)
            raise
        else:
            self.block(s.orelse)
        self.block(s.finalbody)

    # loops ---------------------------------------------------------------------------
    def assigned(self, nodes):
        """The variables which are assigned in statements."""
        key = tuple(map(id, nodes))
        if key not in self.names:
            self.names[key] = self.find_assigned(nodes)
        return self.names[key]

    @staticmethod
    def find_assigned(nodes):
        out = set()

        def walk(n):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                out.add(n.name)
                return
            if isinstance(n, ast.Lambda):
                return
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
            if isinstance(n, ast.ExceptHandler) and n.name:
                out.add(n.name)
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                for x in ast.walk(n):
                    if isinstance(x, ast.NamedExpr):
                        out.add(x.target.id)
                return
            for c in ast.iter_child_nodes(n):
                walk(c)

        for n in nodes:
            walk(n)
        return out

    def loop(self, s):
        fr = self.frame
        key = (fr.fn.file, fr.fn.name, id(s), fr.chain)
        if key not in self.loops:
            same = [n for n in ast.walk(fr.fn.node) if type(n) is type(s)]
            k = sorted(same, key=lambda n: n.lineno).index(s) + 1
            self.loops[key] = Loop(f"{fr.fn.name}: {'while' if isinstance(s, ast.While) else 'for'} loop {k}")
        return key, self.loops[key]

    def scope(self, names, loop):
        """(components of the variables that the loop changes, the others, the maximum of these)"""
        fr = self.frame
        mod, rest = {}, {}
        for n, v in fr.env.items():
            changes = n in names or isinstance(v, Lst) and v.site in loop.sites
            self.comps(v, n, mod if changes else rest)
        rest.update({"old~" + n: z for n, z in fr.ghosts.items()})
        rest.update(self.outer())
        return mod, rest, self.zmax([z for n, z in rest.items() if self.numeric(n)])

    def outer(self):
        """The measures in the frames of the callers (of inlined functions)."""
        out = {}
        for i, fr in enumerate(self.frames[:-1]):
            for n, v in fr.env.items():
                if isinstance(v, (Obj, Cls)) and v.m is not None:
                    out[f"{i}~height {n}"] = v.m
        if len(self.frames) > 1:
            out.update({"top~" + n: z for n, z in self.frames[0].ghosts.items() if self.numeric(n)})
        return out

    def lists(self, loop, start):
        """The lists which the loop extends."""
        seen, out = set(), []
        for fr in self.frames:
            for v in fr.env.values():
                if isinstance(v, Lst) and id(v) not in seen and v.site in loop.sites and v.serial < start:
                    seen.add(id(v))
                    out.append(v)
        return out

    def check_head(self, loop, names, start):
        """The state at the loop head satisfies the invariants (and is added to the kinds)."""
        fr = self.frame
        for n in sorted(names):
            if n in fr.env:
                self.note(loop.kinds, n, fr.env[n])
        for l in self.lists(loop, start):
            self.note(loop.sites, l.site, self.elem_kinds(l))
        mod, rest, bound = self.scope(names, loop)
        if loop.cands is None:
            loop.cands, loop.known = set(), set()
        new = [n for n in mod if n not in loop.known]
        if new:
            loop.known.update(new)
            loop.cands |= self.relations(new, list(mod) + list(rest))
            self.ch("own")
        self.filter(loop.cands, {**mod, **rest}, bound)
        for l in self.lists(loop, start):
            if self.choose(2):
                self.assume(l.len > 0)
                e = {}
                self.comps(l.elem(self), "elem", e)
                known = loop.ecands.setdefault(l.site, [set(), set()])
                new = [n for n in e if n not in known[0]]
                if new:
                    known[0].update(new)
                    known[1] |= self.relations(new, rest)
                    self.ch("own")
                self.filter(known[1], {**e, **rest}, bound)
                raise Dead

    def havoc(self, loop, names, start):
        fr = self.frame
        for n in sorted(names):
            if n in loop.kinds:
                fr.env[n] = self.make(loop.kinds[n], site=("havoc", id(loop), n))
        ls = self.lists(loop, start)
        for l in ls:
            l.items, l.mm = None, None
            l.len = self.fresh("len", 0)
        mod, rest, bound = self.scope(names, loop)
        for l in ls:
            k = loop.sites[l.site]
            l.ekinds = k

            def elem(t, k=k, site=l.site, rest=rest, bound=bound):
                if site not in loop.ecands:
                    raise Dead  # no element has been seen yet
                v = t.make(k)
                if site in loop.ecands:
                    e = {}
                    t.comps(v, "elem", e)
                    t.suppose(loop.ecands[site][1], {**e, **rest}, bound)
                return v

            l.elem_ = elem
        self.suppose(loop.cands, {**mod, **rest}, bound)

    def inloop(self, l):
        return any(l.serial < a["start"] for a in self.active)

    def touched(self, l, v=None):
        """A list gets a new element: note it for the loops that run."""
        for a in self.active:
            if l.serial < a["start"]:
                if l.site is None:
                    raise Unsupported("a list of unknown origin is changed in a loop")
                if l.site not in a["loop"].sites:
                    a["loop"].sites[l.site] = self.elem_kinds(l)
                    self.ch("own")
                if v is not None:
                    self.note(a["loop"].sites, l.site, self.kinds(v))

    def may_alias(self, a, b):
        a, b = a or ("any",), b or ("any",)
        if a == b:
            return True
        c = self.contract_now
        for x, y in ((a, b), (b, a)):
            if x[0] == "param" and c is not None:
                if y[0] == "param":
                    return frozenset((x[1], y[1])) in c.pairs
                if y[0] == "field":
                    return any(r == y or r[0] != "field" for r in c.where.get(x[1], ()))
        if "foreign" in (a[0], b[0]) or "local" in (a[0], b[0]):
            return False
        if a[0] == b[0] == "field":
            return False
        return True

    def grow(self, v, new=None):
        r = v.region
        if isinstance(v, Lst):
            self.mutate(v, new or {"any": None})
            self.touched(v)
        elif not v.foreign and self.region(v)[0] != "local":
            # an unknown list: any of those that may be the same
            for key, old in list(self.heap.items()):
                if isinstance(old, dict) and "list" in old and self.may_alias(r, ("field",) + key):
                    self.note(self.heap, key, {"list": {"any": None}}, "heap")
                    if self.heap.get(("elements",) + key):
                        self.heap[("elements",) + key].clear()
                        self.ch("heap")
            for w in self.visible():
                if self.may_alias(self.region(v), w.region):
                    self.touched(w, Opaque(region=("any",)))
                    self.forget(w)
        self.grow_region(r if not (isinstance(v, Opaque) and v.foreign) else ("foreign",))
        if isinstance(v, Opaque):
            v.truth = v.len = None

    def grow_region(self, r):
        r = r or ("any",)
        for a in self.active:
            if "over" in a and any(self.may_alias(r, o) for o in a["over"]):
                self.for_bad.setdefault(a["key"], a["loop"].name)
        c = self.contract_now
        if c is not None and r[0] != "local" and r not in c.grown:
            c.grown.add(r)
            self.ch(("out", c))

    def region(self, v):
        if isinstance(v, Opaque) and v.foreign:
            return ("foreign",)
        return getattr(v, "region", None) or ("any",)

    def s_For(self, s):
        it = self.iterable(self.ev(s.iter))
        key, loop = self.loop(s)
        self.for_seen.add(key)
        names = self.assigned([s.target] + s.body)
        start = next(self.serial)
        self.check_head(loop, names, start)
        self.havoc(loop, names, start)
        if self.choose(2) == 0:
            self.block(s.orelse)
            return
        a = {"loop": loop, "key": key, "start": start, "over": self.regions(it)}
        self.active.append(a)
        try:
            self.assign(s.target, self.instance(it))
            try:
                self.block(s.body)
            except Cont:
                pass
        except Brk:
            self.active.remove(a)
            return
        except (Ret, Raised):
            if a in self.active:
                self.active.remove(a)
            raise
        self.check_head(loop, names, start)
        raise Dead

    def s_While(self, s):
        key, loop = self.loop(s)
        names = self.assigned([s.test] + s.body)
        start = next(self.serial)
        self.check_head(loop, names, start)
        self.havoc(loop, names, start)
        a = {"loop": loop, "key": key, "start": start}
        self.active.append(a)
        try:
            if not self.truth(self.ev(s.test)):
                self.active.remove(a)
                self.block(s.orelse)
                return
            if self.final:
                before, rest, bound = self.scope(names, loop)
                flags = self.flags(names)
                self.head(loop, before, rest, bound, flags)
            try:
                self.block(s.body)
            except Cont:
                pass
        except Brk:
            self.active.remove(a)
            return
        except (Ret, Raised):
            if a in self.active:
                self.active.remove(a)
            raise
        self.check_head(loop, names, start)
        if self.final:
            if not self.truth(self.ev(s.test)):
                raise Dead
            after, _, _ = self.scope(names, loop)
            self.progress(loop, before, after, flags, self.flags(names))
        raise Dead

    def flags(self, names):
        """The truth values which a loop changes."""
        out = {"": z3.BoolVal(False)}
        for n in names:
            v = self.frame.env.get(n)
            if isinstance(v, (bool, Bool)):
                out[n] = z3.BoolVal(v) if isinstance(v, bool) else v.z
        return out

    def head(self, loop, mod, rest, bound, flags):
        """The variants of a while loop are bounded where an iteration starts."""
        if loop.variants is None:
            vs = {(n, d, b) for n in mod if self.numeric(n) for d in "+-" for b in ["MAX", "ZERO"] + [x for x in rest if self.numeric(x) and not x.startswith("top~")]}
            vs |= {(n, "-", "-" + b) for n in mod if self.numeric(n) for b in rest if b.startswith("len ")}
            # (a flag that falls, an integer that moves towards a bound), in lexicographic order
            loop.variants = {v + (f,) for v in vs for f in flags}
        good = {}
        for v in sorted(loop.variants):
            n, d, b, f = v
            if v[:3] not in good:
                if n not in mod:
                    ok = False
                elif b == "MAX":
                    ok = self.proves(z3.Or([mod[n] <= x for x in bound]) if d == "+" else z3.And([mod[n] >= x for x in bound]))
                else:
                    z = z3.IntVal(0) if b == "ZERO" else -rest[b[1:]] if b[0] == "-" and b[1:] in rest else rest.get(b)
                    ok = z is not None and self.proves(mod[n] <= z if d == "+" else mod[n] >= z)
                good[v[:3]] = ok
            if not good[v[:3]] or f not in flags:
                loop.variants.discard(v)

    def progress(self, loop, before, after, flags, later):
        good = {}
        for v in sorted(loop.variants):
            n, d, _, f = v
            k = n, d, f
            if k not in good:
                good[k] = n in after and n in before and f in later
                if good[k]:
                    moves = after[n] > before[n] if d == "+" else after[n] < before[n]
                    good[k] = self.proves(z3.Or(z3.And(flags[f], z3.Not(later[f])), z3.And(flags[f] == later[f], moves)))
            if not good[k]:
                loop.variants.discard(v)

    # iterables -------------------------------------------------------------------------
    def regions(self, v):
        if isinstance(v, Lst):
            return [v.region] + getattr(v, "base", [])
        if isinstance(v, Opaque):
            return [self.region(v)] if not v.foreign else [("foreign",)]
        return []

    def iterable(self, v):
        """Something finite to run over."""
        if isinstance(v, (Lst, Opaque, Rec, Dct, Map, str, bytes)):
            return v
        if isinstance(v, Der):
            if v.stage == "fields":
                return Opaque()
            return Opaque()
        if isinstance(v, Live) and isinstance(v.o, (type(enum.Enum), list, tuple, dict, set, frozenset, str)):
            return v
        if isinstance(v, Cls):
            return v
        if isinstance(v, Obj):
            raise Unsupported(f"iteration over an object of {v.cls.__name__}")
        if v is None or isinstance(v, (Int, Bool, int, float)):
            raise Raised()
        raise Unsupported(f"iteration over {type(v).__name__}")

    def instance(self, v):
        """A fresh element."""
        if isinstance(v, Lst):
            if v.items is None:
                self.assume(v.len > 0)
            return v.elem(self)
        if isinstance(v, Rec):
            if not v.vals:
                raise Dead
            return v.vals[self.choose(len(v.vals))]
        if isinstance(v, Dct):
            return v.pair(self)[0]
        if isinstance(v, Map):
            return self.make(self.map_kinds(v)[0])
        if isinstance(v, (str, bytes)):
            return Opaque()
        if isinstance(v, Cls):
            return v
        if isinstance(v, Opaque):
            return Opaque(foreign=v.foreign, region=("any",))
        return Opaque(region=("any",))

    def length(self, v):
        if isinstance(v, (Lst, Dct)):
            return v.len
        if isinstance(v, Rec):
            return z3.IntVal(len(v.vals))
        if isinstance(v, (str, bytes)):
            return z3.IntVal(len(v))
        if isinstance(v, Opaque):
            if v.len is None:
                v.len = self.fresh("len", 0)
            return v.len
        return self.fresh("len", 0)

    # expressions -----------------------------------------------------------------------
    def ev(self, e):
        f = getattr(self, "e_" + type(e).__name__, None)
        if f is None:
            raise Unsupported(f"{type(e).__name__} expression")
        return f(e)

    def e_Constant(self, e):
        return e.value

    def e_Name(self, e):
        fr = self.frame
        env = fr.env
        while env is not None:
            if e.id in env:
                return env[e.id]
            env = env.get("<parent>")
        g = fr.fn.glob
        if e.id in g:
            return self.live(g[e.id])
        if hasattr(builtins, e.id):
            return Live(getattr(builtins, e.id))
        raise Raised()

    def live(self, o):
        """A value of the program itself."""
        if o is None or isinstance(o, (bool, int, str, bytes, float)) and not isinstance(o, enum.Enum):
            return o
        if isinstance(o, types.FunctionType) and self.ours(o):
            return self.function(o)
        if isinstance(o, list):
            l = Lst(self, z3.IntVal(len(o)), None, [self.live(x) for x in o], region=("live", id(o)))
            l.serial = -1
            l.site = ("live", id(o))
            return l
        if isinstance(o, tuple):
            return Rec([self.live(x) for x in o])
        if not isinstance(o, (type, types.ModuleType, types.FunctionType, types.BuiltinFunctionType)) and type(o).__module__.split(".")[0] in ("xsdata", "lxml", "decimal", "datetime", "re"):
            return Opaque(foreign=True)
        return Live(o)

    def e_JoinedStr(self, e):
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                self.ev(v.value)
        return Opaque()

    def e_Tuple(self, e):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return self.e_List(e)
        return Rec([self.ev(x) for x in e.elts])

    def site(self, e):
        return (id(e), self.frame.chain)

    def e_List(self, e):
        parts = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value)
                if isinstance(v, Rec):
                    parts += v.vals
                    continue
                if isinstance(v, Lst) and v.items is not None:
                    parts += v.items
                    continue
                for y in e.elts:
                    if y is not x and not isinstance(y, ast.Starred):
                        self.ev(y)
                out = Lst(self, self.fresh("len", 0), lambda t: Opaque(region=("any",)), site=self.site(e))
                out.ekinds = {"any": None}
                return out
            parts.append(self.ev(x))
        for p in parts:
            self.escape(p)
        return Lst(self, z3.IntVal(len(parts)), None, parts, site=self.site(e))

    def e_Set(self, e):
        for x in e.elts:
            self.ev(x.value if isinstance(x, ast.Starred) else x)
        return Opaque(region=("local", next(self.serial)))

    def e_Dict(self, e):
        where = ("site",) + self.site(e)
        self.tables.setdefault(where, {"map": ({}, {})})
        for k, v in zip(e.keys, e.values):
            x = self.ev(k) if k is not None else None
            y = self.ev(v)
            self.escape(x)
            self.escape(y, VALUES)
            new = {"map": (self.kinds(x), self.kinds(y))} if k is not None else {"map": self.map_kinds(y) if isinstance(y, Map) else ({"any": None}, {"any": None})}
            self.note(self.tables, where, new)
        return Map(self, where)

    def e_Slice(self, e):
        return Opaque()

    def e_Lambda(self, e):
        fr = self.frame
        return Fun(e, fr.fn.glob, fr.fn.cls, f"{fr.fn.name}.<lambda>", (), fr.env, None, fr.fn.file)

    def e_IfExp(self, e):
        return self.ev(e.body if self.truth(self.ev(e.test)) else e.orelse)

    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        self.frame.env[e.target.id] = v
        return v

    def e_Starred(self, e):
        return self.ev(e.value)

    def e_BoolOp(self, e):
        for x in e.values[:-1]:
            v = self.ev(x)
            t = self.truth(v)
            if t != isinstance(e.op, ast.And):
                return v
        return self.ev(e.values[-1])

    def e_UnaryOp(self, e):
        v = self.ev(e.operand)
        if isinstance(e.op, ast.Not):
            if isinstance(v, Bool):
                return Bool(z3.Not(v.z))
            return not self.truth(v)
        z = self.z(v)
        if z is None:
            return Opaque()
        return Int(-z) if isinstance(e.op, ast.USub) else Int(z) if isinstance(e.op, ast.UAdd) else Opaque()

    def z(self, v):
        if isinstance(v, bool):
            return z3.IntVal(int(v))
        if isinstance(v, int):
            return z3.IntVal(v)
        if isinstance(v, Int):
            return v.z
        return None

    def e_BinOp(self, e):
        return self.binop(e.op, self.ev(e.left), self.ev(e.right), self.site(e))

    def binop(self, op, a, b, site=None):
        self.may_raise()
        x, y = self.z(a), self.z(b)
        if x is not None and y is not None:
            if isinstance(op, ast.Add):
                return Int(z3.simplify(x + y))
            if isinstance(op, ast.Sub):
                return Int(z3.simplify(x - y))
            if isinstance(op, ast.Mult):
                return Int(x * y) if z3.is_int_value(x) or z3.is_int_value(y) else Int(self.fresh())
            if isinstance(op, (ast.FloorDiv, ast.Mod)) and z3.is_int_value(y) and y.as_long() > 0:
                return Int(x / y) if isinstance(op, ast.FloorDiv) else Int(x % y)
            if isinstance(op, (ast.FloorDiv, ast.Mod, ast.LShift, ast.RShift, ast.BitAnd, ast.BitOr)):
                return Int(self.fresh())
            return Opaque()
        if isinstance(op, ast.Add) and isinstance(a, Lst) and isinstance(b, (Lst, Opaque)):
            b = b if isinstance(b, Lst) else self.as_list(b)
            a, b = self.frozen(a), self.frozen(b)
            out = Lst(self, z3.simplify(a.len + b.len), None, a.items + b.items if a.items is not None and b.items is not None else None, site=site)
            out.ekinds = self.join(self.elem_kinds(a), self.elem_kinds(b))
            out.elem_ = lambda t: t.either([a, b])
            return out
        if isinstance(a, Rec) and isinstance(b, Rec) and isinstance(op, ast.Add):
            return Rec(a.vals + b.vals)
        if isinstance(a, Lst) and isinstance(op, ast.Mult):
            a = self.frozen(a)
            out = Lst(self, self.fresh("len", 0), lambda t: t.instance(a), site=site)
            out.ekinds = self.elem_kinds(a)
            return out
        return Opaque(region=("local", next(self.serial)))

    def either(self, ls):
        return self.instance(ls[self.choose(len(ls))])

    def frozen(self, l):
        """The list as it is now."""
        out = Lst(self, l.len, l.elem_, list(l.items) if l.items is not None else None, region=("local", next(self.serial)))
        out.ekinds = getattr(l, "ekinds", None)
        out.mm = l.mm
        return out

    def as_list(self, v, site=None):
        """A new list of the elements of v."""
        if isinstance(v, Lst):
            out = self.frozen(v)
        elif isinstance(v, Rec):
            out = Lst(self, z3.IntVal(len(v.vals)), None, list(v.vals))
        elif isinstance(v, Dct):
            out = Lst(self, v.len, lambda t: v.pair(t)[0])
        else:
            self.iterable(v)
            out = Lst(self, self.length(v), lambda t: t.instance(v))
            out.ekinds = {"foreign": None} if isinstance(v, Opaque) and v.foreign else {"cls": None} if isinstance(v, Cls) else {"any": None}
        if getattr(out, "ekinds", None) is None and out.items is None:
            out.ekinds = lambda: self.sampled(out)
        out.site = site
        out.serial = next(self.serial)
        return out

    def sampled(self, l):
        """The kinds of the elements of a list (in a side path)."""
        raise Unsupported("kinds of a computed list")

    def e_Compare(self, e):
        left = self.ev(e.left)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r)
            c = self.compare(op, left, right)
            left = right
            if res is None:
                res = c
            elif isinstance(res, Bool) and isinstance(c, Bool):
                res = Bool(z3.And(res.z, c.z))
            else:
                if not self.truth(res):
                    return False
                res = c
        return res

    def compare(self, op, a, b):
        x, y = self.z(a), self.z(b)
        if x is not None and y is not None:
            r = {ast.Eq: lambda: x == y, ast.NotEq: lambda: x != y, ast.Lt: lambda: x < y, ast.LtE: lambda: x <= y, ast.Gt: lambda: x > y, ast.GtE: lambda: x >= y}.get(type(op))
            if r:
                return Bool(r())
            return Opaque()
        if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)) and (a is None or b is None):
            o = b if a is None else a
            if o is None:
                r = True
            elif isinstance(o, (Opaque, Cls)):
                return Bool(z3.Bool(f"b!{next(self.serial)}"))
            else:
                r = False
            return r if isinstance(op, (ast.Is, ast.Eq)) else not r
        if isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)) and (a is None or b is None):
            raise Raised()
        if isinstance(a, str) and isinstance(b, str) and isinstance(op, (ast.Eq, ast.NotEq)):
            return (a == b) == isinstance(op, ast.Eq)
        return Bool(z3.Bool(f"b!{next(self.serial)}"))

    # comprehensions
    def e_ListComp(self, e):
        return self.comp(e, e.elt)

    e_GeneratorExp = e_SetComp = e_ListComp

    def has_calls(self, e):
        """Calls of functions of the code in an expression."""
        for n in ast.walk(e):
            if isinstance(n, (ast.Call, ast.Await, ast.Yield, ast.YieldFrom, ast.NamedExpr)):
                return True
        return False

    def comp(self, e, elt, val=None):
        fr = self.frame
        first = self.iterable(self.ev(e.generators[0].iter))
        if any(g.is_async for g in e.generators):
            raise Unsupported("async")

        def snap(v):
            if isinstance(v, Lst):
                f = self.frozen(v)
                f.region, f.serial, f.site = v.region, v.serial, v.site
                return f
            return v

        # the environment as it is now
        env = {k: snap(v) for k, v in fr.env.items() if k != "<parent>"}
        env["<parent>"] = fr.env.get("<parent>")
        first = snap(first)
        frame0 = fr

        def inst(t, pairs=False):
            f = Frame(frame0.fn, dict(env))
            f.ghosts, f.chain = frame0.ghosts, frame0.chain + (id(e),)
            t.frames.append(f)
            try:
                for i, g in enumerate(e.generators):
                    src = first if i == 0 else t.iterable(t.ev(g.iter))
                    t.assign(g.target, t.instance(src))
                    for c in g.ifs:
                        v = t.ev(c)
                        if isinstance(v, Bool):
                            t.assume(v.z)
                        elif not isinstance(v, Opaque) and not t.truth(v):
                            raise Dead
                k = t.ev(elt)
                return (k, t.ev(val)) if pairs else k
            finally:
                t.frames.remove(f)

        n = self.length(first)
        single = len(e.generators) == 1
        if single and not e.generators[0].ifs:
            ln = n
        else:
            ln = self.fresh("len", 0)
            if single:
                self.s.add(ln <= n)
        self.may_raise()
        key = ("kinds", self.frame.chain, id(e))
        if val is not None:
            pair = self.summary(key, lambda: Rec(list(inst(self, True))), ln)
            return Dct(ln, lambda t: pair(t).vals)
        out = Lst(self, ln, self.summary(key, lambda: inst(self), ln), site=self.site(e))
        out.ekinds = lambda: self.tables.get(key, {})
        return out

    def summary(self, key, inst, n):
        """What is known of all elements of a list: their kinds, and their order relations to the values at hand."""
        fr = self.frame
        rest = {}
        for v, x in fr.env.items():
            self.comps(x, v, rest)
        rest.update({"old~" + v: z for v, z in fr.ghosts.items()})
        rest.update(self.outer())
        bound = self.zmax([z for v, z in rest.items() if self.numeric(v)])
        known = self.tables.setdefault(("elements",) + key, [set(), set()])
        if self.choose(2):
            self.assume(n > 0)
            v = inst()
            self.note(self.tables, key, v)
            e = {}
            self.comps(v, "elem", e)
            new = [x for x in e if x not in known[0]]
            if new:
                known[0].update(new)
                known[1] |= self.relations(new, rest)
                self.ch("own")
            self.filter(known[1], {**e, **rest}, bound)
            raise Dead

        def elem(t):
            v = t.make(t.tables.get(key, {}))
            e = {}
            t.comps(v, "elem", e)
            t.suppose(known[1], {**e, **rest}, bound)
            return v

        return elem

    def e_DictComp(self, e):
        return self.comp(e, e.key, e.value)

    # attributes and subscripts
    def e_Attribute(self, e):
        return self.attr(self.ev(e.value), e.attr)

    def mangle(self, name):
        c = self.frame.fn.cls
        if c and name.startswith("__") and not name.endswith("__"):
            return f"_{c.lstrip('_')}{name}"
        return name

    def attr(self, o, name):
        self.may_raise()
        name = self.mangle(name)
        if isinstance(o, Obj):
            live = None
            for k in o.cls.__mro__:
                if name in vars(k):
                    live = vars(k)[name]
                    break
            if isinstance(live, (types.FunctionType, staticmethod, classmethod, property)):
                return self.bind(live, o, o.cls)
            key = (o.cls, name)
            if MEASURE.get(o.cls.__name__) == name:
                return Cls(o.m)
            if live is not None and key not in self.heap and not isinstance(live, types.MemberDescriptorType):
                self.note(self.heap, key, self.live(live), "heap")
            if key not in self.heap:
                # nothing has been written yet
                if name == "__dict__" or name == "__class__":
                    return Opaque()
                self.heap[key] = {}
                self.ch("heap")
            v = self.make(self.heap[key], region=("any",) if key in self.shared else ("field",) + key)
            if isinstance(v, Lst) and o.m is not None:
                inner, cands = v.elem_, self.heap.setdefault(("elements",) + key, {"<"})

                def elem(t):
                    x = inner(t)
                    if isinstance(x, Obj) and x.m is not None and cands:
                        t.assume(x.m < o.m)
                    return x

                v.elem_ = elem
            return v
        if isinstance(o, Rec):
            if o.cls is not None and name in o.cls._fields:
                return o.vals[o.cls._fields.index(name)]
            return Meth(o, name)
        if isinstance(o, Cls):
            if name == "__args__":
                return o
            if name in self.methods:
                raise Unsupported(f"method {name} of a value")
            return Opaque()
        if isinstance(o, Der):
            if o.stage == "field" and name == "type":
                m = self.fresh("m", 0)
                self.assume(m < o.m)
                return Cls(m)
            if name in ("items", "keys", "values", "get", "copy"):
                return Meth(o, name)
            return Opaque()
        if isinstance(o, Live):
            if isinstance(o.o, types.ModuleType):
                try:
                    return self.live(getattr(o.o, name))
                except AttributeError:
                    raise Raised() from None
            if isinstance(o.o, type):
                live = None
                for k in o.o.__mro__:
                    if name in vars(k):
                        live = vars(k)[name]
                        break
                if isinstance(live, (staticmethod, classmethod)):
                    return self.bind(live, None, o.o)
                if isinstance(live, types.FunctionType) and self.ours(live):
                    return self.function(live)
                if live is not None:
                    return self.live(live) if not isinstance(live, property) else Opaque()
                if name == "__init__":
                    return Live(object.__init__)
                return Meth(o, name)
            return Meth(o, name) if callable(getattr(o.o, name, None)) else Opaque(foreign=True)
        if isinstance(o, (Opaque, Lst, Dct, Map, str, bytes, int, float, Int, Bool)):
            if isinstance(o, Lst) and not hasattr(list, name) or o is None:
                raise Raised()
            if isinstance(o, Opaque):
                v = Opaque(foreign=o.foreign, region=("any",))
                v.meth = (o, name)
                return v
            return Meth(o, name)
        if o is None:
            raise Raised()
        if isinstance(o, (Fun, Meth)):
            return Opaque()
        raise Unsupported(f"attribute {name} of {type(o).__name__}")

    def bind(self, live, o, cls):
        if isinstance(live, staticmethod):
            f = live.__func__
            return self.function(f) if self.ours(f) else Live(f)
        if isinstance(live, classmethod):
            f = live.__func__
            return self.function(f, (Live(cls),)) if self.ours(f) else Live(f)
        if isinstance(live, property):
            return self.call(self.function(live.fget, (o,)), [], {}, None)
        return self.function(live, (o,)) if self.ours(live) else Live(live)

    def setattr(self, o, name, v):
        name = self.mangle(name)
        if isinstance(o, Obj):
            self.write(o, name, v)
        else:
            if isinstance(o, Live) and self.ours_class(o.o):
                self.write(Obj(o.o), name, v)
            if isinstance(o, Opaque) and not o.foreign and any(n == name for (c, n) in [k for k in self.heap if isinstance(k, tuple) and len(k) == 2]):
                raise Unsupported(f"attribute {name} of an unknown object is set")
            self.escape(v)

    def ours_class(self, c):
        return isinstance(c, type) and os.path.realpath(getattr(sys.modules.get(c.__module__), "__file__", "") or "").startswith(os.path.realpath(self.root) + os.sep) and not os.path.realpath(sys.modules[c.__module__].__file__).startswith(os.path.realpath(self.skip))

    def write(self, o, name, v):
        key = (o.cls, name)
        if MEASURE.get(o.cls.__name__) == name and not (isinstance(v, Cls) and o.m is not None and self.proves(v.m == o.m)):
            raise Unsupported(f"{name} is changed")
        self.note(self.heap, key, v, "heap")
        if isinstance(v, Lst) and o.cls.__name__ in MEASURE:
            cands = self.heap.setdefault(("elements",) + key, {"<"})
            if cands and self.choose(2):
                self.assume(v.len > 0)
                x = v.elem(self)
                if not isinstance(x, Obj) or x.m is None or o.m is None or not self.proves(x.m < o.m):
                    cands.clear()
                    self.ch("heap")
                raise Dead
        self.escape(v, ("field",) + key)

    def e_Subscript(self, e):
        v = self.subscript(self.ev(e.value), e.slice)
        if isinstance(v, Lst) and v.site is None:
            v.site = self.site(e)
        return v

    def subscript(self, o, sl):
        if isinstance(sl, ast.Slice):
            lo = self.ev(sl.lower) if sl.lower else None
            hi = self.ev(sl.upper) if sl.upper else None
            step = self.ev(sl.step) if sl.step else None
            return self.slice(o, lo, hi, step)
        i = self.ev(sl)
        self.may_raise()
        if isinstance(o, Rec):
            if isinstance(i, int) and -len(o.vals) <= i < len(o.vals):
                return o.vals[i]
            if isinstance(i, (str, type(None))) or isinstance(i, int):
                raise Raised()
            return self.instance(o)
        if isinstance(o, Lst):
            z = self.z(i)
            if z is None:
                if isinstance(i, Opaque):
                    return self.instance(o)
                raise Raised()
            if o.items is not None and z3.is_int_value(z3.simplify(z)):
                k = z3.simplify(z).as_long()
                if not -len(o.items) <= k < len(o.items):
                    raise Raised()
                return o.items[k]
            self.assume(z3.And(z < o.len, z >= -o.len))
            return self.instance(o)
        if isinstance(o, Der):
            if o.stage == "vars":
                return Der(o.m, "fields") if i == "__dataclass_fields__" else Opaque()
            if o.stage == "fields":
                return Der(o.m, "field")
            return Opaque()
        if isinstance(o, Cls):
            return o
        if isinstance(o, Dct):
            return o.pair(self)[1]
        if isinstance(o, Map):
            return self.make(self.map_kinds(o)[1], VALUES)
        if o is None or isinstance(o, (Int, int, Bool)):
            raise Raised()
        if isinstance(o, Opaque):
            return Opaque(foreign=o.foreign, region=("any",))
        if isinstance(o, Obj):
            raise Unsupported("subscript of an object")
        return Opaque(region=("any",))

    def slice(self, o, lo, hi, step):
        if isinstance(o, Rec):
            if all(x is None or isinstance(x, int) for x in (lo, hi, step)):
                return Rec(o.vals[lo:hi:step])
            o = self.as_list(o)
        if not isinstance(o, Lst):
            if isinstance(o, Der) or o is None:
                raise Raised()
            return Opaque(foreign=isinstance(o, Opaque) and o.foreign, region=("local", next(self.serial)))
        out = self.frozen(o)
        if o.items is not None and all(x is None or isinstance(x, int) for x in (lo, hi, step)):
            out.items = out.items[lo:hi:step]
            out.len = z3.IntVal(len(out.items))
            return out
        a, b = (z3.IntVal(0) if lo is None else self.z(lo)), (o.len if hi is None else self.z(hi))
        out.items, out.mm = None, None
        src = self.frozen(o)
        out.elem_ = lambda t: t.instance(src)
        out.ekinds = self.elem_kinds(src) if src.items is not None else src.ekinds
        n = self.fresh("len", 0)
        self.s.add(n <= o.len)
        if a is not None and b is not None and step is None:
            def norm(x):
                x = z3.If(x < 0, x + o.len, x)
                x = z3.If(x < 0, 0, x)
                return z3.If(x > o.len, o.len, x)

            a, b = norm(a), norm(b)
            self.s.add(n == z3.If(b > a, b - a, 0))
        out.len = n
        return out

    # calls ----------------------------------------------------------------------------
    def e_Call(self, e):
        f = self.ev(e.func)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value)
                if isinstance(v, Rec):
                    args += v.vals
                elif isinstance(v, Lst) and v.items is not None:
                    args += v.items
                else:
                    args.append(None if False else Starred(v))
            else:
                args.append(self.ev(a))
        for k in e.keywords:
            v = self.ev(k.value)
            if k.arg is None:
                kw["**"] = v
            else:
                kw[k.arg] = v
        return self.call(f, args, kw, e)

    def call(self, f, args, kw, node):
        self.may_raise()
        if isinstance(f, Fun):
            return self.call_fun(f, list(f.bound) + args, kw, node)
        if isinstance(f, Meth):
            return self.method(f.recv, f.name, args, kw, node)
        if isinstance(f, Live):
            return self.call_live(f.o, args, kw, node)
        if isinstance(f, Opaque):
            if f.meth:
                return self.method(*f.meth, args, kw, node)
            self.callbacks(args, kw)
            return Opaque(foreign=f.foreign, region=("any",))
        if isinstance(f, Cls):
            return Opaque(foreign=True)
        if isinstance(f, Obj):
            raise Unsupported("call of an object")
        if f is None or isinstance(f, (str, int, Rec, Lst)):
            raise Raised()
        raise Unsupported(f"call of {type(f).__name__}")

    def callbacks(self, args, kw):
        """Functions of the code which are handed out are called with any arguments."""
        for a in list(args) + list(kw.values()):
            if isinstance(a, Fun):
                if self.choose(2):
                    n = len(a.node.args.args) - len(a.bound)
                    self.call_fun(a, list(a.bound) + [Opaque(region=("any",)) for _ in range(n)], {}, None)
                    raise Dead
            elif isinstance(a, Meth) or isinstance(a, Opaque) and a.meth and not a.foreign:
                if (a.name if isinstance(a, Meth) else a.meth[1]) in GROW | SHRINK | {"sort", "reverse", "update", "setdefault", "__setitem__", "popitem"}:
                    raise Unsupported("a method that changes a list is handed out")
            else:
                self.escape(a)

    def bind_args(self, f, args, kw):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        if any(isinstance(x, Starred) for x in args):
            i = next(i for i, x in enumerate(args) if isinstance(x, Starred))
            for n, v in zip(names, args[:i]):
                env[n] = v
            for n in names[i:]:
                env[n] = Opaque(region=("any",))
            if a.vararg:
                env[a.vararg.arg] = Opaque()
        else:
            for n, v in zip(names, args):
                env[n] = v
            if len(args) > len(names):
                if not a.vararg:
                    raise Raised()
                env[a.vararg.arg] = Rec(args[len(names):])
            elif a.vararg:
                env[a.vararg.arg] = Rec([])
        extra = {}
        for k, v in kw.items():
            if k == "**":
                for n in names + [x.arg for x in a.kwonlyargs]:
                    env.setdefault(n, Opaque(region=("any",)))
            elif k in names or k in [x.arg for x in a.kwonlyargs]:
                env[k] = v
            else:
                extra[k] = v
        if a.kwarg:
            env[a.kwarg.arg] = Opaque(region=("any",))
        elif extra:
            raise Raised()
        for n, d in list(zip(names[::-1], a.defaults[::-1])) + [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            if n not in env:
                self.frames.append(Frame(f, {"<parent>": f.env}))
                try:
                    env[n] = self.ev(d)
                finally:
                    self.frames.pop()
                if isinstance(env[n], Lst):
                    env[n] = Opaque(region=("any",))
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n not in env:
                raise Raised()
        return env

    def call_fun(self, f, args, kw, node):
        self.functions.add(f"{f.file}:{f.name}")
        if id(f.node) not in self.scanned:
            for n in ast.walk(f.node):
                if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await, ast.Global, ast.Nonlocal, ast.ClassDef)):
                    raise Unsupported(f"{type(n).__name__} in {f.name}")
            self.scanned[id(f.node)] = self.size(f.node)
        if isinstance(f.node, ast.FunctionDef) and f.node.decorator_list and not all(isinstance(d, ast.Name) and d.id in ("staticmethod", "classmethod", "property") for d in f.node.decorator_list):
            raise Unsupported(f"decorator of {f.name}")
        env = self.bind_args(f, args, kw)
        env["<parent>"] = f.env
        key = id(f.node)
        if key not in self.heads and any(fr.fn.node is f.node for fr in self.frames):
            self.heads.add(key)
            raise Restart
        if key in self.heads or key not in self.inlined and f.env is None and self.scanned[key]:
            return self.by_contract(f, env)
        return self.inline(f, env, node)

    @staticmethod
    def size(node):
        """Functions with loops or many statements are used by contract."""
        stmts = [n for n in ast.walk(node) if isinstance(n, ast.stmt)]
        return any(isinstance(n, (ast.For, ast.While)) for n in stmts) or sum(isinstance(n, (ast.If, ast.Try)) for n in stmts) > 1

    def inline(self, f, env, node):
        fr = Frame(f, env)
        fr.chain = (self.frames[-1].chain if self.frames else ()) + (id(node),)
        for n, v in list(env.items()):
            if n != "<parent>":
                self.comps(v, n, fr.ghosts)
        if len(self.frames) > 60:
            raise Unsupported("deep calls")
        self.frames.append(fr)
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body)
            try:
                self.block(f.node.body)
            except Ret as r:
                return r.v
            return None
        finally:
            if fr in self.frames:
                del self.frames[self.frames.index(fr):]

    # contracts of recursive functions
    def contract(self, f):
        key = id(f.node)
        if key not in self.contracts:
            self.contracts[key] = Contract(f)
            self.changed = True
        return self.contracts[key]

    def params(self, env):
        out = {}
        for n, v in env.items():
            if n != "<parent>":
                self.comps(v, n, out)
        return out

    def by_contract(self, f, env):
        c = self.contract(f)
        if f.env is not None:
            raise Unsupported("recursive local function")
        for n, v in list(env.items()):
            if n == "<parent>":
                continue
            if isinstance(v, Opaque) and (id(f.node), n) in self.measured:
                v = env[n] = Cls(self.fresh("m", 0))
            if c.params.get(n) == {"any": None} and isinstance(v, Cls):
                # start again: all values of this parameter have a measure
                self.measured.add((id(f.node), n))
                self.reset = True
                raise Restart
            self.note(c.params, n, v, ("in", c))
        self.sharing(c, env)
        ps = self.params(env)
        if c.pre is None:
            c.pre, c.known = set(), set()
        new = [n for n in ps if n not in c.known]
        if new:
            c.known.update(new)
            c.pre |= {x for x in self.relations(new, list(ps)) if x[0] in ("<", "<=", "0<=")}
            self.ch(("in", c))
        self.filter(c.pre, ps, [], ("in", c))
        self.edge(c, env)
        for r in sorted(c.grown, key=repr):
            if r[0] == "param":
                v = env.get(r[1])
                if isinstance(v, Lst):
                    if set(self.elem_kinds(v)) - {"any"}:
                        if id(f.node) in self.heads:
                            raise Unsupported(f"{f.name} extends a list of its caller")
                        self.inlined.add(id(f.node))
                        raise Restart
                    self.grow(v, {"any": None})
                    self.forget(v)
                elif isinstance(v, Opaque):
                    self.grow(v)
            else:
                self.grow_region(r)
        for n, v in env.items():
            if n in c.escaped:
                self.escape(v)
        # the result
        self.reads[id(f.node)] = c.vout
        if not c.results:
            raise Dead
        res = self.make(c.results)
        out = {}
        self.comps(res, "result", out)
        bound = self.zmax([z for n, z in ps.items() if self.numeric(n)])
        if isinstance(res, Lst) and not c.alias:
            res.region = ("local", id(res))
        self.suppose(c.post.get(self.head_of(res), set()), {**out, **{"old~" + n: z for n, z in ps.items()}}, bound)
        return res

    def sharing(self, c, env):
        """The lists that are handed over: where they come from, and which ones may be the same."""
        vs = [(n, v) for n, v in env.items() if n != "<parent>" and isinstance(v, (Lst, Map, Opaque)) and not (isinstance(v, Opaque) and v.foreign)]
        for i, (n, v) in enumerate(vs):
            r = self.region(v)
            rs = {r} if r[0] == "field" else set() if r[0] in ("local", "foreign") else {("any",)}
            if r[0] == "param" and self.contract_now is not None:
                rs = set(self.contract_now.where.get(r[1], ()))
            if not rs <= c.where.setdefault(n, set()):
                c.where[n] |= rs
                self.ch(("in", c))
            for m, w in vs[:i]:
                p = frozenset((n, m))
                if p not in c.pairs and (v is w or self.may_alias(r, self.region(w))):
                    c.pairs.add(p)
                    self.ch(("in", c))

    def head_of(self, v):
        return repr(sorted(self.kinds(v), key=repr))

    def edge(self, c, env):
        """A call of a recursive function from another one (or itself): the measure."""
        if not self.final or self.contract_now is None:
            return
        top = self.frames[0]
        mine = next((z for n, z in top.ghosts.items() if n.startswith("height ")), None)
        its = next((v.m for v in (env[n] for n in c.params_order if n in env) if isinstance(v, (Obj, Cls)) and v.m is not None), None)
        k = (id(self.contract_now.fn.node), id(c.fn.node))
        s = "none"
        if mine is not None and its is not None:
            s = "less" if self.proves(its < mine) else "equal" if self.proves(its <= mine) else "none"
        order = ["less", "equal", "none"]
        if k not in self.edges or order.index(s) > order.index(self.edges[k]):
            self.edges[k] = s

    def verify_contract(self, c):
        f = c.fn

        def body():
            self.contract_now = c
            env = {}
            for n in sorted(c.params):
                v = self.make(c.params[n], region=("param", n), site=("param", n))
                env[n] = v
            env["<parent>"] = None
            ps = self.params(env)
            self.suppose(c.pre or set(), ps, [])
            fr = Frame(f, env)
            fr.ghosts = dict(ps)
            self.frames.append(fr)
            try:
                self.block(f.node.body)
                res = None
            except Ret as r:
                res = r.v
            self.note(c.__dict__, "results", res, ("out", c))
            if isinstance(res, Lst) and res.region[0] != "local" and not c.alias:
                c.alias = True
                self.ch(("out", c))
            elif isinstance(res, Rec):
                self.escape(res)
            h = self.head_of(res)
            out = {}
            self.comps(res, "result", out)
            ghosts = {"old~" + n: z for n, z in ps.items()}
            known = c.__dict__.setdefault("rknown", {}).setdefault(h, set())
            new = [n for n in out if n not in known]
            if new:
                known.update(new)
                c.post.setdefault(h, set()).update(self.relations(new, list(out) + list(ghosts), True))
                self.ch(("out", c))
            self.filter(c.post.setdefault(h, set()), {**out, **ghosts}, self.zmax([z for n, z in ps.items() if self.numeric(n)]), ("out", c))

        self.reads, self.own = {}, False
        start = self.hv, c.vin
        self.explore(body)
        c.last = start, {k: v for k, v in self.reads.items()}
        if self.own:
            c.last = None

    # things of the program and of Python
    def call_live(self, o, args, kw, node):
        if isinstance(o, type):
            if self.ours_class(o) and not issubclass(o, (enum.Enum, BaseException)) and not (issubclass(o, tuple) and hasattr(o, "_fields")):
                return self.construct(o, args, kw, node)
            if issubclass(o, tuple) and hasattr(o, "_fields"):
                n = len(o._fields)
                if any(isinstance(a, Starred) for a in args) or "**" in kw:
                    return Rec([Opaque(region=("any",)) for _ in range(n)], o)
                vals = list(args) + [kw.get(x, Live(o._field_defaults[x]) if x in o._field_defaults else None) for x in o._fields[len(args):]]
                return Rec(vals[:n], o)
        name = getattr(o, "__name__", None)
        mod = (getattr(o, "__module__", None) or "builtins").split(".")[0]
        if o is None:
            raise Raised()
        h = getattr(self, "b_" + name, None) if isinstance(name, str) and (mod in ("builtins", "copy", "dataclasses") or o in (zip, range)) else None
        if any(isinstance(a, Starred) for a in args):
            h = None
        if h is not None and getattr(builtins, name, getattr(copy, name, getattr(dataclasses, name, None))) is o:
            return h(args, kw, node)
        if isinstance(o, types.FunctionType) and self.ours(o):
            return self.call_fun(self.function(o), args, kw, node)
        if mod == "itertools" and name not in FINITE or o in (iter, next):
            raise Unsupported(f"{name}()")
        if mod not in MODULES and mod != "itertools" and not mod.startswith(os.path.basename(self.root)):
            raise Unsupported(f"call of {mod}.{name}")
        if isinstance(o, (types.MethodDescriptorType, types.WrapperDescriptorType)) and name in GROW | SHRINK | {"sort", "reverse", "update", "setdefault", "__setitem__", "__delitem__", "__iadd__", "__setattr__", "popitem"}:
            raise Unsupported(f"call of {o.__qualname__}")
        if o in (exec, eval, compile, globals, locals, __import__):
            raise Unsupported(name)
        self.callbacks(args, kw)
        return Opaque(foreign=mod not in ("builtins", "itertools", "functools", "collections", "operator"), region=("any",))

    def construct(self, c, args, kw, node):
        init = next((vars(k)["__init__"] for k in c.__mro__ if "__init__" in vars(k)), None)
        if dataclasses.is_dataclass(c) and not self.ours(init) or dataclasses.is_dataclass(c) and init.__code__.co_filename.startswith("<"):
            fs = [f for f in dataclasses.fields(c) if f.init]
            vals = dict(zip([f.name for f in fs], args))
            vals.update({k: v for k, v in kw.items() if k != "**"})
            for f in dataclasses.fields(c):
                if f.name not in vals:
                    if f.default is not dataclasses.MISSING:
                        vals[f.name] = self.live(f.default)
                    elif f.default_factory is not dataclasses.MISSING:
                        vals[f.name] = self.call_live(f.default_factory, [], {}, node)
                    elif "**" in kw or any(isinstance(a, Starred) for a in args):
                        vals[f.name] = Opaque(region=("any",))
                    else:
                        raise Raised()
            o = self.obj(c)
            m = MEASURE.get(c.__name__)
            if m:
                v = vals.get(m)
                if isinstance(v, Cls):
                    o.m = v.m
                elif not isinstance(v, Opaque):
                    raise Unsupported(f"{m} of a new {c.__name__}")
            for n, v in vals.items():
                if n != m:
                    self.write(o, n, v)
            if "__post_init__" in dir(c):
                raise Unsupported("__post_init__")
            return o
        o = self.obj(c)
        if isinstance(init, types.FunctionType) and self.ours(init):
            self.call_fun(self.function(init, (o,)), [o] + args, kw, node)
        elif init is not object.__init__:
            self.callbacks(args, kw)
        return o

    def shrunk(self, l):
        self.mutate(l)
        self.touched(l)
        if l.items is not None:
            old = l.items
            l.items, l.elem_ = None, lambda t: old[t.choose(len(old))] if old else (_ for _ in ()).throw(Dead())
            ks = {}
            for x in old:
                ks = self.join(ks, self.kinds(x))
            l.ekinds = ks
        self.assume(l.len > 0)
        l.len, l.mm = l.len - 1, None

    def method(self, o, name, args, kw, node):
        if any(isinstance(a, Starred) for a in args):
            self.callbacks([a for a in args if not isinstance(a, Starred)], kw)
            if name in GROW and isinstance(o, (Opaque, Lst)):
                self.grow(o)
            return Opaque(region=("any",))
        if isinstance(o, Lst):
            if name in GROW:
                new = args[-1] if args else None
                if name == "extend":
                    new = self.frozen(new) if isinstance(new, Lst) else self.as_list(new)
                    self.grow(o, self.elem_kinds(new))
                    if self.inloop(o):
                        if new.items is not None:
                            for x in new.items:
                                self.touched(o, x)
                        else:
                            k = self.elem_kinds(new)
                            for a in self.active:
                                if o.serial < a["start"]:
                                    self.note(a["loop"].sites, o.site, k)
                    if o.items is not None and new.items is not None:
                        o.items = o.items + new.items
                        o.len = z3.IntVal(len(o.items))
                        return None
                    old = self.frozen(o)
                    o.ekinds = (lambda a, b: lambda: self.join(a() if callable(a) else a, b() if callable(b) else b))(self.lazy_kinds(old), self.lazy_kinds(new))
                    o.len, o.items, o.mm = z3.simplify(old.len + new.len), None, None
                    key = ("kinds", self.frame.chain, id(node), "extend")
                    o.elem_ = self.summary(key, lambda: self.either([old, new]), o.len)
                    o.ekinds = lambda: self.tables.get(key, {})
                    return None
                self.escape(new)
                self.grow(o, self.kinds(new))
                self.touched(o, new)
                if o.items is not None and name == "append":
                    o.items = o.items + [new]
                    o.len = z3.IntVal(len(o.items))
                    return None
                if o.items is not None and name == "insert" and isinstance(args[0], int):
                    o.items = list(o.items)
                    o.items.insert(args[0], new)
                    o.len = z3.IntVal(len(o.items))
                    return None
                old = self.frozen(o)
                one = Lst(self, z3.IntVal(1), None, [new])
                o.ekinds = (lambda a, b: lambda: self.join(a() if callable(a) else a, b))(self.lazy_kinds(old), self.kinds(new))
                o.len, o.items, o.mm = z3.simplify(old.len + 1), None, None
                o.elem_ = lambda t: t.either([old, one])
                return None
            if name in ("sort", "reverse"):
                self.callbacks([], kw)
                self.mutate(o)
                self.touched(o)
                if o.items is not None:
                    old, mm = o.items, o.mm
                    self.forget(o)
                    o.len = z3.IntVal(len(old))
                    o.ekinds = {}
                    for x in old:
                        o.ekinds = self.join(o.ekinds, self.kinds(x))
                    o.elem_ = lambda t: old[t.choose(len(old))] if old else (_ for _ in ()).throw(Dead())
                    o.mm = mm
                return None
            if name == "copy":
                return self.as_list(o, self.site(node) if node else None)
            if name in ("pop", "remove"):
                v = self.instance(o)
                self.shrunk(o)
                return v if name == "pop" else None
            if name == "clear":
                self.mutate(o)
                self.touched(o)
                o.items, o.len, o.mm = [], z3.IntVal(0), None
                return None
            if name == "index":
                self.assume(o.len > 0)
                r = self.fresh("index", 0)
                self.s.add(r < o.len)
                if len(args) > 1:
                    z = self.z(args[1])
                    if z is not None:
                        self.s.add(z3.Implies(z >= 0, r >= z))
                self.assume(z3.BoolVal(True))
                return Int(r)
            if name == "count":
                r = self.fresh("count", 0)
                self.s.add(r <= o.len)
                return Int(r)
            if name.startswith("__"):
                return Opaque()
            raise Raised()
        if isinstance(o, Der):
            if name == "copy":
                return o
            if o.stage == "fields":
                n = self.fresh("len", 0)
                if name == "items":
                    out = Lst(self, n, lambda t: Rec([Opaque(), Der(o.m, "field")]))
                elif name == "values":
                    out = Lst(self, n, lambda t: Der(o.m, "field"))
                elif name == "keys":
                    out = Lst(self, n, lambda t: Opaque())
                else:
                    return Der(o.m, "field") if self.choose(2) else None
                out.ekinds = {"any": None}
                return out
            if o.stage == "vars" and name == "get":
                return Der(o.m, "fields") if args and args[0] == "__dataclass_fields__" else Opaque()
            return Opaque()
        if isinstance(o, Dct):
            if name == "items":
                out = Lst(self, o.len, lambda t: Rec(list(o.pair(t))))
            elif name in ("keys", "values"):
                out = Lst(self, o.len, lambda t: o.pair(t)[0 if name == "keys" else 1])
            elif name == "get":
                if self.choose(2):
                    return args[1] if len(args) > 1 else None
                self.assume(o.len > 0)
                return o.pair(self)[1]
            else:
                raise Unsupported(f"dict.{name}")
            out.ekinds = lambda: self.sampled(out)
            return out
        if isinstance(o, Map):
            ks, vs = self.map_kinds(o)
            if name in ("items", "keys", "values"):
                kd = {("rec", 2): (None, [ks, vs])} if name == "items" else ks if name == "keys" else vs
                out = Lst(self, self.fresh("len", 0), lambda t: t.make(kd, VALUES), region=o.region)
                out.ekinds = kd
                return out
            if name in ("get", "pop", "setdefault"):
                if name == "setdefault":
                    self.escape(args[1] if len(args) > 1 else None, VALUES)
                    self.mutated_map(o)
                    self.map_set(o, self.kinds(args[0]), self.kinds(args[1] if len(args) > 1 else None))
                    ks, vs = self.map_kinds(o)
                elif name == "pop":
                    self.mutated_map(o)
                if self.choose(2):
                    return args[1] if len(args) > 1 else None
                return self.make(vs, VALUES)
            if name == "copy":
                where = ("site", "copy") + self.site(node)
                self.note(self.tables, where, {"map": (ks, vs)})
                return Map(self, where)
            if name in ("clear", "popitem"):
                self.mutated_map(o)
                return Rec([self.make(ks), self.make(vs)]) if name == "popitem" else None
            if name == "update":
                self.mutated_map(o)
                for a in args:
                    self.map_set(o, *(self.map_kinds(a) if isinstance(a, Map) else ({"any": None}, {"any": None})))
                for v in kw.values():
                    self.escape(v, VALUES)
                    self.map_set(o, {"any": None}, self.kinds(v))
                return None
            raise Unsupported(f"dict.{name}")
        if isinstance(o, Rec):
            if name == "index":
                return Int(self.fresh("index", 0))
            if name == "_replace":
                vals = list(o.vals)
                for k, v in kw.items():
                    vals[o.cls._fields.index(k)] = v
                return Rec(vals, o.cls)
            return Opaque()
        if isinstance(o, Opaque):
            if name in self.methods and not o.foreign:
                raise Unsupported(f"method {name} of an unknown object")
            self.callbacks(args, kw)
            if name in GROW:
                self.grow(o)
                return None
            if name in ("update", "add", "setdefault", "pop", "remove", "clear", "discard", "__setitem__", "popitem", "sort"):
                o.truth = o.len = None
            fresh = name in ("split", "rsplit", "splitlines", "copy", "strip", "keys", "items", "values", "findall", "partition", "rpartition", "finditer", "union", "difference", "intersection")
            if name == "index" or name in ("find", "rfind", "rindex"):
                r = self.fresh("index", -1 if "find" in name else 0)
                if not o.foreign:
                    self.s.add(r < self.length(o)) if name == "index" else None
                    z = self.z(args[1]) if len(args) > 1 else None
                    if z is not None and name == "index":
                        self.s.add(z3.Implies(z >= 0, r >= z))
                    self.assume(z3.BoolVal(True))
                return Int(r)
            return Opaque(foreign=o.foreign, region=("local", next(self.serial)) if fresh else ("any",))
        if isinstance(o, Live):
            f = getattr(o.o, name)
            if callable(f) and (self.ours(f) or self.ours(getattr(f, "__func__", None))):
                return self.call_live(f, args, kw, node)
            self.callbacks(args, kw)
            if isinstance(o.o, (list,)) and name in GROW:
                self.grow_region(("any",))
            return Opaque(region=("any",))
        if isinstance(o, (str, bytes, Int, int, Bool, float)):
            self.callbacks(args, kw)
            return Opaque(region=("local", next(self.serial)))
        raise Unsupported(f"method {name} of {type(o).__name__}")

    def lazy_kinds(self, l):
        if l.items is not None:
            return self.elem_kinds(l)
        return l.ekinds if getattr(l, "ekinds", None) is not None else {"any": None}

    # builtins
    def b_len(self, a, k, n):
        return Int(self.length(a[0]))

    def b_range(self, a, k, n):
        zs = [self.z(x) for x in a]
        if any(z is None for z in zs):
            zs = [self.fresh() for _ in zs]
        lo, hi = (z3.IntVal(0), zs[0]) if len(zs) == 1 else zs[:2]
        ln = self.fresh("len", 0)
        if len(zs) < 3:
            self.s.add(ln == z3.If(hi > lo, hi - lo, 0))
            el = lambda t: t.between(lo, hi)  # noqa: E731
        elif z3.is_int_value(zs[2]) and zs[2].as_long() < 0:
            self.s.add(ln <= z3.If(lo > hi, lo - hi, 0))
            el = lambda t: t.between(hi + 1, lo + 1)  # noqa: E731
        else:
            el = lambda t: Int(t.fresh())  # noqa: E731
        out = Lst(self, ln, el, mutable=False)
        out.ekinds = {"int": None}
        return out

    def between(self, lo, hi):
        x = self.fresh("x")
        self.assume(z3.And(x >= lo, x < hi))
        return Int(x)

    def b_enumerate(self, a, k, n):
        src = self.iterable(a[0])
        src0, src = src, (self.frozen(src) if isinstance(src, Lst) else src)
        st = a[1] if len(a) > 1 else k.get("start", 0)
        z = self.z(st)
        ln = self.length(src)

        def el(t):
            i = t.fresh("x")
            t.assume(z3.And(i >= z, i < z + ln) if z is not None else z3.BoolVal(True))
            return Rec([Int(i), t.instance(src)])

        out = Lst(self, ln, el, mutable=False)
        out.base = self.regions(src0)
        out.ekinds = {("rec", 2): (None, [{"int": None}, self.elem_kinds(src) if isinstance(src, Lst) else {"any": None}])}
        return out

    def b_zip(self, a, k, n):
        srcs = [self.iterable(x) for x in a]
        ln = self.fresh("len", 0)
        base = [r for s in srcs for r in self.regions(s)]
        srcs = [self.frozen(x) if isinstance(x, Lst) else x for x in srcs]
        for s in srcs:
            self.s.add(ln <= self.length(s))
        out = Lst(self, ln, lambda t: Rec([t.instance(s) for s in srcs]), mutable=False)
        out.base = base
        out.ekinds = {("rec", len(srcs)): (None, [self.elem_kinds(x) if isinstance(x, Lst) else {"any": None} for x in srcs])}
        return out

    def b_list(self, a, k, n):
        if not a:
            return Lst(self, z3.IntVal(0), None, [], site=self.site(n) if n is not None else None)
        return self.as_list(a[0], self.site(n) if n is not None else None)

    def b_tuple(self, a, k, n):
        if a and isinstance(a[0], Rec):
            return a[0]
        return self.b_list(a, k, n)

    def b_sorted(self, a, k, n):
        self.callbacks([], k)
        v = self.as_list(a[0], self.site(n) if n is not None else None)
        if v.items is not None:
            self.method(v, "sort", [], {}, n)
        return v

    def b_reversed(self, a, k, n):
        out = self.b_sorted(a, {}, n)
        out.base = self.regions(a[0])
        return out

    def b_minmax(self, a, k, which):
        self.callbacks([], k)
        if len(a) == 1:
            v = a[0]
            if isinstance(v, Lst):
                if v.mm is None:
                    self.assume(v.len > 0)
                    x, y = v.elem(self), v.elem(self)
                    zx, zy = self.z(x), self.z(y)
                    if zx is None or zy is None or k:
                        return x
                    self.assume(zx <= zy)
                    v.mm = (x, y)
                return v.mm[which]
            return self.instance(self.iterable(v))
        zs = [self.z(x) for x in a]
        if any(z is None for z in zs) or k:
            return a[self.choose(len(a))]
        out = zs[0]
        for z in zs[1:]:
            out = z3.If((z < out) if which == 0 else (z > out), z, out)
        return Int(out)

    def b_min(self, a, k, n):
        return self.b_minmax(a, k, 0)

    def b_max(self, a, k, n):
        return self.b_minmax(a, k, 1)

    def b_dict(self, a, k, n):
        where = ("site", "dict", id(n), self.frame.chain)
        ks, vs = self.map_kinds(a[0]) if a and isinstance(a[0], Map) else ({"any": None}, {"any": None}) if a else ({}, {})
        for v in k.values():
            self.escape(v, VALUES)
            ks, vs = self.join(ks, {"any": None}), self.join(vs, self.kinds(v))
        for v in a:
            if not isinstance(v, Map):
                self.iterable(v)
        self.note(self.tables, where, {"map": (ks, vs)})
        return Map(self, where)

    def b_any(self, a, k, n):
        self.iterable(a[0])
        return Opaque()

    b_all = b_sum = b_any

    def b_set(self, a, k, n):
        if a:
            self.iterable(a[0])
        return Opaque(region=("local", next(self.serial)))

    b_frozenset = b_set

    def b_vars(self, a, k, n):
        if a and isinstance(a[0], Cls):
            return Der(a[0].m, "vars")
        return Opaque(foreign=isinstance(a[0], Opaque) and a[0].foreign if a else False, region=("any",))

    def b_fields(self, a, k, n):
        if a and isinstance(a[0], Cls):
            m = a[0].m
            out = Lst(self, self.fresh("len", 0), lambda t: Der(m, "field"))
            out.ekinds = {"any": None}
            return out
        return Opaque(region=("local", next(self.serial)))

    def b_getattr(self, a, k, n):
        if isinstance(a[1], str):
            if len(a) > 2 and self.choose(2):
                return a[2]
            return self.attr(a[0], a[1])
        if isinstance(a[0], Obj):
            raise Unsupported("getattr of a computed name")
        return Opaque(foreign=isinstance(a[0], Opaque) and a[0].foreign or isinstance(a[0], (Cls,)), region=("any",))

    def b_setattr(self, a, k, n):
        if isinstance(a[1], str):
            self.setattr(a[0], a[1], a[2])
        elif isinstance(a[0], Obj):
            raise Unsupported("setattr of a computed name")
        else:
            self.escape(a[2])
        return None

    def b_hasattr(self, a, k, n):
        return Opaque()

    b_isinstance = b_issubclass = b_callable = b_hasattr

    def b_type(self, a, k, n):
        return Opaque()

    def b_iter(self, a, k, n):
        if len(a) > 1:
            raise Unsupported("iter() of a function")
        return self.iterable(a[0])

    def b_next(self, a, k, n):
        v = self.iterable(a[0])
        if len(a) > 1 and self.choose(2):
            return a[1]
        return self.instance(v)

    def b_map(self, a, k, n):
        for x in a[1:]:
            self.iterable(x)
        self.callbacks([a[0]], {})
        out = Lst(self, self.fresh("len", 0), lambda t: Opaque(region=("any",)))
        out.ekinds = {"any": None}
        return out

    def b_filter(self, a, k, n):
        self.callbacks([a[0]], {})
        v = self.as_list(a[1])
        ln = self.fresh("len", 0)
        self.s.add(ln <= v.len)
        out = Lst(self, ln, lambda t: t.instance(v))
        out.ekinds = self.lazy_kinds(v)
        return out

    def b_int(self, a, k, n):
        return a[0] if a and self.z(a[0]) is not None else Int(self.fresh())

    def b_abs(self, a, k, n):
        z = self.z(a[0])
        return Opaque() if z is None else Int(z3.If(z < 0, -z, z))

    def b_deepcopy(self, a, k, n):
        v = a[0]
        if isinstance(v, Obj):
            return Obj(v.cls, v.m)
        if isinstance(v, (Opaque, Cls)):
            return Opaque(foreign=getattr(v, "foreign", False), region=("any",)) if isinstance(v, Opaque) else v
        if isinstance(v, Lst):
            return self.as_list(v, self.site(n))
        return v

    b_copy = b_deepcopy

    def b_super(self, a, k, n):
        raise Unsupported("super()")

    # the whole -------------------------------------------------------------------------
    def run(self):
        cls, name = self.entry
        fn = vars(cls)[name]
        top = self.function(fn)
        self.contract_now = None

        def body():
            self.contract_now = None
            o = Obj(cls)
            env = {}
            ps = [a.arg for a in top.node.args.posonlyargs + top.node.args.args + top.node.args.kwonlyargs]
            for i, n in enumerate(ps):
                env[n] = o if i == 0 else Opaque(region=("any",))
            if top.node.args.vararg or top.node.args.kwarg:
                raise Unsupported("arguments of the entry point")
            env["<parent>"] = None
            self.functions.add(f"{top.file}:{top.name}")
            self.inline(top, env, None)

        def fresh():
            self.loops, self.contracts, self.heap, self.tables = {}, {}, {}, {}
            self.edges, self.for_bad, self.for_seen = {}, {}, set()

        rounds = 0
        fresh()
        while True:
            self.changed = False
            rounds += 1
            t = time.time()
            p = self.paths
            try:
                self.explore(body)
                for c in list(self.contracts.values()):
                    if not self.final and c.last and c.last[0] == (self.hv, c.vin) and all(self.contracts[k].vout == v for k, v in c.last[1].items()):
                        continue
                    p0, q0, t0 = self.paths, self.queries, time.time()
                    self.verify_contract(c)
                    self.log(f"    {c.fn.name}: {self.paths-p0} paths {self.queries-q0} queries {time.time()-t0:.1f} s")
            except Restart:
                if self.reset:
                    self.reset = False
                    fresh()
                for c in self.contracts.values():
                    c.last = None
                self.final = False
                continue
            self.log(f"round {rounds}: {self.paths - p} paths, {time.time() - t:.1f} s, {len(self.contracts)} contracts, {len(self.loops)} loops, changed {self.changed}")
            if self.final and not self.changed:
                break
            # once nothing changes, one more round decides
            self.final = not self.changed
            if self.final:
                self.edges, self.for_bad, self.for_seen = {}, {}, set()
                for l in self.loops.values():
                    l.variants = None
            if rounds > 60:
                raise Unsupported("no fixed point")
        return self.obligations()

    def obligations(self):
        """[(name, holds, why)]"""
        out = {}

        def add(name, ok, why=""):
            if name not in out or out[name][0]:
                out[name] = (ok, why)

        for key, l in self.loops.items():
            if ": while" in l.name:
                vs = l.variants
                add(f"{l.name} ends", bool(vs) or vs is None, "no integer or length moves towards a bound in every iteration")
            else:
                add(f"{l.name} runs over a collection that it does not extend", key not in self.for_bad, "the collection may be extended in the loop")
        names = {id(c.fn.node): c.fn.name for c in self.contracts.values()}
        equal = {k for k, s in self.edges.items() if s == "equal"}
        # an edge in a cycle of equal measures, or without a measure in any cycle
        def reach(a, b, es):
            seen, todo = set(), [a]
            while todo:
                x = todo.pop()
                for p, q in es:
                    if p == x and q not in seen:
                        seen.add(q)
                        todo.append(q)
            return b in seen

        for (a, b), s in self.edges.items():
            back = reach(b, a, set(self.edges)) or a == b
            ok = s == "less" or not back or s == "equal" and not (a == b or reach(b, a, equal))
            if not back:
                continue  # no recursion
            add(f"{names[a]}: recursive call of {names[b]} gets a smaller element", ok, "the measure is not shown to decrease")
        return [(n, ok, why) for n, (ok, why) in out.items()]


class Starred:
    def __init__(self, v):
        self.v = v
