"""Symbolic execution of the real functions, from their source in the working tree.

The interpreter takes the live function objects, finds their source in the repository and executes
the syntax tree.  Values which are not symbolic are ordinary Python objects.  Everything it cannot
treat exactly raises Unsupported, which leaves an obligation undecided.
"""
import ast
import builtins
import copy
import dataclasses
import enum
import functools
import inspect
import itertools
import os
import types
from decimal import Decimal

import z3

from .. import env
from .core import F, Infeasible, PyExc, SStr, Unsupported
from .values import (Case, Chunk, Earlier, ForEach, Held, Opaque, SBool, SEnum, SInt, SList, SNum, SObj, SOpt, SVars, Sym, VList, has_sym, held, is_sym)

MISSING = object()


class Remerge(Exception):
    """A variable which was merged is needed: execute again without merging there."""

    def __init__(self, node):
        self.node = node


class NotMergeable(Exception):
    pass


class Poison(Sym):
    def __init__(self, node, why):
        self.node, self.why = node, why


class SJoin(Sym):
    """sep.join(items) where the number of items is not fixed."""

    def __init__(self, sep, items):
        self.sep, self.items = sep, items


class Pos(Sym):
    pass


class Frame:
    __slots__ = ("vars", "parent", "globals", "cls", "node", "locals", "serial", "func", "nonlocals", "globs")

    def __init__(self, interp, parent, globs, cls, node, locs, func=None):
        self.vars, self.parent, self.globals, self.cls, self.node, self.locals = {}, parent, globs, cls, node, locs
        interp.serial += 1
        self.serial = interp.serial
        self.func = func
        self.nonlocals, self.globs = set(), set()


class IFunc:
    """A function, lambda or generator expression made by the interpreted program."""

    def __init__(self, node, frame, defaults, kwdefaults, name):
        self.node, self.frame, self.defaults, self.kwdefaults, self.name = node, frame, defaults, kwdefaults, name
        self.__name__ = name


class Bound:
    """A method of a value the engine treats itself."""

    def __init__(self, obj, name):
        self.obj, self.name = obj, name

    def __repr__(self):
        return f"Bound({self.obj!r}.{self.name})"


class Callable_:
    """A callable of the engine: fn(interp, args, kwargs)."""

    def __init__(self, fn):
        self.fn = fn


class SGen:
    """A lazy iterator."""

    def __init__(self, it):
        self.it = it

    def __iter__(self):
        return self.it


class Ret(Exception):
    pass


class Fn:
    def __init__(self, node, cls, path):
        self.node, self.cls, self.path = node, cls, path


_files = {}


def source_index(path):
    """All functions of a file: (name, first line) -> Fn."""
    if path not in _files:
        with open(path, encoding="utf-8") as f:
            tree = ast.parse(f.read(), path)
        out = {}

        def walk(n, cls):
            for c in ast.iter_child_nodes(n):
                if isinstance(c, ast.ClassDef):
                    walk(c, c.name)
                elif isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    line = min([c.lineno] + [d.lineno for d in c.decorator_list])
                    out[(c.name, line)] = Fn(c, cls, path)
                    walk(c, cls)
                else:
                    if isinstance(c, ast.Lambda):
                        out.setdefault(("<lambda>", c.lineno), Fn(c, cls, path))
                    walk(c, cls)

        walk(tree, None)
        _files[path] = out
    return _files[path]


_stored = {}


def stored_names(node):
    """Names assigned in a function body (its locals), and nonlocal/global declarations."""
    if node in _stored:
        return _stored[node]
    names, nonl, glob = set(), set(), set()

    def visit(n, top=False):
        if not top and isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            names.add(n.name)
            return
        if not top and isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for w in ast.walk(n):
                if isinstance(w, ast.NamedExpr):
                    names.add(w.target.id)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            names.add(n.id)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        elif isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
        elif isinstance(n, ast.Global):
            glob.update(n.names)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            names.update((a.asname or a.name).split(".")[0] for a in n.names)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            names.add(n.name)
        for c in ast.iter_child_nodes(n):
            visit(c)

    body = node.body if isinstance(node.body, list) else [node.body]
    for b in body:
        visit(b)
    a = getattr(node, "args", None)
    if a is not None and isinstance(a, ast.arguments):
        names.update(x.arg for x in a.posonlyargs + a.args + a.kwonlyargs)
        names.update(x.arg for x in (a.vararg, a.kwarg) if x)
    _stored[node] = (names - nonl - glob, nonl, glob)
    return _stored[node]


class Lazy(Sym):
    """A value which is computed when it is needed (sizes of sets of texts, and their comparisons)."""

    def __init__(self, fn):
        self.fn, self.at, self.val = fn, None, None

    def get(self, it):
        if self.at is not it.e.store:
            self.val = it.force(self.fn())
            self.at = it.e.store
        return self.val

    def __repr__(self):
        return "<lazy>"


def is_generator(node):
    if node not in _gen:
        _gen[node] = is_generator_(node)
    return _gen[node]


_gen = {}


def is_generator_(node):
    def has(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp)):
                continue
            if isinstance(c, (ast.Yield, ast.YieldFrom)) or has(c):
                return True
        return False

    return isinstance(node, ast.FunctionDef) and any(isinstance(b, (ast.Yield, ast.YieldFrom)) or has(b) for b in node.body)


BREAK, CONTINUE, RETURN = "break", "continue", "return"

# natively executed, when called with values which are not symbolic, also while paths are merged
PURE = {
    len, str, repr, int, float, bool, isinstance, issubclass, type, getattr, hasattr, vars, dir, range, zip, enumerate, iter, next, reversed, sorted, min, max, sum,
    any, all, list, tuple, set, frozenset, dict, abs, map, filter, id, callable, ord, chr, round, print, Decimal, copy.copy, copy.deepcopy, super, hash, divmod, pow, format, slice,
    functools.partial, itertools.chain, itertools.count, dataclasses.fields, dataclasses.is_dataclass, iter, object,
}
EXC = {n: getattr(builtins, n) for n in dir(builtins) if isinstance(getattr(builtins, n), type) and issubclass(getattr(builtins, n), BaseException)}


class Interp:
    def __init__(self, eng, world=None):
        self.e, self.w = eng, world
        self.serial = 1
        self.undo = []
        self.nomerge = set()
        self.merging = False
        self.merge_loops = True
        self.merge_depth = 0
        self.ghost = VList()
        self.born = {}
        self.stubs = {}
        self.method_stubs = {}
        self.write_hook = None
        self.depth = 0
        self.steps = 0
        self.max_steps = 3_000_000
        self.functions = set()
        self.reads = None
        self.frames = []
        self.hypotheses = []
        self.native_ok = lambda f, args, kwargs: False

    # state ------------------------------------------------------------------
    def new(self, obj):
        self.serial += 1
        if isinstance(obj, VList):
            obj.serial = self.serial
        else:
            self.born[id(obj)] = (self.serial, obj)
        return obj

    def vlist(self, items=()):
        return self.new(VList(items))

    def age(self, obj):
        if isinstance(obj, Frame):
            return obj.serial
        if isinstance(obj, VList):
            return getattr(obj, "serial", 0)
        b = self.born.get(id(obj))
        return b[0] if b and b[1] is obj else 0

    frame, frame_ok, frame_writes = None, (), ()

    def journal(self, kind, obj, undo, redo, info=None):
        if self.frame is not None and kind != "local" and obj is not self.ghost and id(obj) not in self.frame_ok and self.age(obj) <= self.frame:
            self.frame_writes.add(f"{type(obj).__name__} ({kind}{' ' + str(info[0]) if kind == 'attr' else ''})")
        self.undo.append((kind, obj, undo, redo, info))
        redo()

    def setlocal(self, frame, name, value):
        old = frame.vars.get(name, MISSING)

        def undo():
            if old is MISSING:
                frame.vars.pop(name, None)
            else:
                frame.vars[name] = old

        self.journal("local", frame, undo, lambda: frame.vars.__setitem__(name, value), (name, value))

    def dellocal(self, frame, name):
        old = frame.vars[name]
        self.journal("local", frame, lambda: frame.vars.__setitem__(name, old), lambda: frame.vars.pop(name, None), (name, MISSING))

    def append(self, lst, items):
        items = list(items)
        n = len(lst)

        def undo():
            del lst[n:]

        self.journal("append", lst, undo, lambda: list.extend(lst, items), items)

    def replace(self, lst, new):
        """Any other change of a list."""
        old, new = list(lst), list(new)

        def put(x):
            list.__setitem__(lst, slice(None), x)

        self.journal("list", lst, lambda: put(old), lambda: put(new))

    def setdict(self, d, k, v):
        old = d.get(k, MISSING)

        def undo():
            if old is MISSING:
                d.pop(k, None)
            else:
                d[k] = old

        def redo():
            if v is MISSING:
                d.pop(k, None)
            else:
                d[k] = v

        self.journal("dict", d, undo, redo)

    def setattr_(self, obj, name, v):
        if isinstance(obj, Sym):
            if isinstance(obj, SOpt):
                return self.setattr_(self.force(obj), name, v)
            if isinstance(obj, SObj):
                return self.input_write(obj, name, v)
            raise Unsupported(f"assignment to an attribute of {obj}")
        if isinstance(obj, (types.ModuleType,)) or isinstance(obj, type):
            raise Unsupported(f"assignment to {obj}.{name}")
        if is_native(obj) and not hasattr(obj, "__dict__"):
            raise Unsupported(f"assignment to an attribute of {type(obj).__name__}")
        old = vars(obj).get(name, MISSING) if hasattr(obj, "__dict__") else MISSING
        if isinstance(getattr(type(obj), name, None), property):
            raise Unsupported("assignment to a property")

        def undo():
            if old is MISSING:
                object.__delattr__(obj, name)
            else:
                object.__setattr__(obj, name, old)

        self.journal("attr", obj, undo, lambda: setattr(obj, name, v), (name, v))

    def input_write(self, obj, what, v=None):
        """The program writes to an object it was given."""
        if self.write_hook is not None and self.write_hook(self, obj, what, v):
            return
        self.append(self.ghost, [("write", obj.path, what, v)])
        raise Unsupported(f"the program changes its input {obj.path} ({what})")

    def rollback(self, mark, serial=None):
        keep = []
        while len(self.undo) > mark:
            r = self.undo.pop()
            if serial is not None and self.age(r[1]) > serial:
                continue
            r[2]()

    # exploration with merging --------------------------------------------------
    def summary(self, mark, serial):
        """Effects on objects older than serial."""
        return [r for r in self.undo[mark:] if self.age(r[1]) <= serial]

    def merged(self, node, fn):
        """Execute fn (a loop body), joining its paths if all they do is appending to lists."""
        if not self.merging or not self.merge_loops or node in self.nomerge:
            return fn()
        serial, mark = self.serial, len(self.undo)
        e = self.e
        done = []
        single = []

        def run():
            try:
                r = ("ok", fn())
            except PyExc as x:
                r = ("exc", x)
            eff = self.summary(mark, serial)
            if not done and not e.trail:
                single.append((e.store, r))
            else:
                self.rollback(mark, serial)
            done.append(1)
            return r, eff

        self.merge_depth += 1
        try:
            arms = e.explore(run)
        except NotMergeable:
            self.rollback(mark, serial)
            self.merge_depth -= 1
            try:
                return fn()
            finally:
                self.merge_depth += 1
        except BaseException:
            self.rollback(mark, serial)
            raise
        finally:
            self.merge_depth -= 1
        if single:
            self.adopt(single[0][0])
            return self.give(single[0][1])
        if not arms:
            raise Infeasible
        arms = [(st.log, res[1][0], res[1][1], st) for st, res in arms]
        if len(arms) == 1:
            log, r, eff, st = arms[0]
            self.adopt(st)
            for x in eff:
                self.undo.append(x)
                x[3]()
            return self.give(r)
        normal, other = self.classify(arms)
        k = e.choose((1 if normal else 0) + len(other), f"outcome of line {node.lineno}")
        if not (normal and k == 0):
            log, r, eff, st = other[k - (1 if normal else 0)]
            self.adopt(st)
            for x in eff:
                self.undo.append(x)
                x[3]()
            return self.give(r)
        if len(normal) == 1:
            log, r, eff, st = normal[0]
            self.adopt(st)
            for x in eff:
                self.undo.append(x)
                x[3]()
            return self.give(r)
        self.apply_merged(node, normal)
        return None

    def classify(self, arms):
        normal, other = [], []
        for a in arms:
            log, r, eff, st = a
            ok = r[0] == "ok" and r[1] in (None, CONTINUE) and all(x[0] in ("append", "local") for x in eff)
            (normal if ok else other).append(a)
        return normal, other

    def adopt(self, st):
        """Go on in the state of a nested path."""
        log = self.e.store.log + st.log
        st.log = log
        self.e.store = st

    def give(self, r):
        if r[0] == "exc":
            raise r[1]
        return r[1]

    def apply_merged(self, node, arms, wrap=None):
        lists, order = {}, []
        locs = {}
        for i, (log, r, eff, st) in enumerate(arms):
            for kind, obj, undo, redo, info in eff:
                if kind == "append":
                    if id(obj) not in lists:
                        lists[id(obj)] = (obj, {})
                        order.append(id(obj))
                    lists[id(obj)][1].setdefault(i, []).extend(info)
                else:
                    locs.setdefault((id(obj), info[0]), (obj, {}))[1][i] = info[1]
        for (_, name), (frame, vals) in locs.items():
            vs = list(vals.values())
            if len(vs) == len(arms) and all(v is vs[0] or (type(v) is type(vs[0]) and isinstance(v, (str, int, bool, type(None))) and v == vs[0]) for v in vs) and not wrap:
                self.setlocal(frame, name, vs[0])
            else:
                self.setlocal(frame, name, Poison(node, name))
        for k in order:
            lst, per = lists[k]
            if len(arms) == 1 and not (wrap and any(r[0] == "bind" or r[0] == "key" and r[1][0] == "def" for r in arms[0][0])):
                items = per.get(0, [])
            else:
                items = [Case([(log, per.get(i, [])) for i, (log, r, eff, st) in enumerate(arms)])]
            if wrap:
                items = [wrap(items)]
            self.append(lst, items)

    def foreach(self, node, src, fn, assigned, frame):
        """A loop over an input list: the body is executed for the generic element."""
        e = self.e
        self.w.ensure(src)
        if getattr(src, "fixed", None) is not None:
            raise Unsupported("fixed list")
        if not self.e.zfeasible(src.len > 0):
            return None
        serial, mark = self.serial, len(self.undo)
        elem = src.element()
        earlier = {}

        for attempt in range(3):
            serial, mark = self.serial, len(self.undo)
            for name in assigned:
                if name in frame.vars and not isinstance(frame.vars[name], Poison):
                    self.setlocal(frame, name, Poison(node, name))
            for lst in earlier.values():
                self.append(lst[0], [lst[1]])
            body_mark = len(self.undo)

            def run():
                e.zassume(src.len > 0)
                e.setkey(("generic", src.path), True)
                try:
                    r = ("ok", fn(elem))
                except PyExc as x:
                    r = ("exc", x)
                eff = self.summary(body_mark, serial)
                self.rollback(body_mark, serial)
                return r, eff

            self.merge_depth += 1
            old_reads, self.reads = self.reads, {}
            try:
                arms = e.explore(run)
            except NotMergeable:
                raise Unsupported(f"the loop at line {node.lineno} has effects other than appending") from None
            finally:
                self.merge_depth -= 1
                reads, self.reads = self.reads, old_reads
                self.rollback(mark, serial)
            if old_reads is not None:
                old_reads.update(reads)
            arms = [(st.log, res[1][0], res[1][1], st) for st, res in arms]
            appended = {id(x[1]): x[1] for a in arms for x in a[2] if x[0] == "append"}
            need = [l for k, l in appended.items() if k in reads and k not in earlier]
            if not need:
                break
            for l in need:
                earlier[id(l)] = (l, Earlier(src))
        else:
            raise Unsupported("loop reads what it appends")
        normal, other = self.classify(arms)
        if any(r[0] == "ok" and r[1] == BREAK for _, r, _, _ in other) or any(r[0] == "ok" and r[1] in (None, CONTINUE) for _, r, _, _ in other):
            raise Unsupported(f"the loop at line {node.lineno} has effects other than appending")
        k = e.choose(1 + len(other), f"outcome of the loop at line {node.lineno}") if normal or True else 0
        if k > 0:
            log, r, eff, st = other[k - 1]
            if r[0] == "exc":
                self.adopt(st)
                raise r[1]
            raise Unsupported("return from a loop over an input list")
        for name in assigned:
            self.setlocal(frame, name, Poison(node, name))
        if normal:
            # lists which some path does not append to are handled by apply_merged
            self.apply_merged(node, normal, wrap=lambda items: ForEach(src, items))
        else:
            e.zassume(src.len == 0)
        for l, ch in earlier.values():
            tmpl = next((c for c in l if isinstance(c, ForEach) and c.src is src), None)
            for pred in ch.filters:
                if tmpl is not None and not self.all_false(tmpl.items, pred):
                    raise Unsupported("an earlier iteration may matter")
        return None

    def all_false(self, items, pred):
        """pred(item) is false for every item that can occur."""
        for it in items:
            if isinstance(it, Case):
                for log, sub in it.arms:
                    res = []

                    def run(log=log, sub=sub):
                        self.e.reassume(log)
                        res.append(self.all_false(sub, pred))

                    self.e.explore(run)
                    if not all(res):
                        return False
            elif isinstance(it, ForEach):
                if not self.all_false(it.items, pred):
                    return False
            elif isinstance(it, Earlier):
                it.filters.append(pred)
            else:
                outs = self.e.explore(lambda: pred(it))
                if any(r != ("ok", False) for _, r in outs):
                    return False
        return True

    # forcing ------------------------------------------------------------------
    def force(self, v):
        while isinstance(v, (SOpt, Lazy)):
            if isinstance(v, Lazy):
                v = v.get(self)
            elif v.decide(self) if v.decide is not None else self.e.key(("some", v.path), (True, False)):
                v = v.inner()
            else:
                return None
        if isinstance(v, Poison):
            raise Remerge(v.node)
        if isinstance(v, SStr):
            return self.e.simp(v)
        return v

    def truth(self, v):
        v = self.force(v)
        if isinstance(v, (str, SStr)):
            return self.e.truth(v)
        if isinstance(v, SBool):
            return self.e.ztruth(v.z)
        if isinstance(v, SInt):
            return self.e.ztruth(v.z != 0)
        if isinstance(v, SNum):
            return not self.e.key(("zero", v.text.pieces[0] if len(v.text.pieces) == 1 else self.bad("zero?")), (False, True))
        if isinstance(v, SObj):
            return True
        if isinstance(v, SEnum):
            return True
        if isinstance(v, SList):
            self.w.ensure(v)
            return self.e.ztruth(v.len > 0, f"{v.path} non-empty")
        if isinstance(v, SVars):
            return bool(v.obj.own())
        if isinstance(v, VList):
            self.read(v)
            if any(not isinstance(x, Chunk) for x in v):
                return True
            if v:
                return self.chunk_nonempty(v)
            return False
        if isinstance(v, Opaque) and "truth" in v.info:
            return v.info["truth"]
        if isinstance(v, Sym):
            raise Unsupported(f"truth of {v}")
        if isinstance(v, (list, tuple, dict, set, frozenset)):
            return len(v) > 0
        return bool(v)

    def chunk_nonempty(self, v):
        for x in v:
            if not isinstance(x, Chunk):
                return True
            if isinstance(x, Case):
                if self.chunk_nonempty(self.pick(x)):
                    return True
            elif isinstance(x, ForEach):
                self.w.ensure(x.src)
                if self.e.ztruth(x.src.len > 0):
                    if any(not isinstance(i, Chunk) for i in x.items):
                        return True
                    raise Unsupported("is this list empty?")
            else:
                raise Unsupported("is this list empty?")
        return False

    def pick(self, case):
        """The items in one of the cases which are possible here."""
        e = self.e
        arms = [a for a in case.arms if e.possible(a[0])]
        log, items = arms[e.choose(len(arms), "case")]
        e.reassume(log)
        return items

    def bad(self, why):
        raise Unsupported(why)

    def read(self, lst):
        if self.reads is not None and isinstance(lst, VList):
            self.reads[id(lst)] = lst

    # equality -------------------------------------------------------------------
    def eq(self, a, b):
        a, b = self.force(a), self.force(b)
        if a is b and not isinstance(a, float):
            return True
        if isinstance(a, (SStr, str)) and isinstance(b, (SStr, str)):
            if isinstance(a, str) and isinstance(b, str):
                return a == b
            return self.e.eq(a, b)
        sa, sb = isinstance(a, (Sym, SStr)), isinstance(b, (Sym, SStr))
        if isinstance(a, SInt) or isinstance(b, SInt) or isinstance(a, SBool) or isinstance(b, SBool):
            if a is None or b is None or isinstance(a, (str, SStr)) or isinstance(b, (str, SStr)):
                return False
            return self.e.ztruth(self.z(a) == self.z(b))
        if not sa and not sb:
            if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
                if isinstance(a, list) != isinstance(b, list):
                    return False
                self.read(a), self.read(b)
                if any(isinstance(x, Chunk) for x in list(a) + list(b)):
                    if len(a) == 0 or len(b) == 0:
                        return not self.truth(a if len(b) == 0 else b)
                    raise Unsupported("comparison of lists of unknown length")
                if len(a) != len(b):
                    return False
                return all(self.eq(x, y) for x, y in zip(a, b))
            if has_sym(a) or has_sym(b):
                raise Unsupported("comparison of structures")
            return bool(a == b)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, (SStr, Sym)):
                if y is None:
                    return False
                tx, ty = self.pytype(x), self.pytype(y)
                if tx is not None and ty is not None:
                    if isinstance(x, SEnum) and isinstance(y, x.cls):
                        return self.e.eq(SStr(x.var), str(y.value)) if all(isinstance(m.value, str) for m in x.cls) else self.bad("enum")
                    if issubclass(tx, str) != issubclass(ty, str):
                        num = (int, float, Decimal)
                        if not (issubclass(tx, num) and issubclass(ty, num)):
                            return False
                    if isinstance(x, SObj) and not dataclasses.is_dataclass(ty):
                        return False
                    if isinstance(x, (SList, SVars)) and isinstance(y, (str, type)):
                        return False
                    if isinstance(x, SEnum) and not issubclass(ty, (x.cls,)) and not issubclass(x.cls, (str, int)):
                        return False
                    if isinstance(x, SList) and isinstance(y, list) and len(y) == 0:
                        return not self.truth(x)
                    if isinstance(x, SNum) and isinstance(y, (int, Decimal)) and y == 0:
                        return not self.truth(x)
        raise Unsupported(f"comparison of {a!r:.60} and {b!r:.60}")

    def pytype(self, v):
        if isinstance(v, (str, SStr)):
            return str
        if isinstance(v, SObj):
            return v.cls
        if isinstance(v, (SEnum, SNum)):
            return v.cls
        if isinstance(v, SList):
            return list
        if isinstance(v, VList):
            return list
        if isinstance(v, SVars):
            return dict
        if isinstance(v, SInt):
            return int
        if isinstance(v, SBool):
            return bool
        if isinstance(v, SJoin):
            return str
        if isinstance(v, Opaque):
            return v.info.get("type")
        if isinstance(v, Sym):
            return None
        return type(v)

    def z(self, v):
        v = self.force(v)
        if isinstance(v, SInt):
            return v.z
        if isinstance(v, SBool):
            return z3.If(v.z, 1, 0)
        if isinstance(v, bool):
            return z3.IntVal(int(v))
        if isinstance(v, int):
            return z3.IntVal(v)
        raise Unsupported(f"{v!r} as a number")

    def same(self, a, b):
        """a is b"""
        if isinstance(a, SOpt) and b is None or isinstance(b, SOpt) and a is None:
            return self.force(a) is self.force(b)
        a, b = self.force(a), self.force(b)
        if a is b:
            return True
        if isinstance(a, (Sym, SStr)) or isinstance(b, (Sym, SStr)):
            if a is None or b is None or isinstance(a, (bool, type)) or isinstance(b, (bool, type)):
                if isinstance(a, SBool) or isinstance(b, SBool):
                    raise Unsupported("is")
                return False
            if isinstance(a, SEnum) or isinstance(b, SEnum):
                return self.eq(a, b)
            if isinstance(a, SObj) and isinstance(b, SObj):
                return a.path == b.path
            raise Unsupported("identity of symbolic values")
        return False

    def contains(self, x, c):
        x, c = self.force(x), self.force(c)
        if isinstance(c, (str, SStr)):
            if not isinstance(x, (str, SStr)):
                raise PyExc(TypeError("'in <string>' requires string"))
            if isinstance(c, str) and isinstance(x, str):
                return x in c
            if isinstance(x, SStr):
                if isinstance(c, str):
                    # a variable within a known text
                    raise Unsupported("is this text within that one?")
                raise Unsupported("symbolic text within a text")
            return self.e.contains(c, x)
        if isinstance(c, SVars):
            return any(self.eq(x, n) for n in c.obj.own())
        if isinstance(c, dict):
            if is_sym(x) or any(is_sym(k) for k in c):
                return any(self.eq(x, k) for k in c)
            return x in c
        if isinstance(c, (list, tuple, set, frozenset)) or isinstance(c, type({}.keys())):
            if not is_sym(x) and not any(is_sym(k) or isinstance(k, (list, tuple)) for k in c):
                return x in c
            if isinstance(c, VList) and c.chunky():
                self.read(c)
                for it in self.iterate(c):
                    if self.eq(x, it):
                        return True
                return False
            return any(self.eq(x, k) for k in held(c))
        if isinstance(c, Sym):
            raise Unsupported(f"in {c}")
        if isinstance(c, type) and issubclass(c, enum.Enum) and isinstance(x, SEnum):
            return issubclass(x.cls, c)
        if is_sym(x):
            return any(self.eq(x, k) for k in self.iterate(c))
        return x in c

    # iteration --------------------------------------------------------------------
    def iterate(self, v, chunks=False):
        """The elements of an iterable, in order (chunks are split into cases unless the caller takes them)."""
        v = self.force(v)
        if isinstance(v, SGen):
            yield from v.it
            return
        if isinstance(v, str):
            yield from v
            return
        if isinstance(v, SStr):
            while True:
                p = self.e.ps(v)
                if all(isinstance(x, str) for x in p):
                    yield from "".join(p)
                    return
                if isinstance(p[0], str):
                    yield from p[0]
                    v = SStr(*p[1:])
                    continue
                f = self.e.F(p[0])
                if f.dom is not None:
                    self.e.fork_dom(p[0])
                    continue
                raise Unsupported("characters of a symbolic text")
        if isinstance(v, SVars):
            yield from list(v.obj.own())
            return
        if isinstance(v, VList):
            self.read(v)
            i = 0
            while i < len(v):
                x = v[i]
                i += 1
                if isinstance(x, Chunk):
                    yield from self.split_chunk(x, chunks)
                else:
                    yield x
            return
        if isinstance(v, SList):
            if chunks:
                yield ForEach(v, [v.element()])
                return
            yield from self.unroll(v)
            return
        if isinstance(v, Sym):
            raise Unsupported(f"iteration over {v}")
        if isinstance(v, (list, tuple)):
            for x in v:
                if isinstance(x, Chunk):
                    yield from self.split_chunk(x, chunks)
                else:
                    yield x
            return
        try:
            it = iter(v)
        except TypeError as x:
            raise PyExc(x) from None
        if isinstance(v, (set, frozenset)) and has_sym(v):
            raise Unsupported("order of a set of texts")
        yield from self.native_iter(it)

    def native_iter(self, it):
        while True:
            try:
                x = next(it)
            except StopIteration:
                return
            except (Unsupported, Infeasible, Remerge, NotMergeable, PyExc):
                raise
            except Exception as x:
                raise PyExc(x) from None
            yield x

    def split_chunk(self, x, chunks, rev=False):
        if isinstance(x, Case):
            items = self.pick(x)
            for y in reversed(items) if rev else items:
                if isinstance(y, Chunk):
                    yield from self.split_chunk(y, chunks, rev)
                else:
                    yield y
        elif chunks:
            yield x
        else:
            raise Unsupported("iteration over a list of unknown length")

    def unroll(self, v):
        raise Unsupported(f"{v.path} has unknown length here")

    # names ------------------------------------------------------------------------
    def mangle(self, frame, name):
        c = frame.cls
        if c and name.startswith("__") and not name.endswith("__"):
            return "_" + c.lstrip("_") + name
        return name

    def load(self, frame, name):
        name = self.mangle(frame, name)
        f = frame
        while f is not None:
            if name in f.vars:
                v = f.vars[name]
                if isinstance(v, Poison):
                    raise Remerge(v.node)
                return v
            if name in f.locals and name not in f.nonlocals and name not in f.globs:
                raise PyExc(UnboundLocalError(f"cannot access local variable '{name}'"))
            if name in f.globs:
                break
            if f.func is not None and getattr(f.func, "__closure__", None):
                c = dict(zip(f.func.__code__.co_freevars, f.func.__closure__))
                if name in c:
                    return c[name].cell_contents
            f = f.parent
        if name in frame.globals:
            return frame.globals[name]
        b = frame.globals.get("__builtins__", builtins)
        b = b if isinstance(b, dict) else vars(b)
        if name in b:
            return b[name]
        raise PyExc(NameError(f"name '{name}' is not defined"))

    def store(self, frame, name, v):
        name = self.mangle(frame, name)
        f = frame
        if name in frame.globs:
            raise Unsupported(f"assignment to the global {name}")
        if name not in frame.locals or name in frame.nonlocals:
            f = frame.parent
            while f is not None and name not in f.vars and name not in f.locals:
                f = f.parent
            if f is None:
                f = frame
        self.setlocal(f, name, v)

    def assign(self, frame, t, v):
        if isinstance(t, ast.Name):
            self.store(frame, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            v = self.force(v)
            vals = list(self.iterate(v))
            n = len(t.elts)
            if star:
                i = star[0]
                if len(vals) < n - 1:
                    raise PyExc(ValueError("not enough values to unpack"))
                mid = len(vals) - (n - 1)
                vals = vals[:i] + [self.vlist(vals[i:i + mid])] + vals[i + mid:]
            if len(vals) != n:
                raise PyExc(ValueError(f"{'not enough' if len(vals) < n else 'too many'} values to unpack"))
            for x, y in zip(t.elts, vals):
                self.assign(frame, x.value if isinstance(x, ast.Starred) else x, y)
        elif isinstance(t, ast.Attribute):
            self.setattr_(self.force(self.ev(frame, t.value)), self.mangle(frame, t.attr), v)
        elif isinstance(t, ast.Subscript):
            obj = self.force(self.ev(frame, t.value))
            k = self.ev(frame, t.slice)
            self.setitem(obj, k, v)
        else:
            raise Unsupported(f"assignment to {type(t).__name__}")

    def setitem(self, obj, k, v):
        k = self.force(k)
        if isinstance(obj, SVars):
            self.input_write(obj.obj, k, v)
        if isinstance(obj, SList):
            self.input_write(obj, "[]", v)
        if isinstance(obj, dict):
            if is_sym(k):
                for x in list(obj):
                    if self.eq(x, k):
                        k = x
                        break
                else:
                    raise Unsupported("dictionary with a symbolic key")
            self.setdict(obj, k, v)
        elif isinstance(obj, list):
            self.read(obj)
            if any(isinstance(x, Case) for x in obj):
                self.replace(obj, self.settle(obj))
            if any(isinstance(x, Chunk) for x in obj) and not (isinstance(k, int) and 0 <= k < len(obj) and not any(isinstance(x, Chunk) for x in obj[: k + 1])):
                raise Unsupported("item assignment in a list of unknown length")
            new = list(obj)
            try:
                if isinstance(k, slice):
                    new[self.slice(k)] = list(self.iterate(v))
                else:
                    new[self.index(k)] = v
            except (IndexError, TypeError, ValueError) as x:
                raise PyExc(x) from None
            self.replace(obj, new)
        else:
            if is_sym(k) or is_sym(v) or has_sym(v):
                h = self.method_stubs.get((type(obj).__name__, "__setitem__"))
                if h:
                    return h(self, obj, k, v)
                raise Unsupported(f"item assignment to {type(obj).__name__}")
            self.impure("item assignment")
            try:
                obj[k] = v
            except Exception as x:
                raise PyExc(x) from None

    def impure(self, what):
        if self.merge_depth:
            raise NotMergeable(what)

    def index(self, k):
        k = self.force(k)
        if isinstance(k, (int, bool)):
            return int(k)
        if isinstance(k, SInt):
            s = z3.simplify(k.z)
            if z3.is_int_value(s):
                return s.as_long()
            raise Unsupported("symbolic index")
        if hasattr(k, "__index__"):
            return k.__index__()
        raise PyExc(TypeError("indices must be integers"))

    def slice(self, k):
        def one(x):
            x = self.force(x)
            return None if x is None else self.index(x)

        return slice(one(k.start), one(k.stop), one(k.step))

    def getitem(self, obj, k):
        obj, k = self.force(obj), self.force(k)
        if isinstance(obj, (str, SStr)) and (isinstance(obj, SStr) or isinstance(k, SInt) or isinstance(k, slice) and has_sint(k)):
            return self.str_item(obj, k)
        if isinstance(obj, SVars):
            for n in obj.obj.own():
                if self.eq(n, k):
                    return obj.obj.get(n)
            raise PyExc(KeyError(k))
        if isinstance(obj, dict) and (is_sym(k) or any(is_sym(x) for x in obj)):
            for x in list(obj):
                if self.eq(x, k):
                    return obj[x]
            raise PyExc(KeyError("symbolic key"))
        if isinstance(obj, SList):
            self.w.ensure(obj)
            if isinstance(k, int):
                if k < 0:
                    k2 = -k - 1
                    if not self.e.ztruth(obj.len > k2):
                        raise PyExc(IndexError("list index out of range"))
                    raise Unsupported("element from the end")
                if not self.e.ztruth(obj.len > k, f"{obj.path} has {k}"):
                    raise PyExc(IndexError("list index out of range"))
                return self.w.element(obj, str(k)) if k else self.w.element(obj, "0")
            raise Unsupported(f"index {k} of {obj.path}")
        if isinstance(obj, Sym):
            raise Unsupported(f"item of {obj}")
        if isinstance(obj, list):
            self.read(obj)
            if any(isinstance(x, Chunk) for x in obj):
                i = k if isinstance(k, int) else None
                if i is not None and i >= 0 and not any(isinstance(x, Chunk) for x in obj[: i + 1]):
                    return obj[i]
                if i is not None and i < 0 and not any(isinstance(x, Chunk) for x in list(obj)[i:]):
                    return obj[i]
                flat = self.settle(obj, k)
                if isinstance(i, int):
                    part = flat[: i + 1] if i >= 0 else flat[i:]
                    if len(part) == (i + 1 if i >= 0 else -i) and not any(isinstance(x, Chunk) for x in part):
                        return flat[i]
                if isinstance(k, slice) and k.step in (None, 1):
                    # the bounds lie in a part of known length: [a:], [:b], [a:b], [:-b], [-a:]
                    known = next((j for j, x in enumerate(flat) if isinstance(x, Chunk)), len(flat))
                    tail = next((j for j, x in enumerate(reversed(flat)) if isinstance(x, Chunk)), len(flat))

                    def inside(b):
                        return b is None or type(b) is int and (0 <= b <= known or -tail <= b < 0)

                    if inside(k.start) and inside(k.stop):
                        a = 0 if k.start is None else k.start if k.start >= 0 else len(flat) + k.start
                        b = len(flat) if k.stop is None else k.stop if k.stop >= 0 else len(flat) + k.stop
                        return self.vlist(flat[a:b])
                if any(isinstance(x, Chunk) for x in flat):
                    raise Unsupported("item of a list of unknown length")
                return self.getitem(flat, k)
            if isinstance(k, slice):
                return self.vlist(list.__getitem__(obj, self.slice(k)))
            if not isinstance(k, int):
                k = self.index(k)
        if isinstance(obj, (tuple, range)) and isinstance(k, SInt):
            k = self.index(k)
        if isinstance(k, slice):
            k = self.slice(k)
        if is_sym(k):
            raise Unsupported(f"item of {type(obj).__name__}")
        try:
            return obj[k]
        except Exception as x:
            raise PyExc(x) from None

    def settle(self, obj, k=None):
        """The list with the cases it is made of decided (those before item k suffice)."""
        flat = VList()
        for x in self.iterate(obj, chunks=True):
            flat.append(x)
        flat.serial = 10 ** 9
        return flat

    def str_item(self, s, k):
        e = self.e
        if isinstance(k, slice):
            if self.force(k.step) not in (None, 1):
                raise Unsupported("slice step")
            a, b = self.force(k.start), self.force(k.stop)
            if isinstance(b, SInt):
                r = self.at(s, b)
                s = r[0]
            elif b is not None:
                if not isinstance(b, int):
                    raise Unsupported("slice")
                s = e.cut(s, b)[0] if b >= 0 else e.rcut(s, -b)[0]
            if a is None or a == 0 if not isinstance(a, SInt) else False:
                return s
            if isinstance(a, SInt):
                if isinstance(b, SInt):
                    raise Unsupported("slice between two positions")
                return self.at(s, a)[1]
            if a >= 0:
                if b is not None and not isinstance(b, int):
                    return e.cut(s, a)[1]
                return e.cut(s, a)[1]
            if b is not None:
                raise Unsupported("slice")
            return e.rcut(s, -a)[1]
        i = k
        if isinstance(i, SInt):
            before, after = self.at(s, i)
            c = e.cut(after, 1)[0]
        elif i >= 0:
            c = e.cut(e.cut(s, i)[1], 1)[0]
        else:
            rest, c = e.rcut(s, -i)
            c = e.cut(c, 1)[0] if -i > 1 else c
        if not e.truth(c):
            raise PyExc(IndexError("string index out of range"))
        return e.simp(c) if isinstance(c, SStr) else c

    def at(self, s, pos):
        """(before, after) at a position which a search returned."""
        if pos.pos is None:
            z = z3.simplify(pos.z)
            if z3.is_int_value(z) and z.as_long() >= 0:
                return self.e.cut(s, z.as_long())
            raise Unsupported("slice at an unknown position")
        text, before, off = pos.pos
        ps, pt = self.e.ps(s), self.e.ps(text)
        if ps != pt:
            raise Unsupported("position in another text")
        pb = self.e.ps(before)
        rest = list(pt)
        for x in pb:
            if not rest:
                raise Unsupported("position")
            if rest[0] == x:
                rest.pop(0)
            elif isinstance(x, str) and isinstance(rest[0], str) and rest[0].startswith(x):
                rest[0] = rest[0][len(x):]
            else:
                raise Unsupported("position")
        after = self.e.mk(rest)
        if off:
            a, b = self.e.cut(after, off) if off > 0 else (None, None)
            if off < 0:
                x, y = self.e.rcut(before, -off)
                return x, self.e.concat(y, after)
            return self.e.concat(before, a), b
        return self.e.simp(before) if isinstance(before, SStr) else before, after

    # expressions --------------------------------------------------------------------
    def ev(self, frame, n):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Unsupported("too many steps")
        m = getattr(self, "x_" + type(n).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(n).__name__}")
        return m(frame, n)

    def x_Constant(self, fr, n):
        return n.value

    def x_Name(self, fr, n):
        return self.load(fr, n.id)

    def x_Tuple(self, fr, n):
        return tuple(self.elts(fr, n.elts))

    def x_List(self, fr, n):
        return self.vlist(self.elts(fr, n.elts))

    def x_Set(self, fr, n):
        v = self.elts(fr, n.elts)
        if any(is_sym(x) for x in v):
            raise Unsupported("set of symbolic values")
        return self.new(set(v))

    def elts(self, fr, elts):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.ev(fr, x.value), chunks=True))
            else:
                out.append(self.ev(fr, x))
        return out

    def x_Dict(self, fr, n):
        d = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                o = self.force(self.ev(fr, v))
                if isinstance(o, SVars):
                    d.update({a: o.obj.get(a) for a in o.obj.own()})
                else:
                    d.update(o)
                continue
            kk = self.force(self.ev(fr, k))
            if is_sym(kk):
                raise Unsupported("dictionary with symbolic keys")
            d[kk] = self.ev(fr, v)
        return self.new(d)

    def x_JoinedStr(self, fr, n):
        return self.e.concat(*[self.ev(fr, v) for v in n.values])

    def x_FormattedValue(self, fr, n):
        v = self.force(self.ev(fr, n.value))
        if n.conversion == 115:
            v = self.str(v)
        elif n.conversion in (114, 97):
            if is_sym(v):
                raise Unsupported("repr in an f-string")
            v = repr(v) if n.conversion == 114 else ascii(v)
        spec = self.force(self.ev(fr, n.format_spec)) if n.format_spec is not None else ""
        return self.format(v, spec)

    def format(self, v, spec):
        v = self.force(v)
        if not isinstance(spec, str):
            raise Unsupported("symbolic format")
        if not is_sym(v):
            if isinstance(v, (list, tuple, dict)) and has_sym(v):
                raise Unsupported("format of a structure")
            try:
                return format(v, spec)
            except Exception as x:
                raise PyExc(x) from None
        if spec == "" and not isinstance(v, SStr):
            return self.str(v)
        if not isinstance(v, SStr):
            if isinstance(v, SNum):
                return self.derive("format:" + spec, v.text, lambda t: format(v.cls(t), spec))
            v = self.str(v) if isinstance(v, SEnum) else self.bad(f"format of {v}")
            if isinstance(v, str):
                return format(v, spec)
        if spec == "" or spec == "s":
            return v
        import re

        m = re.fullmatch(r"(?:(.)?([<>^]))?(0?)(\d*)(?:\.(\d+))?s?", spec)
        if not m:
            raise Unsupported(f"format {spec!r}")
        fill, align, zero, width, prec = m.groups()
        if zero:
            raise Unsupported(f"format {spec!r}")
        if prec is not None:
            v = self.e.cut(v, int(prec))[0]
            if isinstance(v, str):
                return format(v, (fill or "") + (align or "") + width)
        if not width:
            return v
        return self.pad(v, int(width), align or "<", fill or " ")

    def pad(self, v, width, align, fill):
        if isinstance(v, str):
            return format(v, f"{fill}{align}{width}")
        if align == "^":
            raise Unsupported("centred")
        ps = tuple(self.e.ps(v))
        known = sum(len(p) if isinstance(p, str) else (self.e.F(p).flen if self.e.F(p).flen is not None else max(self.e.F(p).minlen, 1 if self.e.F(p).nonempty else 0)) for p in ps)
        if all(isinstance(p, str) or self.e.F(p).flen is not None for p in ps):
            w = fill * max(0, width - known)
        elif known >= width:
            w = ""
        else:
            k = ("pad", ps, width, fill)
            if k not in self.e.store.keys:
                p = self.e.fresh(f"pad{width}", "ws", ws=fill.isspace(), only=frozenset(fill), maxlen=width - known)
                self.e.setkey(k, p)
                self.e.setkey(("def", p), (lambda t: fill * max(0, width - len(t)), SStr(*ps)))
            w = SStr(self.e.store.keys[k])
        return self.e.concat(v, w) if align == "<" else self.e.concat(w, v)

    def derive(self, op, text, fn, **facts):
        """The text a pure function of Python makes of a symbolic text."""
        text = self.e.simp(text) if isinstance(text, SStr) else text
        if isinstance(text, str):
            try:
                return fn(text)
            except Exception as x:
                raise PyExc(x) from None
        k = ("derived", op, tuple(text.pieces), ())
        if k not in self.e.store.keys:
            w = self.e.fresh(op, "text", **facts)
            self.e.setkey(k, w)
            self.e.setkey(("def", w), (fn, text))
        return SStr(self.e.store.keys[k])

    def str(self, v):
        v = self.force(v)
        if isinstance(v, (str, SStr)):
            return v
        if isinstance(v, SNum):
            return self.e.simp(v.text)
        if isinstance(v, SEnum):
            names = {}
            for m in v.cls:
                names.setdefault(str(m.value), str(m))
            x = self.e.simp(SStr(v.var))
            if not isinstance(x, str):
                self.e.fork_dom(x.pieces[0])
                x = self.e.simp(SStr(v.var))
            return names[x]
        if isinstance(v, SObj):
            if "__str__" in vars(v.cls) or not v.cls.__dataclass_params__.repr:
                raise Unsupported("str of an object")
            return SStr(v.cls.__qualname__ + "(", self.w.var(v.path + ":repr", "text", nonempty=True))
        if isinstance(v, SInt):
            return SStr(self.e.fresh("int", "num", nonempty=True, nows=True))
        if isinstance(v, (SJoin,)):
            return v
        if isinstance(v, Sym):
            raise Unsupported(f"str of {v}")
        if has_sym(v) or self.e.depth and dataclasses.is_dataclass(v) and not isinstance(v, type):
            if dataclasses.is_dataclass(v) and "__str__" not in vars(type(v)) and type(v).__dataclass_params__.repr:
                return SStr(type(v).__qualname__ + "(", self.e.fresh("repr", "text", nonempty=True))
            raise Unsupported("str of a structure")
        try:
            return str(v)
        except Exception as x:
            raise PyExc(x) from None

    def x_Attribute(self, fr, n):
        return self.attr(self.ev(fr, n.value), self.mangle(fr, n.attr))

    def attr(self, obj, name, default=MISSING):
        obj = self.force(obj)
        if isinstance(obj, (str, SStr, VList, dict, list, SList, SVars, tuple, set, frozenset, SJoin)) and not isinstance(obj, enum.Enum):
            base = self.pytype(obj)
            if isinstance(obj, tuple) and type(obj) is not tuple and name in getattr(type(obj), "_fields", ()):
                return getattr(obj, name)
            if hasattr(base, name) and name != "__dict__":
                if name in ("__class__", "__doc__"):
                    return base if name == "__class__" else None
                return Bound(obj, name)
            if default is not MISSING:
                return default
            raise PyExc(AttributeError(f"'{base.__name__}' object has no attribute '{name}'"))
        if isinstance(obj, SObj):
            if name == "__dict__":
                return SVars(obj)
            if name == "__class__":
                return obj.cls
            if name in obj.names():
                return obj.get(name)
            try:
                v = inspect.getattr_static(obj.cls, name)
            except AttributeError:
                if default is not MISSING:
                    return default
                raise PyExc(AttributeError(f"'{obj.cls.__name__}' object has no attribute '{name}'")) from None
            if isinstance(v, (types.FunctionType, property, classmethod, staticmethod)):
                if isinstance(v, types.FunctionType) and name.startswith("__"):
                    return Bound(obj, name)
                raise Unsupported(f"method {name} of a model class")
            return getattr(obj.cls, name)
        if isinstance(obj, SEnum):
            if name == "value" or name == "_value_":
                if not all(isinstance(m.value, str) for m in obj.cls):
                    raise Unsupported("enumeration of other values")
                return self.e.simp(SStr(obj.var))
            if name in ("name", "_name_"):
                x = self.e.simp(SStr(obj.var))
                if not isinstance(x, str):
                    self.e.fork_dom(x.pieces[0])
                    x = self.e.simp(SStr(obj.var))
                return next(m.name for m in obj.cls if str(m.value) == x)
            if name == "__class__":
                return obj.cls
            if name == "__dict__":
                return dict.fromkeys(vars(next(iter(obj.cls))), Opaque("enum attribute"))
            if hasattr(next(iter(obj.cls)), name):
                raise Unsupported(f"{name} of an enumeration")
            if default is not MISSING:
                return default
            raise PyExc(AttributeError(name))
        if isinstance(obj, SNum):
            if name == "__class__":
                return obj.cls
            if hasattr(obj.cls, name) and name != "__dict__":
                return Bound(obj, name)
            if default is not MISSING:
                return default
            raise PyExc(AttributeError(f"'{obj.cls.__name__}' object has no attribute '{name}'"))
        if isinstance(obj, Opaque):
            if "attr" in obj.info:
                r = obj.info["attr"](self, obj, name, default)
                if r is not NotImplemented:
                    return r
            return Bound(obj, name)
        if isinstance(obj, Sym):
            raise Unsupported(f"{name} of {obj}")
        if isinstance(obj, (SGen, IFunc, Bound)):
            if isinstance(obj, SGen) and name in ("__next__", "__iter__"):
                return Bound(obj, name)
            raise Unsupported(f"attribute {name}")
        # concrete objects
        prop = inspect.getattr_static(type(obj), name, None)
        if isinstance(prop, property) and in_repo(prop.fget):
            return self.call(prop.fget, (obj,), {})
        if isinstance(prop, functools.cached_property):
            raise Unsupported("cached property")
        try:
            return getattr(obj, name)
        except AttributeError as x:
            if default is not MISSING:
                return default
            raise PyExc(x) from None
        except Exception as x:
            raise PyExc(x) from None

    def x_Subscript(self, fr, n):
        return self.getitem(self.ev(fr, n.value), self.ev(fr, n.slice))

    def x_Slice(self, fr, n):
        f = lambda x: None if x is None else self.force(self.ev(fr, x))
        return slice(f(n.lower), f(n.upper), f(n.step))

    def x_Starred(self, fr, n):
        raise Unsupported("starred")

    def x_IfExp(self, fr, n):
        return self.ev(fr, n.body if self.truth(self.ev(fr, n.test)) else n.orelse)

    def x_BoolOp(self, fr, n):
        for i, v in enumerate(n.values):
            x = self.ev(fr, v)
            if i + 1 == len(n.values):
                return x
            t = self.truth(x)
            if isinstance(n.op, ast.And) and not t or isinstance(n.op, ast.Or) and t:
                return self.force(x)
        return x

    def x_UnaryOp(self, fr, n):
        v = self.force(self.ev(fr, n.operand))
        if isinstance(n.op, ast.Not):
            return not self.truth(v)
        if isinstance(v, SInt):
            if isinstance(n.op, ast.USub):
                return SInt(-v.z)
            raise Unsupported("operator")
        if is_sym(v):
            raise Unsupported("operator on a symbolic value")
        try:
            return {ast.USub: lambda x: -x, ast.UAdd: lambda x: +x, ast.Invert: lambda x: ~x}[type(n.op)](v)
        except Exception as x:
            raise PyExc(x) from None

    OPS = {
        ast.Add: lambda a, b: a + b, ast.Sub: lambda a, b: a - b, ast.Mult: lambda a, b: a * b, ast.Div: lambda a, b: a / b, ast.FloorDiv: lambda a, b: a // b,
        ast.Mod: lambda a, b: a % b, ast.Pow: lambda a, b: a ** b, ast.BitAnd: lambda a, b: a & b, ast.BitOr: lambda a, b: a | b, ast.BitXor: lambda a, b: a ^ b,
        ast.LShift: lambda a, b: a << b, ast.RShift: lambda a, b: a >> b,
    }

    def x_BinOp(self, fr, n):
        return self.binop(n.op, self.force(self.ev(fr, n.left)), self.force(self.ev(fr, n.right)))

    def binop(self, op, a, b):
        ta, tb = self.pytype(a), self.pytype(b)
        if isinstance(op, ast.Add) and ta is str and tb is str:
            if isinstance(a, SJoin) or isinstance(b, SJoin):
                raise Unsupported("concatenation with a text of unknown length")
            return self.e.concat(a, b)
        if isinstance(op, ast.Add) and ta is list and tb is list:
            x = [ForEach(a, [a.element()])] if isinstance(a, SList) else list(a)
            y = [ForEach(b, [b.element()])] if isinstance(b, SList) else list(b)
            self.read(a), self.read(b)
            return self.vlist(x + y)
        if isinstance(op, ast.Mod) and ta is str:
            return self.percent(a, b)
        if isinstance(a, SInt) or isinstance(b, SInt):
            if isinstance(op, (ast.Add, ast.Sub)) and (isinstance(a, (SInt, int)) and isinstance(b, (SInt, int))):
                za, zb = self.z(a), self.z(b)
                pos = None
                if isinstance(a, SInt) and a.pos and isinstance(b, int):
                    pos = (a.pos[0], a.pos[1], a.pos[2] + (b if isinstance(op, ast.Add) else -b))
                elif isinstance(b, SInt) and b.pos and isinstance(a, int) and isinstance(op, ast.Add):
                    pos = (b.pos[0], b.pos[1], b.pos[2] + a)
                return SInt(za + zb if isinstance(op, ast.Add) else za - zb, pos)
            raise Unsupported("arithmetic")
        if isinstance(op, ast.Mult) and (ta is list or tb is list or ta is str or tb is str):
            s, k = (a, b) if ta in (list, str) else (b, a)
            if isinstance(k, int):
                if isinstance(s, (str, SStr)):
                    return self.e.concat(*[s] * max(0, k)) if k > 0 else ""
                return self.vlist(list(s) * k)
        if is_sym(a) or is_sym(b):
            raise Unsupported(f"operator on {a!r:.40} and {b!r:.40}")
        if isinstance(a, tuple) or not (has_sym(a) or has_sym(b)):
            try:
                r = self.OPS[type(op)](a, b)
            except KeyError:
                raise Unsupported("operator") from None
            except Exception as x:
                raise PyExc(x) from None
            return self.new(r) if isinstance(r, (set, dict)) else r
        raise Unsupported("operator on structures")

    def percent(self, s, args):
        if not isinstance(s, str):
            raise Unsupported("% with a symbolic format")
        args = args if isinstance(args, tuple) else (args,)
        if not any(is_sym(a) for a in args):
            try:
                return s % args
            except Exception as x:
                raise PyExc(x) from None
        import re

        out, i = [], 0
        for m in re.finditer(r"%(-?)(\d*)(?:\.(\d+))?([s%])|%", s):
            out.append(s[i:m.start()])
            i = m.end()
            if m.group(4) == "%":
                out.append("%")
            elif m.group(4) == "s" and args:
                v, args = self.str(args[0]), args[1:]
                out.append(self.format(v, ("<" if m.group(1) else ">" if m.group(2) else "") + m.group(2) + ("." + m.group(3) if m.group(3) else "")))
            else:
                raise Unsupported("% format")
        return self.e.concat(*out, s[i:])

    def x_Compare(self, fr, n):
        if isinstance(n.left, ast.Subscript) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.Eq, ast.NotEq)):
            v, k = self.ev(fr, n.left.value), self.ev(fr, n.left.slice)
            b = self.ev(fr, n.comparators[0])
            r = self.end_is(v, k, b)
            if r is None:
                r = self.eq(self.getitem(v, k), b)
            return r if isinstance(n.ops[0], ast.Eq) else not r
        a = self.ev(fr, n.left)
        for op, c in zip(n.ops, n.comparators):
            b = self.ev(fr, c)
            if len(n.ops) == 1 and (isinstance(a, Lazy) or isinstance(b, Lazy)) and not isinstance(op, (ast.In, ast.NotIn, ast.Is, ast.IsNot)):
                return Lazy(lambda: self.compare(op, a, b))
            if not self.compare(op, a, b):
                return False
            a = b
        return True

    def end_is(self, v, k, lit):
        """v[k] == lit, decided by startswith and endswith where it is one of these (else None)."""
        if not isinstance(v, SStr) or not isinstance(lit, str):
            return None
        if isinstance(k, int) and not isinstance(k, bool) and k in (0, -1):
            if not self.e.truth(v):
                raise PyExc(IndexError("string index out of range"))
            if len(lit) != 1:
                return False
            return self.e.startswith(v, lit) if k == 0 else self.e.endswith(v, lit)
        if not isinstance(k, slice) or k.step not in (None, 1):
            return None
        if k.start in (None, 0) and type(k.stop) is int and k.stop > 0:
            n, fn = k.stop, self.e.startswith
        elif type(k.start) is int and k.start < 0 and k.stop is None:
            n, fn = -k.start, self.e.endswith
        else:
            return None
        if len(lit) == n:
            return fn(v, lit)
        return False if len(lit) > n else self.eq(v, lit)

    def compare(self, op, a, b):
        if isinstance(op, ast.Eq):
            return self.eq(a, b)
        if isinstance(op, ast.NotEq):
            return not self.eq(a, b)
        if isinstance(op, ast.Is):
            return self.same(a, b)
        if isinstance(op, ast.IsNot):
            return not self.same(a, b)
        if isinstance(op, ast.In):
            return self.contains(a, b)
        if isinstance(op, ast.NotIn):
            return not self.contains(a, b)
        a, b = self.force(a), self.force(b)
        if isinstance(a, SInt) or isinstance(b, SInt):
            za, zb = self.z(a), self.z(b)
            return self.e.ztruth({ast.Lt: za < zb, ast.LtE: za <= zb, ast.Gt: za > zb, ast.GtE: za >= zb}[type(op)])
        if is_sym(a) or is_sym(b) or has_sym(a) or has_sym(b):
            raise Unsupported(f"ordering of {a!r:.40} and {b!r:.40}")
        try:
            return {ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b, ast.Gt: lambda: a > b, ast.GtE: lambda: a >= b}[type(op)]()
        except Exception as x:
            raise PyExc(x) from None

    def x_NamedExpr(self, fr, n):
        v = self.ev(fr, n.value)
        f = fr
        while isinstance(f.node, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            f = f.parent
        self.store(f, n.target.id, v)
        return v

    def x_Lambda(self, fr, n):
        return IFunc(n, fr, [self.ev(fr, d) for d in n.args.defaults], [None if d is None else self.ev(fr, d) for d in n.args.kw_defaults], "<lambda>")

    def comp_frame(self, fr, n):
        names = set()
        for g in n.generators:
            for t in ast.walk(g.target):
                if isinstance(t, ast.Name):
                    names.add(t.id)
        return Frame(self, fr, fr.globals, fr.cls, n, names)

    def comp(self, fr, n, out, add):
        """Execute a comprehension; add(frame) is called for every combination."""
        f = self.comp_frame(fr, n)

        def level(i):
            if i == len(n.generators):
                add(f)
                return
            g = n.generators[i]
            src = self.ev(fr if i == 0 else f, g.iter)

            def one(x):
                self.assign(f, g.target, x)
                for c in g.ifs:
                    if not self.truth(self.ev(f, c)):
                        return CONTINUE
                level(i + 1)

            self.loop(n, src, one, f, set(f.locals))

        level(0)

    def loop(self, node, src, one, frame, assigned):
        """one(x) for every element of src; the signal of a break or return ends it."""
        src = self.force(src)
        if isinstance(src, SList):
            return self.foreach(node, src, one, assigned, frame)
        if isinstance(src, VList) and any(isinstance(x, (ForEach, Earlier)) for x in src):
            return self.loop_chunks(node, src, one, frame, assigned)
        if isinstance(src, VList) and any(isinstance(x, Case) for x in src) and self.merging and node not in self.nomerge:
            return self.loop_chunks(node, src, one, frame, assigned)
        for x in self.iterate(src):
            sig = self.loop_item(node, x, one, frame, assigned) if isinstance(x, (ForEach, Earlier)) else self.merged(node, lambda x=x: one(x))
            if sig not in (None, CONTINUE):
                return sig
        return None

    def loop_chunks(self, node, src, one, frame, assigned):
        self.read(src)
        for x in list(src):
            sig = self.loop_item(node, x, one, frame, assigned)
            if sig not in (None, CONTINUE):
                return sig
        return None

    def loop_item(self, node, x, one, frame, assigned):
        if isinstance(x, Case):
            def run():
                for y in self.pick(x):
                    sig = self.loop_item(node, y, one, frame, assigned)
                    if sig not in (None, CONTINUE):
                        return sig

            return self.merged(node, run)
        if isinstance(x, ForEach):
            def body(elem):
                for y in x.items:
                    sig = self.loop_item(node, y, one, frame, assigned)
                    if sig not in (None, CONTINUE):
                        return sig

            return self.foreach(node, x.src, body, assigned, frame)
        if isinstance(x, Earlier):
            raise Unsupported("loop over what earlier iterations did")
        return self.merged(node, lambda: one(x))

    def x_ListComp(self, fr, n):
        out = self.vlist()
        self.comp(fr, n, out, lambda f: self.append(out, [self.ev(f, n.elt)]))
        return out

    def x_SetComp(self, fr, n):
        out = self.vlist()
        self.comp(fr, n, out, lambda f: self.append(out, [self.ev(f, n.elt)]))
        if has_sym(list(out)):
            raise Unsupported("set of symbolic values")
        return self.new(set(out))

    def x_DictComp(self, fr, n):
        out = self.vlist()
        self.comp(fr, n, out, lambda f: self.append(out, [(self.force(self.ev(f, n.key)), self.ev(f, n.value))]))
        if any(isinstance(x, Chunk) or is_sym(x[0]) for x in out):
            raise Unsupported("dictionary with symbolic keys")
        return self.new(dict(out))

    def x_GeneratorExp(self, fr, n):
        f = self.comp_frame(fr, n)
        first = self.force(self.ev(fr, n.generators[0].iter))

        def gen(i):
            if i == len(n.generators):
                yield self.ev(f, n.elt)
                return
            g = n.generators[i]
            src = first if i == 0 else self.ev(f, g.iter)
            for x in self.iterate(src, chunks=True):
                if isinstance(x, (ForEach, Earlier)):
                    if not g.ifs:
                        if len(n.generators) == 1 and isinstance(x, ForEach):
                            yield from self.gen_chunk(f, n, g, x)
                            continue
                        raise Unsupported("generator over a list of unknown length")

                    def pred(it):
                        self.assign(f, g.target, it)
                        return all(self.truth(self.ev(f, c)) for c in g.ifs)

                    if isinstance(x, Earlier):
                        free = {y.id for c in g.ifs for y in ast.walk(c) if isinstance(y, ast.Name)} - {y.id for y in ast.walk(g.target) if isinstance(y, ast.Name)}
                        pred.key = id(g)
                        fr2 = f
                        while fr2 is not None:
                            if free & set(fr2.vars):
                                pred.key = None
                            fr2 = fr2.parent
                        if pred.key is None or all(getattr(q, "key", None) != pred.key for q in x.filters):
                            x.filters.append(pred)
                        continue
                    if self.all_false(x.items, pred):
                        continue
                    raise Unsupported("generator over a list of unknown length")
                self.assign(f, g.target, x)
                if all(self.truth(self.ev(f, c)) for c in g.ifs):
                    yield from gen(i + 1)

        return SGen(gen(0))

    def gen_chunk(self, f, n, g, x):
        tmp = self.vlist()

        def one(it):
            self.assign(f, g.target, it)
            self.append(tmp, [self.ev(f, n.elt)])

        self.loop_item(n, x, one, f, set(f.locals))
        yield from list(tmp)

    def x_Await(self, fr, n):
        raise Unsupported("await")

    # calls ----------------------------------------------------------------------------
    def x_Call(self, fr, n):
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            raise Unsupported("super()")
        f = self.ev(fr, n.func)
        args = self.elts(fr, n.args)
        if any(isinstance(a, Chunk) for a in args):
            raise Unsupported("arguments of unknown number")
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                d = self.force(self.ev(fr, k.value))
                if not isinstance(d, dict):
                    raise Unsupported("** of a symbolic value")
                kw.update(d)
            else:
                kw[k.arg] = self.ev(fr, k.value)
        if f is vars and not args or f in (locals, globals) if callable(f) and not isinstance(f, Sym) else False:
            raise Unsupported("locals()")
        return self.call(f, tuple(args), kw)

    def call(self, f, args, kw):
        self.depth += 1
        if self.depth > 120:
            self.depth -= 1
            raise Unsupported("recursion too deep")
        try:
            return self.call_(self.force(f), args, kw)
        finally:
            self.depth -= 1

    def call_(self, f, args, kw):
        if isinstance(f, IFunc):
            return self.run_function(f.node, f.frame, f.frame.globals, f.frame.cls, args, kw, f.defaults, f.kwdefaults, f.name, None)
        if isinstance(f, Callable_):
            return f.fn(self, args, kw)
        if isinstance(f, Bound):
            return self.method(f.obj, f.name, list(args), dict(kw))
        if isinstance(f, functools.partial):
            return self.call(f.func, f.args + args, {**f.keywords, **kw})
        if isinstance(f, Sym):
            raise Unsupported(f"call of {f}")
        try:
            h = self.stubs.get(f)
        except TypeError:
            h = None
        if h is not None:
            return h(self, args, kw)
        if isinstance(f, types.MethodType):
            if in_repo(f.__func__):
                return self.call(f.__func__, (f.__self__,) + args, kw)
            h = self.method_stubs.get((type(f.__self__).__name__, f.__name__))
            if h is not None:
                return h(self, f.__self__, *args, **kw)
        if isinstance(f, types.FunctionType) and in_repo(f):
            h = self.stubs.get(f.__qualname__)
            if h is not None:
                return h(self, args, kw)
            fn = source_index(f.__code__.co_filename).get((f.__name__ if f.__name__ != "<lambda>" else "<lambda>", f.__code__.co_firstlineno))
            if fn is None:
                raise Unsupported(f"no source for {f.__qualname__}")
            self.functions.add(f"{os.path.relpath(f.__code__.co_filename, env.REPO)}:{f.__qualname__}")
            defaults = list(f.__defaults__ or ())
            a = fn.node.args
            kwd = [(f.__kwdefaults__ or {}).get(x.arg, MISSING) for x in a.kwonlyargs]
            return self.run_function(fn.node, None, f.__globals__, fn.cls, args, kw, defaults, kwd, f.__name__, f)
        if isinstance(f, type):
            return self.construct(f, args, kw)
        return self.native(f, args, kw)

    def construct(self, cls, args, kw):
        m = BUILTIN_CALLS.get(cls)
        if m is not None:
            return m(self, args, kw)
        init = inspect.getattr_static(cls, "__init__", None)
        if isinstance(cls, type) and issubclass(cls, enum.Enum):
            x = self.force(args[0])
            if isinstance(x, SStr):
                for mem in cls:
                    if isinstance(mem.value, str) and self.eq(x, mem.value):
                        return mem
                raise PyExc(ValueError("not a valid member"))
            return self.native(cls, args, kw)
        if isinstance(init, types.FunctionType) and in_repo(init) and not dataclasses.is_dataclass(cls):
            obj = self.new(object.__new__(cls))
            self.call(init, (obj,) + args, kw)
            return obj
        if dataclasses.is_dataclass(cls) and in_repo_class(cls):
            if "__post_init__" in dir(cls):
                raise Unsupported("__post_init__")
            args = tuple(self.force(a) if isinstance(a, SOpt) else a for a in args)
            try:
                obj = self.new(cls(*args, **kw))
            except Exception as x:
                raise PyExc(x) from None
            for i, f in enumerate(f for f in dataclasses.fields(cls) if f.init):
                if f.default_factory in (list, dict, set) and i >= len(args) and f.name not in kw:
                    self.new(getattr(obj, f.name))
            return obj
        if cls.__init__ is object.__init__ and in_repo_class(cls):
            return self.new(self.native(cls, args, kw))
        if issubclass(cls, BaseException):
            return cls(*[a if not is_sym(a) else "…" for a in args])
        if issubclass(cls, tuple) and hasattr(cls, "_fields"):
            return cls(*args, **kw)
        return self.native(cls, args, kw)

    def native(self, f, args, kw):
        try:
            m = BUILTIN_CALLS.get(f)
        except TypeError:
            m = None
        if m is not None:
            return m(self, args, kw)
        owner = getattr(f, "__self__", None)
        if owner is not None and not isinstance(owner, types.ModuleType):
            h = self.method_stubs.get((type(owner).__name__, f.__name__))
            if h is not None:
                return h(self, owner, *args, **kw)
            if isinstance(owner, type) and (owner, f.__name__) == (dict, "fromkeys"):
                return self.new(dict.fromkeys(self.iterate(args[0]), *args[1:]))
        if isinstance(f, types.MethodDescriptorType) and args:
            return self.method(self.force(args[0]), f.__name__, list(args[1:]), kw)
        if any(isinstance(a, (IFunc, SGen, Bound)) for a in list(args) + list(kw.values())):
            raise Unsupported(f"call of {name_of(f)} with a function")
        args = tuple(self.force(a) for a in args)
        kw = {k: self.force(v) for k, v in kw.items()}
        if any(is_sym(a) or has_sym(a) for a in list(args) + list(kw.values())):
            raise Unsupported(f"call of {name_of(f)} with symbolic arguments")
        try:
            pure = f in PURE or isinstance(owner, type) and f.__name__ in ("__subclasses__", "mro")
        except TypeError:
            pure = False
        if not pure:
            self.impure(name_of(f))
        try:
            return self.wrap(f(*args, **kw))
        except (Unsupported, Infeasible, Remerge, NotMergeable, PyExc):
            raise
        except Exception as x:
            raise PyExc(x) from None

    def wrap(self, v):
        if type(v) is list:
            return self.vlist(v)
        return v

    def run_function(self, node, parent, globs, cls, args, kw, defaults, kwdefaults, name, func):
        locs, nonl, gl = stored_names(node)
        fr = Frame(self, parent, globs, cls, node, locs, func)
        fr.nonlocals, fr.globs = nonl, gl
        a = node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        vals = dict(zip(params, args))
        extra = args[len(params):]
        if extra and a.vararg is None:
            raise PyExc(TypeError(f"{name}() takes {len(params)} positional arguments but {len(args)} were given"))
        kw = dict(kw)
        for p in params + [x.arg for x in a.kwonlyargs]:
            if p in kw:
                if p in vals:
                    raise PyExc(TypeError(f"{name}() got multiple values for argument '{p}'"))
                vals[p] = kw.pop(p)
        if kw and a.kwarg is None:
            raise PyExc(TypeError(f"{name}() got an unexpected keyword argument '{next(iter(kw))}'"))
        for p, d in zip(params[len(params) - len(defaults):], defaults):
            vals.setdefault(p, d)
        for p, d in zip(a.kwonlyargs, kwdefaults):
            if p.arg not in vals and d is not MISSING:
                vals[p.arg] = d
        for p in params + [x.arg for x in a.kwonlyargs]:
            if p not in vals:
                raise PyExc(TypeError(f"{name}() missing required argument: '{p}'"))
        if a.vararg:
            vals[a.vararg.arg] = tuple(extra)
        if a.kwarg:
            vals[a.kwarg.arg] = self.new(kw)
        fr.vars.update(vals)
        if isinstance(node, ast.Lambda):
            return self.ev(fr, node.body)
        self.frames.append(fr)
        try:
            if is_generator(node):
                out = self.vlist()
                fr.vars["$yield"] = out
                self.block(fr, node.body)
                return out
            sig = self.block(fr, node.body)
        finally:
            self.frames.pop()
        if sig == RETURN:
            return fr.vars.get("$return")
        return None

    def x_Yield(self, fr, n):
        v = self.ev(fr, n.value) if n.value is not None else None
        self.append(fr.vars["$yield"], [v])

    def x_YieldFrom(self, fr, n):
        self.append(fr.vars["$yield"], list(self.iterate(self.ev(fr, n.value), chunks=True)))

    # statements ----------------------------------------------------------------------
    def block(self, fr, body):
        for s in body:
            self.steps += 1
            m = getattr(self, "s_" + type(s).__name__, None)
            if m is None:
                raise Unsupported(f"statement {type(s).__name__}")
            sig = m(fr, s)
            if sig is not None:
                return sig
        return None

    def s_Expr(self, fr, n):
        self.ev(fr, n.value)

    def s_Pass(self, fr, n):
        pass

    def s_Return(self, fr, n):
        v = self.ev(fr, n.value) if n.value is not None else None
        self.setlocal(fr, "$return", v)
        return RETURN

    def s_Break(self, fr, n):
        return BREAK

    def s_Continue(self, fr, n):
        return CONTINUE

    def s_Assign(self, fr, n):
        v = self.ev(fr, n.value)
        for t in n.targets:
            self.assign(fr, t, v)

    def s_AnnAssign(self, fr, n):
        if n.value is not None:
            self.assign(fr, n.target, self.ev(fr, n.value))

    def s_AugAssign(self, fr, n):
        t = n.target
        if isinstance(t, ast.Name):
            cur = self.load(fr, t.id)
            put = lambda v: self.store(fr, t.id, v)
        elif isinstance(t, ast.Attribute):
            obj = self.force(self.ev(fr, t.value))
            cur = self.attr(obj, self.mangle(fr, t.attr))
            put = lambda v: self.setattr_(obj, self.mangle(fr, t.attr), v)
        elif isinstance(t, ast.Subscript):
            obj, k = self.force(self.ev(fr, t.value)), self.ev(fr, t.slice)
            cur = self.getitem(obj, k)
            put = lambda v: self.setitem(obj, k, v)
        else:
            raise Unsupported("augmented assignment")
        v = self.ev(fr, n.value)
        cur = self.force(cur)
        if isinstance(cur, list) and isinstance(n.op, ast.Add):
            self.method(cur, "extend", [v], {})
            return
        if isinstance(cur, SList):
            self.input_write(cur, "+=", v)
        if isinstance(cur, (dict, set)):
            raise Unsupported("augmented assignment")
        put(self.binop(n.op, cur, self.force(v)))

    def s_If(self, fr, n):
        return self.block(fr, n.body if self.truth(self.ev(fr, n.test)) else n.orelse)

    def s_For(self, fr, n):
        src = self.force(self.ev(fr, n.iter))

        def one(x):
            self.assign(fr, n.target, x)
            return self.block(fr, n.body)

        assigned = set()
        for b in [n.target] + n.body:
            for w in ast.walk(b):
                if isinstance(w, ast.Name) and isinstance(w.ctx, ast.Store):
                    assigned.add(w.id)
        sig = self.loop(n, src, one, fr, assigned)
        if sig == BREAK:
            return None
        if sig == RETURN:
            return sig
        if n.orelse:
            return self.block(fr, n.orelse)
        return None

    def s_While(self, fr, n):
        count = 0
        while self.truth(self.ev(fr, n.test)):
            count += 1
            if count > 3000:
                raise Unsupported("loop does not end")
            sig = self.block(fr, n.body)
            if sig == BREAK:
                return None
            if sig == RETURN:
                return sig
        if n.orelse:
            return self.block(fr, n.orelse)
        return None

    def s_Raise(self, fr, n):
        if n.exc is None:
            cur = fr.vars.get("$exc")
            raise PyExc(cur if cur is not None else RuntimeError("No active exception to reraise"))
        x = self.force(self.ev(fr, n.exc))
        if isinstance(x, type) and issubclass(x, BaseException):
            x = x()
        if not isinstance(x, BaseException):
            raise Unsupported("raise of a symbolic value")
        if n.cause is not None:
            self.ev(fr, n.cause)
        raise PyExc(x)

    def s_Try(self, fr, n):
        sig = None
        try:
            try:
                sig = self.block(fr, n.body)
            except PyExc as x:
                for h in n.handlers:
                    t = self.force(self.ev(fr, h.type)) if h.type is not None else BaseException
                    if isinstance(t, (list,)):
                        t = tuple(t)
                    if isinstance(x.exc, t):
                        if h.name:
                            self.setlocal(fr, h.name, x.exc)
                        old = fr.vars.get("$exc", MISSING)
                        fr.vars["$exc"] = x.exc
                        try:
                            sig = self.block(fr, h.body)
                        finally:
                            if old is MISSING:
                                fr.vars.pop("$exc", None)
                            else:
                                fr.vars["$exc"] = old
                        break
                else:
                    raise
            else:
                if n.orelse and sig is None:
                    sig = self.block(fr, n.orelse)
        except PyExc:
            if n.finalbody:
                s2 = self.block(fr, n.finalbody)
                if s2 is not None:
                    return s2
            raise
        if n.finalbody:
            s2 = self.block(fr, n.finalbody)
            if s2 is not None:
                return s2
        return sig

    def s_With(self, fr, n):
        entered = []
        for it in n.items:
            m = self.force(self.ev(fr, it.context_expr))
            v = self.method_or_call(m, "__enter__", [])
            entered.append(m)
            if it.optional_vars is not None:
                self.assign(fr, it.optional_vars, v)
        try:
            sig = self.block(fr, n.body)
        except PyExc as x:
            for m in reversed(entered):
                if self.truth(self.method_or_call(m, "__exit__", [type(x.exc), x.exc, None])):
                    return None
            raise
        for m in reversed(entered):
            self.method_or_call(m, "__exit__", [None, None, None])
        return sig

    def method_or_call(self, obj, name, args):
        if isinstance(obj, Sym):
            return self.method(obj, name, args, {})
        return self.call(getattr(obj, name), tuple(args), {})

    def s_FunctionDef(self, fr, n):
        if n.decorator_list:
            raise Unsupported("decorated inner function")
        f = IFunc(n, fr, [self.ev(fr, d) for d in n.args.defaults], [MISSING if d is None else self.ev(fr, d) for d in n.args.kw_defaults], n.name)
        self.store(fr, n.name, f)

    def s_Delete(self, fr, n):
        for t in n.targets:
            if isinstance(t, ast.Name):
                if t.id in fr.vars:
                    self.dellocal(fr, t.id)
            elif isinstance(t, ast.Subscript):
                obj, k = self.force(self.ev(fr, t.value)), self.force(self.ev(fr, t.slice))
                if isinstance(obj, SVars):
                    self.input_write(obj.obj, k)
                if isinstance(obj, SList):
                    self.input_write(obj, "del")
                if isinstance(obj, dict):
                    if is_sym(k) or k not in obj:
                        raise Unsupported("del")
                    self.setdict(obj, k, MISSING)
                elif isinstance(obj, VList) and not obj.chunky():
                    new = list(obj)
                    try:
                        del new[self.slice(k) if isinstance(k, slice) else self.index(k)]
                    except IndexError as x:
                        raise PyExc(x) from None
                    self.replace(obj, new)
                else:
                    raise Unsupported("del")
            else:
                raise Unsupported("del")

    def s_Assert(self, fr, n):
        if not self.truth(self.ev(fr, n.test)):
            raise PyExc(AssertionError())

    def s_Nonlocal(self, fr, n):
        pass

    def s_Global(self, fr, n):
        raise Unsupported("global")

    def s_Import(self, fr, n):
        import importlib

        for a in n.names:
            m = importlib.import_module(a.name)
            self.store(fr, a.asname or a.name.split(".")[0], m if a.asname else importlib.import_module(a.name.split(".")[0]))

    def s_ImportFrom(self, fr, n):
        import importlib

        m = importlib.import_module(n.module)
        for a in n.names:
            self.store(fr, a.asname or a.name, getattr(m, a.name))

    # methods of built-in values -----------------------------------------------------------
    def method(self, obj, name, args, kw):
        obj = self.force(obj)
        if isinstance(obj, Opaque):
            h = obj.info.get("methods", {}).get(name)
            if h is None:
                raise Unsupported(f"{name} of {obj}")
            return h(self, obj, *args, **kw)
        if isinstance(obj, SGen):
            if name == "__next__":
                return BUILTIN_CALLS[next](self, (obj,), {})
            return obj
        if isinstance(obj, (str, SStr)):
            return self.str_method(obj, name, [self.force(a) for a in args], kw)
        if isinstance(obj, SNum):
            if any(is_sym(a) for a in args):
                raise Unsupported(f"{name} of a number")
            if name in ("is_nan", "is_infinite", "is_zero", "is_signed", "is_finite"):
                if name == "is_zero":
                    return not self.truth(obj)
                if name == "is_signed":
                    raise Unsupported("sign")
                return name == "is_finite"
            if name in ("normalize", "quantize", "to_eng_string", "__str__", "__format__", "to_integral_value", "__neg__", "__abs__", "canonical", "copy_abs"):
                fn = lambda t: str(getattr(obj.cls(t), name)(*args, **kw))
                t = self.derive(f"{name}{args}", obj.text, fn)
                return t if name in ("to_eng_string", "__str__", "__format__") else SNum(obj.cls, SStr(t) if isinstance(t, str) else t, obj.path)
            raise Unsupported(f"{name} of a number")
        if isinstance(obj, SVars):
            d = obj.obj
            if name == "keys":
                return self.vlist(d.own())
            if name == "values":
                return self.vlist([d.get(n) for n in d.own()])
            if name == "items":
                return self.vlist([(n, d.get(n)) for n in d.own()])
            if name == "get":
                for n in d.own():
                    if self.eq(n, args[0]):
                        return d.get(n)
                return args[1] if len(args) > 1 else None
            if name == "copy":
                return self.new({n: d.get(n) for n in d.own()})
            if name in ("pop", "clear", "update", "popitem", "setdefault", "__setitem__", "__delitem__"):
                self.input_write(d, name, args)
            raise Unsupported(f"{name} of vars()")
        if isinstance(obj, SList):
            if name in ("append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse"):
                self.input_write(obj, name, args)
            if name == "copy":
                return self.vlist([ForEach(obj, [obj.element()])])
            if name in ("__len__",):
                return BUILTIN_CALLS[len](self, (obj,), {})
            raise Unsupported(f"{name} of {obj.path}")
        if isinstance(obj, list):
            return self.list_method(obj, name, args, kw)
        if isinstance(obj, dict):
            return self.dict_method(obj, name, args, kw)
        if isinstance(obj, (set, frozenset)):
            if name in ("add", "discard", "remove", "update") and isinstance(obj, set):
                self.impure(f"set.{name}") if self.merge_depth else None
                old = set(obj)
                new = set(obj)
                if has_sym(obj) or any(has_sym(a) for a in args):
                    # texts are kept by identity; equal ones are found by comparing
                    if any(isinstance(a, Chunk) for a in args) or len(args) != 1:
                        raise Unsupported("set of symbolic values")
                    for x in list(self.iterate(args[0])) if name == "update" else args:
                        x = self.force(x)
                        if is_sym(x) and not isinstance(x, SStr) or not is_sym(x) and has_sym(x):
                            raise Unsupported("set of symbolic values")
                        y = next((y for y in new if self.eq(x, y.v if isinstance(y, Held) else y)), None)
                        if name in ("add", "update"):
                            if y is None:
                                new.add(Held(x) if is_sym(x) else x)
                        elif y is not None:
                            new.remove(y)
                        elif name == "remove":
                            raise PyExc(KeyError("symbolic key"))
                else:
                    try:
                        getattr(new, name)(*args)
                    except Exception as x:
                        raise PyExc(x) from None

                def put(v):
                    obj.clear()
                    obj.update(v)

                self.journal("set", obj, lambda: put(old), lambda: put(new))
                return None
            if name != "copy" and (has_sym(obj) or any(has_sym(a) for a in args)):
                raise Unsupported(f"set.{name} of symbolic values")
            r = getattr(obj, name)(*[a if not isinstance(a, VList) else list(a) for a in args])
            return self.new(r) if isinstance(r, set) else r
        if isinstance(obj, tuple):
            if name == "index":
                for i, x in enumerate(obj):
                    if self.eq(x, args[0]):
                        return i
                raise PyExc(ValueError("tuple.index(x): x not in tuple"))
            if name == "count":
                return sum(1 for x in obj if self.eq(x, args[0]))
            return getattr(obj, name)(*args, **kw)
        if isinstance(obj, SJoin):
            raise Unsupported(f"{name} of a text of unknown length")
        if isinstance(obj, SObj):
            raise Unsupported(f"{name} of {obj}")
        return self.call(getattr(obj, name), tuple(args), kw)

    def list_method(self, l, name, args, kw):
        if name in ("append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "__iadd__", "__setitem__", "__delitem__"):
            if not isinstance(l, VList):
                self.impure(f"list.{name}")
        if name == "append":
            self.append(l, [args[0]])
            return None
        if name == "extend":
            src = self.force(args[0])
            if isinstance(src, SList):
                self.append(l, [ForEach(src, [src.element()])])
            else:
                self.append(l, list(self.iterate_keep(src)))
            return None
        self.read(l)
        if any(isinstance(x, Case) for x in l) and name in ("insert", "pop", "remove", "reverse", "sort", "__setitem__", "__delitem__"):
            self.replace(l, self.settle(l))
        chunky = any(isinstance(x, Chunk) for x in l)
        if name == "insert":
            i = self.index(args[0])
            if chunky and (i < 0 or any(isinstance(x, Chunk) for x in l[:i])):
                raise Unsupported("insert into a list of unknown length")
            new = list(l)
            new.insert(i, args[1])
            self.replace(l, new)
            return None
        if name == "copy":
            return self.vlist(list(l))
        if name == "clear":
            self.replace(l, [])
            return None
        if name == "reverse":
            if chunky:
                raise Unsupported("reverse")
            self.replace(l, list(l)[::-1])
            return None
        if name == "pop":
            i = self.index(args[0]) if args else -1
            new = list(l)
            if not new:
                raise PyExc(IndexError("pop from empty list"))
            if chunky and (isinstance(new[i], Chunk) or i not in (0, -1)):
                raise Unsupported("pop from a list of unknown length")
            try:
                x = new.pop(i)
            except IndexError as x:
                raise PyExc(x) from None
            self.replace(l, new)
            return x
        if chunky:
            if name in ("index", "count", "remove", "sort"):
                raise Unsupported(f"{name} of a list of unknown length")
        if name == "index":
            start = self.index(args[1]) if len(args) > 1 else 0
            stop = self.index(args[2]) if len(args) > 2 else len(l)
            if start < 0:
                start = max(0, start + len(l))
            for i in range(start, min(stop, len(l))):
                if self.eq(l[i], args[0]):
                    return i
            raise PyExc(ValueError(f"{args[0]!r:.50} is not in list"))
        if name == "count":
            return sum(1 for x in l if self.eq(x, args[0]))
        if name == "remove":
            for i, x in enumerate(l):
                if self.eq(x, args[0]):
                    self.replace(l, l[:i] + l[i + 1:])
                    return None
            raise PyExc(ValueError("list.remove(x): x not in list"))
        if name == "sort":
            if has_sym(list(l)) or kw:
                raise Unsupported("sort")
            self.replace(l, sorted(l))
            return None
        if name == "__len__":
            return BUILTIN_CALLS[len](self, (l,), {})
        if name in ("__iter__", "__contains__", "__getitem__"):
            return {"__iter__": lambda: SGen(self.iterate(l)), "__contains__": lambda: self.contains(args[0], l), "__getitem__": lambda: self.getitem(l, args[0])}[name]()
        raise Unsupported(f"list.{name}")

    def iterate_keep(self, src):
        """Elements, with chunks as they are."""
        src = self.force(src)
        if isinstance(src, VList) or isinstance(src, list):
            self.read(src)
            return list(src)
        return list(self.iterate(src, chunks=True))

    def dict_method(self, d, name, args, kw):
        if name == "keys":
            return self.vlist(list(d)) if not d or any(is_sym(k) for k in d) else d.keys()
        if name == "values":
            return self.vlist(list(d.values()))
        if name == "items":
            return self.vlist(list(d.items()))
        if name == "get":
            k = self.force(args[0])
            if is_sym(k) or any(is_sym(x) for x in d):
                for x in list(d):
                    if self.eq(x, k):
                        return d[x]
                return args[1] if len(args) > 1 else None
            try:
                return d.get(k, *args[1:])
            except TypeError as x:
                raise PyExc(x) from None
        if name == "copy":
            return self.new(dict(d))
        if name == "pop":
            k = self.force(args[0])
            if is_sym(k):
                raise Unsupported("pop")
            if k not in d:
                if len(args) > 1:
                    return args[1]
                raise PyExc(KeyError(k))
            v = d[k]
            self.setdict(d, k, MISSING)
            return v
        if name == "setdefault":
            k = self.force(args[0])
            if is_sym(k):
                raise Unsupported("setdefault")
            if k not in d:
                self.setdict(d, k, args[1] if len(args) > 1 else None)
            return d[k]
        if name == "update":
            other = self.force(args[0]) if args else {}
            if isinstance(other, SVars):
                other = {n: other.obj.get(n) for n in other.obj.own()}
            for k, v in list(dict(other).items()) + list(kw.items()):
                self.setdict(d, k, v)
            return None
        if name in ("__contains__",):
            return self.contains(args[0], d)
        raise Unsupported(f"dict.{name}")

    def str_method(self, s, name, args, kw):
        e = self.e
        if isinstance(s, str) and not any(is_sym(a) or has_sym(a) for a in list(args) + list(kw.values())) and name != "join":
            args = [list(a) if isinstance(a, VList) else a for a in args]
            try:
                return self.wrap(getattr(s, name)(*args, **kw))
            except Exception as x:
                raise PyExc(x) from None
        if name in ("strip", "lstrip", "rstrip"):
            c = args[0] if args else None
            if is_sym(c):
                raise Unsupported("strip of symbolic characters")
            if name != "rstrip":
                s = e.lstrip(s, c)
            if name != "lstrip":
                s = e.rstrip(s, c)
            return s
        if name in ("startswith", "endswith"):
            opts = args[0] if isinstance(args[0], tuple) else (args[0],)
            if len(args) > 1 or any(is_sym(o) for o in opts):
                if len(args) == 1 and len(opts) == 1 and e.same(s, opts[0]):
                    return True
                raise Unsupported("startswith with a symbolic text")
            return any((e.startswith if name == "startswith" else e.endswith)(s, o) for o in opts)
        if name == "split" or name == "rsplit":
            sep = args[0] if args else kw.get("sep")
            ms = args[1] if len(args) > 1 else kw.get("maxsplit", -1)
            ms = self.force(ms)
            sep = self.force(sep)
            if is_sym(sep) or is_sym(ms):
                raise Unsupported("split at a symbolic text")
            if name == "rsplit":
                if sep is None or ms < 0:
                    if ms < 0:
                        return self.vlist(e.split(s, sep, -1))
                    raise Unsupported("rsplit")
                out = []
                while ms > 0:
                    r = e.partition(s, sep, last=True)
                    if r is None:
                        break
                    out.insert(0, r[1])
                    s, ms = r[0], ms - 1
                return self.vlist([s] + out)
            if sep == "\n" and self.split_stub is not None:
                r = self.split_stub(self, s)
                if r is not None:
                    return r
            return self.vlist(e.split(s, sep, ms))
        if name == "splitlines":
            if self.split_stub is not None:
                r = self.splitlines_stub(self, s) if self.splitlines_stub else None
                if r is not None:
                    return r
            raise Unsupported("splitlines")
        if name in ("partition", "rpartition"):
            if is_sym(args[0]):
                raise Unsupported("partition at a symbolic text")
            r = e.partition(s, args[0], last=name == "rpartition")
            if r is None:
                return (s, "", "") if name == "partition" else ("", "", s)
            return (r[0], args[0], r[1])
        if name in ("find", "index", "rfind", "rindex"):
            if len(args) > 1 or is_sym(args[0]):
                raise Unsupported("find")
            r = e.partition(s, args[0], last=name.startswith("r"))
            if r is None:
                if name.endswith("find"):
                    return -1
                raise PyExc(ValueError("substring not found"))
            n = e.length(r[0])
            if isinstance(n, int):
                return n
            return SInt(n, (s, r[0], 0))
        if name == "replace":
            if any(is_sym(a) for a in args):
                raise Unsupported("replace with a symbolic text")
            return e.replace(s, *args, **kw)
        if name == "upper":
            return e.upper(s)
        if name == "lower":
            return e.lower(s)
        if name in ("ljust", "rjust"):
            return self.pad(s, self.index(args[0]), "<" if name == "ljust" else ">", args[1] if len(args) > 1 else " ")
        if name == "join":
            src = self.force(args[0])
            if isinstance(src, SList):
                return SJoin(s, [ForEach(src, [src.element()])])
            items = self.iterate_keep(src)
            if any(isinstance(x, Chunk) for x in items):
                return SJoin(s, items)
            out = []
            for i, x in enumerate(items):
                x = self.force(x)
                if not isinstance(x, (str, SStr)):
                    raise PyExc(TypeError(f"sequence item {i}: expected str instance, {self.pytype(x)} found"))
                if i:
                    out.append(s)
                out.append(x)
            return self.joined(s, items) if self.joined else e.concat(*out) if out else ""
        if name in ("isnumeric", "isdigit", "isdecimal"):
            return e.isnumeric(s)
        if name == "isspace":
            t = e.lstrip(s)
            return e.truth(s) and not e.truth(t)
        if name == "isupper":
            ps = e.ps(s)
            if any(isinstance(p, str) and any(c.islower() for c in p) for p in ps):
                return False
            if len(ps) == 1 and e.F(ps[0]).dom is not None:
                return e.splitdom(ps[0], str.isupper, "upper case")
            raise Unsupported("isupper")
        if name == "encode":
            return Opaque("bytes", text=s, type=bytes, methods={"decode": lambda it, o, *a, **k: o.info["text"]})
        if name == "removeprefix":
            return e.cut(s, len(args[0]))[1] if e.startswith(s, args[0]) else s
        if name == "removesuffix":
            return e.rcut(s, len(args[0]))[0] if e.endswith(s, args[0]) else s
        if name == "format":
            return self.str_format(s, args, kw)
        if name == "count" and len(args) == 1 and isinstance(args[0], str):
            if not e.contains(s, args[0]):
                return 0
            raise Unsupported("count")
        if name in ("capitalize", "title", "casefold", "swapcase", "expandtabs") and not args:
            return self.derive(name, s, lambda t: getattr(t, name)())
        if name == "__str__":
            return s
        if name == "__contains__":
            return self.contains(args[0], s)
        if name == "__len__":
            return BUILTIN_CALLS[len](self, (s,), {})
        raise Unsupported(f"str.{name}")

    split_stub = None
    splitlines_stub = None
    joined = None

    def str_format(self, s, args, kw):
        import string

        if not isinstance(s, str):
            raise Unsupported("format of a symbolic text")
        out, auto = [], 0
        for lit, fieldn, spec, conv in string.Formatter().parse(s):
            out.append(lit)
            if fieldn is None:
                continue
            if fieldn == "":
                v = args[auto]
                auto += 1
            elif fieldn.isdigit():
                v = args[int(fieldn)]
            elif fieldn in kw:
                v = kw[fieldn]
            else:
                raise Unsupported("format field")
            if conv == "s":
                v = self.str(v)
            elif conv:
                raise Unsupported("format conversion")
            if "{" in (spec or ""):
                raise Unsupported("nested format")
            out.append(self.format(v, spec or ""))
        return self.e.concat(*out)


def has_sint(k):
    return any(isinstance(x, SInt) for x in (k.start, k.stop, k.step))


def name_of(f):
    return getattr(f, "__qualname__", None) or getattr(f, "__name__", repr(f))


def is_native(obj):
    return type(obj).__module__ == "builtins"


@functools.lru_cache(None)
def _real(p):
    return os.path.realpath(p)


def in_repo(f):
    c = getattr(f, "__code__", None)
    return c is not None and _real(c.co_filename).startswith(_real(env.REPO) + os.sep) if c is not None else False


def in_repo_class(c):
    return c.__module__.split(".")[0] == "ccsds_ndm"


# built-in functions --------------------------------------------------------------------
def b_len(it, a, k):
    if isinstance(a[0], Lazy):
        return Lazy(lambda: b_len(it, (a[0].get(it),), {}))
    v = it.force(a[0])
    if isinstance(v, (str, SStr)):
        n = it.e.length(v)
        return n if isinstance(n, int) else SInt(n)
    if isinstance(v, SList):
        it.w.ensure(v)
        return SInt(v.len)
    if isinstance(v, SVars):
        return len(v.obj.own())
    if isinstance(v, (VList, list)) and any(isinstance(x, Chunk) for x in v):
        it.read(v)
        n = 0
        for x in v:
            if isinstance(x, ForEach) and not any(isinstance(i, Chunk) for i in x.items):
                it.w.ensure(x.src)
                n = n + len(x.items) * x.src.len
            elif isinstance(x, Case):
                m = b_len(it, (it.vlist(it.pick(x)),), {})
                n = n + (m.z if isinstance(m, SInt) else m)
            elif isinstance(x, Chunk):
                raise Unsupported("length of a list")
            else:
                n = n + 1
        return n if isinstance(n, int) else SInt(n)
    if isinstance(v, VList):
        it.read(v)
    if isinstance(v, Sym):
        raise Unsupported(f"len of {v}")
    try:
        return len(v)
    except TypeError as x:
        raise PyExc(x) from None


def b_str(it, a, k):
    if not a:
        return ""
    v = it.force(a[0])
    if isinstance(v, Opaque) and v.what == "bytes":
        raise Unsupported("str of bytes")
    return it.str(v)


def b_repr(it, a, k):
    v = it.force(a[0])
    if is_sym(v):
        if isinstance(v, SObj):
            return it.str(v)
        if isinstance(v, SNum):
            return it.e.concat("Decimal('", v.text, "')") if v.cls is Decimal else v.text
        raise Unsupported("repr")
    if has_sym(v):
        return "…"
    return repr(v)


def b_isinstance(it, a, k):
    v, t = it.force(a[0]), a[1]
    ty = it.pytype(v)
    if ty is None:
        raise Unsupported(f"type of {v}")
    if isinstance(t, tuple):
        return any(b_isinstance(it, (v, x), {}) for x in t)
    t = it.force(t)
    if isinstance(t, types.UnionType):
        return any(b_isinstance(it, (v, x), {}) for x in t.__args__)
    if not isinstance(t, type):
        try:
            return isinstance(v, t) if not is_sym(v) else issubclass(ty, t)
        except TypeError as x:
            raise PyExc(x) from None
    try:
        return issubclass(ty, t)
    except TypeError as x:
        raise PyExc(x) from None


def b_type(it, a, k):
    if len(a) != 1:
        raise Unsupported("type() with three arguments")
    v = it.force(a[0])
    ty = it.pytype(v)
    if ty is None:
        raise Unsupported(f"type of {v}")
    return ty


def b_getattr(it, a, k):
    n = it.force(a[1])
    if is_sym(n):
        raise Unsupported("getattr with a symbolic name")
    return it.attr(a[0], n, *a[2:])


def b_hasattr(it, a, k):
    n = it.force(a[1])
    if is_sym(n):
        raise Unsupported("hasattr with a symbolic name")
    return it.attr(a[0], n, None) is not None if False else it.attr(a[0], n, MISSING2) is not MISSING2


MISSING2 = object()


def b_setattr(it, a, k):
    n = it.force(a[1])
    if is_sym(n):
        raise Unsupported("setattr with a symbolic name")
    it.setattr_(it.force(a[0]), n, a[2])


def b_vars(it, a, k):
    v = it.force(a[0])
    if isinstance(v, SObj):
        return SVars(v)
    if isinstance(v, SEnum):
        return it.attr(v, "__dict__")
    if is_sym(v):
        raise PyExc(TypeError("vars() argument must have __dict__ attribute")) if isinstance(v, (SStr, SNum, SList)) else Unsupported("vars")
    try:
        return vars(v)
    except TypeError as x:
        raise PyExc(x) from None


def b_dir(it, a, k):
    v = it.force(a[0])
    if isinstance(v, SObj):
        return it.vlist(sorted(set(dir(v.cls)) | set(v.names())))
    if isinstance(v, SEnum):
        return it.vlist(dir(next(iter(v.cls))))
    ty = it.pytype(v)
    if ty is None:
        raise Unsupported("dir")
    return it.vlist(dir(ty) if is_sym(v) or isinstance(v, VList) else dir(v))


def b_list(it, a, k):
    if not a:
        return it.vlist()
    v = it.force(a[0])
    if isinstance(v, SList):
        return it.vlist([ForEach(v, [v.element()])])
    return it.vlist(it.iterate_keep(v))


def b_tuple(it, a, k):
    if not a:
        return ()
    v = list(it.iterate(a[0]))
    return tuple(v)


def b_set(kind):
    def f(it, a, k):
        v = list(it.iterate(a[0])) if a else []
        if not it.merging and sum(map(is_sym, v)) > 1:
            return Lazy(lambda: build(it, v))
        return build(it, v)

    def build(it, v):
        out = []
        for x in v:
            if is_sym(x):
                # a set of texts: keep one of equal ones
                if any(it.eq(x, y) for y in out):
                    continue
                out.append(x)
            elif not any((is_sym(y) and it.eq(x, y)) or (not is_sym(y) and x == y) for y in out):
                out.append(x)
        if any(is_sym(x) for x in out):
            return it.vlist(out)  # order is not that of a set; only membership and length may be used
        return it.new(kind(out))

    return f


def b_dict(it, a, k):
    d = {}
    if a:
        v = it.force(a[0])
        if isinstance(v, SVars):
            d = {n: v.obj.get(n) for n in v.obj.own()}
        elif isinstance(v, dict):
            d = dict(v)
        else:
            for p in it.iterate(v):
                kk, vv = it.iterate(p)
                kk = it.force(kk)
                if is_sym(kk):
                    raise Unsupported("dictionary with symbolic keys")
                d[kk] = vv
    d.update(k)
    return it.new(d)


def b_iter(it, a, k):
    v = it.force(a[0])
    if len(a) > 1:
        raise Unsupported("iter with a sentinel")
    if isinstance(v, SGen):
        return v
    return SGen(it.iterate(v, chunks=True))


def b_next(it, a, k):
    g = it.force(a[0])
    if not isinstance(g, SGen):
        if is_sym(g):
            raise Unsupported("next")
        it.impure("next")
        try:
            return next(g, *a[1:])
        except StopIteration as x:
            raise PyExc(x) from None
    if it.merge_depth and it.age(g) == 0 and not getattr(g, "serial", 0):
        pass
    try:
        x = next(g.it)
    except StopIteration:
        if len(a) > 1:
            return a[1]
        raise PyExc(StopIteration()) from None
    if isinstance(x, Chunk):
        raise Unsupported("next of a list of unknown length")
    return x


def b_reversed(it, a, k):
    v = it.force(a[0])
    if isinstance(v, VList) and v.chunky():
        it.read(v)

        def gen():
            for x in reversed(list(v)):
                if isinstance(x, Chunk):
                    yield from it.split_chunk(x, True, rev=True)
                else:
                    yield x

        return SGen(gen())
    if isinstance(v, SList):
        raise Unsupported("reversed input list")
    if isinstance(v, VList):
        it.read(v)
    try:
        return SGen(iter(list(reversed(v))))
    except TypeError as x:
        raise PyExc(x) from None


def b_zip(it, a, k):
    its = [it.iterate(x) for x in a]
    strict = k.get("strict", False)

    def gen():
        while True:
            out = []
            for i, x in enumerate(its):
                try:
                    out.append(next(x))
                except StopIteration:
                    if strict and i:
                        raise PyExc(ValueError("zip() argument is shorter")) from None
                    return
            yield tuple(out)

    return SGen(gen())


def b_enumerate(it, a, k):
    start = it.index(a[1]) if len(a) > 1 else it.index(k.get("start", 0))
    v = it.force(a[0])
    if isinstance(v, SList):
        n = SInt(z3.Int("index of " + v.path))
        it.w.ensure(v)
        lst = ForEach(v, [(n, v.element())])
        return it.vlist([lst])

    def gen():
        i = start
        for x in it.iterate(v):
            yield (i, x)
            i += 1

    return SGen(gen())


def b_range(it, a, k):
    try:
        return range(*[it.index(x) for x in a])
    except (TypeError, ValueError) as x:
        raise PyExc(x) from None


def b_map(it, a, k):
    f, srcs = a[0], [it.iterate(x) for x in a[1:]]
    if len(srcs) == 1:
        v = it.force(a[1])
        if isinstance(v, SList) or isinstance(v, VList) and v.chunky():
            out = it.vlist()
            fr = it.frames[-1]
            it.loop(MAPNODE, v, lambda x: it.append(out, [it.call(f, (x,), {})]), fr, set())
            return SGen(iter(list(out)))

    def gen():
        while True:
            args = []
            for s in srcs:
                try:
                    args.append(next(s))
                except StopIteration:
                    return
            if len(args) == 1 and isinstance(args[0], ForEach):
                yield from chunk(it, args[0], lambda y: [it.call(f, (y,), {})])
                continue
            yield it.call(f, tuple(args), {})

    return SGen(gen())


MAPNODE = ast.parse("map").body[0]


def chunk(it, x, fn):
    """What fn gives for each of the elements which a chunk of a generator stands for."""
    out = it.vlist()
    fr = it.frames[-1]
    it.loop_item(MAPNODE, x, lambda y: it.append(out, fn(y)), fr, set())
    return list(out)


def b_filter(it, a, k):
    f = it.force(a[0])

    def gen():
        for x in it.iterate(a[1]):
            if isinstance(x, ForEach):
                yield from chunk(it, x, lambda y: [y] if it.truth(y if f is None else it.call(f, (y,), {})) else [])
            elif it.truth(x if f is None else it.call(f, (x,), {})):
                yield x

    v = it.force(a[1])
    if isinstance(v, SList) or isinstance(v, VList) and v.chunky():
        out = it.vlist()

        def one(x):
            if it.truth(x if f is None else it.call(f, (x,), {})):
                it.append(out, [x])

        it.loop(MAPNODE, v, one, it.frames[-1], set())
        return SGen(iter(list(out)))
    return SGen(gen())


def b_any(it, a, k):
    for x in it.iterate(a[0]):
        if it.truth(x):
            return True
    return False


def b_all(it, a, k):
    for x in it.iterate(a[0]):
        if not it.truth(x):
            return False
    return True


def b_bool(it, a, k):
    return it.truth(a[0]) if a else False


def b_sum(it, a, k):
    tot = it.force(a[1]) if len(a) > 1 else it.force(k.get("start", 0))
    for x in it.iterate(a[0]):
        tot = it.binop(ast.Add(), tot, it.force(x))
    return tot


def b_minmax(which):
    def f(it, a, k):
        vs = [it.force(x) for x in (it.iterate(a[0]) if len(a) == 1 else a)]
        key = k.get("key")
        if "default" in k and not vs:
            return k["default"]
        if any(isinstance(v, SInt) for v in vs) and key is None:
            best = vs[0]
            for v in vs[1:]:
                if it.compare(ast.Lt() if which is min else ast.Gt(), v, best):
                    best = v
            return best
        ks = [it.force(it.call(key, (v,), {})) for v in vs] if key is not None else vs
        if any(is_sym(x) or has_sym(x) for x in ks):
            raise Unsupported("min/max of symbolic values")
        try:
            best = which(range(len(vs)), key=lambda i: ks[i]) if vs else which([])
        except Exception as x:
            raise PyExc(x) from None
        return vs[best]

    return f


def b_sorted(it, a, k):
    vs = list(it.iterate(a[0]))
    key = k.get("key")
    ks = [it.force(it.call(key, (v,), {})) for v in vs] if key is not None else vs
    if any(is_sym(x) or has_sym(x) for x in ks):
        raise Unsupported("sort of symbolic values")
    try:
        idx = sorted(range(len(vs)), key=lambda i: ks[i], reverse=bool(k.get("reverse", False)))
    except Exception as x:
        raise PyExc(x) from None
    return it.vlist([vs[i] for i in idx])


def b_float(it, a, k):
    v = it.force(a[0]) if a else 0.0
    if isinstance(v, SStr):
        if it.e.is_number(v):
            return Opaque("float", text=v, type=float)
        raise PyExc(ValueError("could not convert string to float"))
    if isinstance(v, SNum):
        return Opaque("float", text=v.text, type=float)
    if is_sym(v):
        raise Unsupported("float")
    try:
        return float(v)
    except Exception as x:
        raise PyExc(x) from None


def b_int(it, a, k):
    v = it.force(a[0]) if a else 0
    if isinstance(v, SInt):
        return v
    if isinstance(v, SBool):
        return SInt(z3.If(v.z, 1, 0))
    if is_sym(v):
        raise Unsupported("int")
    try:
        return int(v, *a[1:])
    except Exception as x:
        raise PyExc(x) from None


def b_decimal(it, a, k):
    v = it.force(a[0]) if a else 0
    if isinstance(v, SNum) and v.cls is Decimal:
        return v
    if isinstance(v, SNum) and v.cls is int:
        return SNum(Decimal, v.text, v.path)
    if isinstance(v, SStr):
        if len(v.pieces) == 1 and it.e.F(v.pieces[0]).num:
            # the text of a decimal number, in the form str() gives
            f = it.e.F(v.pieces[0])
            if f.up and f.nows and f.only is not None:
                return SNum(Decimal, v, "decimal")
        raise Unsupported("Decimal of a text")
    if is_sym(v):
        raise Unsupported("Decimal")
    try:
        return Decimal(v)
    except Exception as x:
        raise PyExc(x) from None


def b_copy(deep):
    def f(it, a, k):
        v = it.force(a[0])
        if isinstance(v, (SStr, SNum, SEnum, SList)) or not is_sym(v):
            if isinstance(v, SList):
                return it.vlist([ForEach(v, [v.element()])])
            if isinstance(v, VList) and v.chunky():
                raise Unsupported("copy of a list of unknown length")
            r = copy.deepcopy(v) if deep else copy.copy(v)
            return renew(it, r)
        if isinstance(v, SObj):
            return v  # a copy is equal to it; the world does not tell them apart (writes to it are refused)
        raise Unsupported("copy")

    return f


def renew(it, v, depth=0):
    if isinstance(v, VList):
        it.new(v)
        for x in v:
            renew(it, x, depth + 1)
    elif isinstance(v, dict):
        it.new(v)
        for x in v.values():
            renew(it, x, depth + 1)
    elif dataclasses.is_dataclass(v) and not isinstance(v, type):
        it.new(v)
        for x in vars(v).values():
            renew(it, x, depth + 1)
    return v


def b_print(it, a, k):
    return None


def b_callable(it, a, k):
    v = it.force(a[0])
    return isinstance(v, (IFunc, Bound)) or not is_sym(v) and callable(v)


def b_format(it, a, k):
    return it.format(a[0], it.force(a[1]) if len(a) > 1 else "")


def b_chain(it, a, k):
    return SGen(itertools.chain.from_iterable(it.iterate(x, chunks=True) for x in a))


def b_chain_from(it, a, k):
    return SGen(itertools.chain.from_iterable(it.iterate(x, chunks=True) for x in it.iterate(a[0])))


def b_issubclass(it, a, k):
    if any(is_sym(x) for x in a):
        raise Unsupported("issubclass")
    try:
        return issubclass(*a)
    except TypeError as x:
        raise PyExc(x) from None


BUILTIN_CALLS = {
    len: b_len, str: b_str, repr: b_repr, isinstance: b_isinstance, type: b_type, getattr: b_getattr, hasattr: b_hasattr, setattr: b_setattr, vars: b_vars, dir: b_dir,
    list: b_list, tuple: b_tuple, set: b_set(set), frozenset: b_set(frozenset), dict: b_dict, iter: b_iter, next: b_next, reversed: b_reversed, zip: b_zip, enumerate: b_enumerate,
    range: b_range, map: b_map, filter: b_filter, any: b_any, all: b_all, bool: b_bool, sum: b_sum, min: b_minmax(min), max: b_minmax(max), sorted: b_sorted, float: b_float,
    int: b_int, Decimal: b_decimal, copy.copy: b_copy(False), copy.deepcopy: b_copy(True), print: b_print, callable: b_callable, format: b_format, itertools.chain: b_chain,
    itertools.chain.from_iterable: b_chain_from, issubclass: b_issubclass,
}


def starter(interp, fn):
    def start():
        interp.undo.clear()
        interp.ghost = VList()
        interp.ghost.serial = 0
        interp.reads = None
        interp.frames = []
        interp.depth = 0
        interp.merge_depth = 0
        return fn(interp)

    return start


def run(interp, fn, restarts=40, each=None):
    """Explore fn(interp) completely, executing again without merging where that is needed."""
    for _ in range(restarts):
        try:
            return interp.e.explore(starter(interp, fn), each)
        except Remerge as r:
            if r.node in interp.nomerge:
                raise Unsupported("a variable depends on the iterations of a loop")
            interp.nomerge.add(r.node)
    raise Unsupported("too many restarts")
