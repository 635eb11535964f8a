"""P16: reading a KVN text ends.

The obligations are generated by term.py from the sources of all functions which reading may call: a variant for each
`while` loop, a collection that is not extended for each `for` loop, a smaller measure for each recursive call, and
(by evaluation) that the measure exists: the classes of the messages do not contain each other in a circle."""
import dataclasses
import os
import random
import sys
import time
import typing

from .. import cases, kvnspec
from .core import Unsupported
from .term import MEASURE, Term


def types_in(t):
    """The classes in a type annotation."""
    args = typing.get_args(t)
    return {c for a in args for c in types_in(a)} if args else {t} if isinstance(t, type) else set()


class Heights:
    """The height of a class: one more than that of the types of its fields; 0 for all that is not a dataclass."""

    def __init__(self):
        self.known, self.open = {}, []

    def of(self, t):
        if not isinstance(t, type) or not dataclasses.is_dataclass(t):
            return max((self.of(a) for a in typing.get_args(t)), default=0)
        if t not in self.known:
            if t in self.open:
                raise ValueError(f"{t.__name__} contains itself")
            self.open.append(t)
            h = 0
            for f in vars(t).get("__dataclass_fields__", {}).values():
                if isinstance(f.type, str):
                    raise ValueError(f"the type of {t.__name__}.{f.name} is given as a text")
                h = max(h, 1 + self.of(f.type))
            self.open.pop()
            self.known[t] = h
        return self.known[t]


def model_classes():
    return sorted({c for n, m in list(sys.modules.items()) if n.startswith("ccsds_ndm.") and m is not None for c in vars(m).values() if isinstance(c, type) and dataclasses.is_dataclass(c) and c.__module__.startswith("ccsds_ndm.models")}, key=lambda c: (c.__module__, c.__qualname__))


class Watch:
    """Checks the inferred contracts on real calls."""

    def __init__(self, term):
        self.t, self.h = term, Heights()
        self.by_code = {c.fn.live.__code__: c for c in term.contracts.values() if c.fn.live is not None}
        self.calls, self.bad, self.stack = 0, None, []

    def comps(self, v, name, out, depth=0):
        if isinstance(v, bool):
            return
        if isinstance(v, int):
            out[name] = v
        elif isinstance(v, list):
            out["len " + name] = len(v)
        elif isinstance(v, type):
            out["height " + name] = self.h.of(v)
        elif type(v).__name__ in MEASURE:
            out["height " + name] = self.h.of(getattr(v, MEASURE[type(v).__name__]))
        elif isinstance(v, tuple) and depth < 3:
            for i, x in enumerate(v):
                self.comps(x, f"{name}.{i}", out, depth + 1)

    @staticmethod
    def holds(c, env):
        """Of a candidate whose values are all there."""
        if any(n not in env for n in c[1:]):
            return True
        a = env[c[1]]
        if c[0] == "0<=":
            return a >= 0
        if c[0] in ("max", "maxold"):
            return a <= max([0] + [x for n, x in env.items() if n.startswith("old~") and Term.numeric(n)])
        if c[0] == "max2":
            return a <= max(env[c[2]], env[c[3]])
        return a <= env[c[2]] if c[0] == "<=" else a < env[c[2]]

    def __call__(self, frame, event, arg):
        c = self.by_code.get(frame.f_code)
        if c is None or event not in ("call", "return"):
            return
        if event == "call":
            env = {}
            for n in c.params_order:
                if n in frame.f_locals:
                    self.comps(frame.f_locals[n], n, env)
            self.stack.append((frame, env))
            self.calls += 1
            for x in c.pre or ():
                if not self.holds(x, env):
                    self.bad = self.bad or f"{c.fn.name}: {x} does not hold where it is called: {env}"
            return
        while self.stack and self.stack[-1][0] is not frame:
            self.stack.pop()
        if not self.stack:
            return
        _, before = self.stack.pop()
        kind = {type(None): "['none']", bool: "['bool']", int: "['int']", list: "['list']"}.get(type(arg), f"[('rec', {len(arg)})]" if isinstance(arg, tuple) else "")
        if arg is None:
            return  # or an exception
        env = {}
        self.comps(arg, "result", env)
        env.update({"old~" + n: x for n, x in before.items()})
        for x in c.post.get(kind, ()):
            if not self.holds(x, env):
                self.bad = self.bad or f"{c.fn.name}: {x} does not hold where it returns: {env}"


def crosscheck(ctx, term):
    """The inferred contracts hold in real runs."""
    rng = random.Random(f"{ctx.seed}/p16/watch")
    texts = [t for _, t in cases.samples()["kvn"] if len(t) < 6000]
    for _, _, o in cases.seeds(ctx, 1, tag="p16w", probs=(0.5,)):
        texts.append(cases.render(kvnspec.expected(o)))
    w = Watch(term)
    from ..props import p16

    others = [x for t in texts for x in t.split("\n") if x.strip()]
    for t in texts + [p16.mutate(rng.choice(texts), others, rng) for _ in range(150)]:
        def one(t=t):
            sys.setprofile(w)
            try:
                ctx.kvn.NdmKvnIo().from_string(t)
            finally:
                sys.setprofile(None)

        p16.timed(one, 20)
        w.stack.clear()
    return w


def p16(ctx):
    def add(name, status, why="", **k):
        ctx.obligations.append({"name": name, "status": status, "why": why, "backends": {}, **k})

    # the measure
    h = Heights()
    classes = model_classes()
    for c in classes:
        try:
            add(f"the measure of {c.__name__} is above those of its items", "discharged" if h.of(c) >= 0 else "undecided", backends={"evaluation": 1})
        except ValueError as x:
            h.open.clear()
            add(f"the measure of {c.__name__} is above those of its items", "undecided", str(x))
    if not classes:
        add("the classes of the messages have a measure", "undecided", "no classes")
    sys.setrecursionlimit(max(20000, sys.getrecursionlimit()))
    t0 = time.time()
    root = os.path.dirname(os.path.abspath(ctx.kvn.__file__))
    term = Term(root, (ctx.kvn.NdmKvnIo, "from_string"), deadline=t0 + ctx.proof_left())
    got, why = [], ""
    try:
        got = term.run()
        if not any("while" in n for n, _, _ in got) and not any("recursive" in n for n, _, _ in got):
            why = "no loop is reached (vacuous)"
    except Unsupported as x:
        why = str(x)[:300]
    except RecursionError:
        why = "recursion too deep"
    except Exception as x:  # noqa: BLE001 - an engine error is never a verdict
        why = f"engine error: {type(x).__name__}: {x}"[:300]
        if os.environ.get("PYVC_DEBUG"):
            raise
    n = 0
    if not why:
        w = crosscheck(ctx, term)
        n = w.calls
        if w.bad:
            why = f"the engine disagrees with CPython: {w.bad}"[:400]
        elif not n:
            why = "no call could be observed (vacuous)"
    if why:
        add("reading a KVN text ends", "undecided", why, solver_s=term.solver_s, queries=term.queries, paths=term.paths)
    else:
        for i, (name, ok, reason) in enumerate(got):
            k = {"solver_s": term.solver_s, "queries": term.queries, "paths": term.paths, "crosschecks": n} if i == 0 else {}
            add(name, "discharged" if ok else "undecided", "" if ok else "not proved, and no failing input found: " + reason, **{**k, "backends": {"z3": term.queries if i == 0 else 0, "pyvc termination engine": 1}})
        ctx.notes.append(f"{n} real calls agree with the inferred contracts of {len(term.contracts)} functions")
    ctx.functions.update(term.functions)
    ctx.trusted += [
        "functions of Python, lxml, xsdata and copy end, and call back only what they are given",
        "collections made by Python and the dependencies are finite; the dependencies do not extend lists of the code",
        "the classes that the reader walks through are those of ccsds_ndm.models (their measures are checked)",
        "integers of Python are mathematical integers (they are)",
    ]
