"""Verification conditions: run a function on symbolic inputs, decide its postcondition on every path."""
import os
import random
import signal
import threading
import time
import traceback

from .core import Engine, Infeasible, PyExc, SStr, Unsupported
from .interp import Interp, NotMergeable, Remerge, run, starter
from .sample import Sampler, consistent
from .values import World


class Refuted(Exception):
    """The postcondition fails on the current path."""


class OutOfTime(BaseException):
    """The time of an obligation is used up."""


class Found(BaseException):
    """A violation has been shown on the real code while searching for a proof."""

    def __init__(self, what, data):
        self.what, self.data = what, data


def alarm(seconds):
    """Raise OutOfTime in this thread after some seconds (0: never)."""
    if threading.current_thread() is not threading.main_thread():
        return

    def ring(*_):
        raise OutOfTime

    signal.signal(signal.SIGALRM, ring)
    signal.setitimer(signal.ITIMER_REAL, seconds)


class VC:
    """One obligation.

    body(it)            executes the code under verification on symbolic inputs; returns its value
    post(it, outcome)   raises Refuted(why) if outcome = ("ok", value) | ("exc", exception) is wrong
    native(smp, it)     runs the real code on a concrete instance of the path: ("ok", v) | ("exc", e)
    agree(smp, outcome, nat)   does the real outcome agree with what the engine computed? (cross-check)
    wrong(smp, nat)     None, or what the real outcome violates (confirmation of a refutation)
    """

    def __init__(self, ctx, name, functions=(), samples=3, budget=60, merging=False, setup=None, max_paths=4000):
        self.ctx, self.name, self.samples, self.budget = ctx, name, samples, budget
        self.e = Engine(max_paths)
        self.it = Interp(self.e, World(self.e))
        self.it.merging = merging
        self.t0 = time.time()
        self.e.deadline = self.t0 + budget
        left = ctx.proof_left()
        if left < budget:
            self.budget = left
            self.e.deadline = self.t0 + left
        self.rng = random.Random(ctx.seed)
        self.crosschecks = 0
        self.mismatches = []

    def body(self, it):
        raise NotImplementedError

    def post(self, it, outcome):
        pass

    def new(self, it, cls):
        """The instance whose method is called."""
        return cls()

    native = None

    def agree(self, smp, outcome, nat):
        return True

    def wrong(self, smp, nat):
        return None

    def observe(self, store, outcome, why):
        """Confirmation where a path is not instantiated: (what fails, data) on the real code, or None."""
        return None

    def data(self, smp):
        return {}

    def explore(self):
        if not self.eager:
            return run(self.it, self.body)
        e = self.e
        until, e.deadline = e.deadline, e.deadline - self.budget / 2
        try:
            return run(self.it, self.body, each=self.early)
        except Unsupported as x:
            if x.args[0].split(";")[0] not in ("too many paths", "out of time"):
                raise
            # no proof; look for a violation in the time which is left
            e.deadline = None
            e.hunt(starter(self.it, self.body), self.early, self.rng, until)
            raise

    eager = False  # look at the paths as they are found, and stop at the first violation
    tries = 25

    def early(self, store, outcome):
        if outcome[0] == "exc" and isinstance(outcome[1], Unsupported) or self.tries <= 0:
            return
        for st, why in self.check_post(store, outcome):
            self.tries -= 1
            got = self.confirm(st, outcome, why)
            if got:
                raise Found(f"{why:.300}: {got[0]}" if not got[0].startswith(why) else got[0], got[1])

    # ------------------------------------------------------------------------
    def check_post(self, store, outcome):
        """Decide the postcondition on a path: list of (store, why) where it fails."""
        e = self.e
        base = e.store
        e.store = store
        bad = []

        def one():
            mark = len(self.it.undo)
            try:
                self.post(self.it, outcome)
                return None
            except Refuted as r:
                return str(r)
            except PyExc as x:
                raise Unsupported(f"the specification raised {x.exc!r}") from None
            finally:
                self.it.rollback(mark)

        try:
            for st, r in e.explore(one):
                if r[0] != "ok":
                    raise Unsupported(f"specification: {r}")
                if r[1] is not None:
                    st.log = store.log + st.log
                    bad.append((st, r[1]))
        finally:
            e.store = base
        return bad

    def samples_of(self, store, n, tries=40):
        out = []
        for _ in range(tries):
            try:
                smp = Sampler(self.e, store, self.rng)
                if consistent(store, smp):
                    out.append(smp)
            except (LookupError, RecursionError):
                continue
            if len(out) >= n:
                break
        return out

    def run(self):
        ctx = self.ctx
        o = {"name": self.name, "status": "undecided", "why": "", "backends": {}, "paths": 0, "queries": 0, "solver_s": 0, "crosschecks": 0}
        try:
            if self.budget < 1:
                raise OutOfTime
            alarm(self.budget + 5)
            outs = self.explore()
            if not outs:
                raise Unsupported("no path is feasible (vacuous)")
            bad = []
            live = 0
            for store, outcome in outs:
                if outcome[0] == "exc" and isinstance(outcome[1], (Unsupported,)):
                    raise outcome[1]
                self.e.store = store
                for st, why in self.check_post(store, outcome):
                    bad.append((st, outcome, why))
                live += self.crosscheck(store, outcome)
            if self.mismatches:
                o["why"] = "the engine disagrees with CPython: " + self.mismatches[0]
            elif bad:
                confirmed = False
                for st, outcome, why in bad[:60]:
                    got = self.confirm(st, outcome, why)
                    if got:
                        what, data = got
                        ctx.fail(f"{self.name}: {what}", obligation=self.name, **data)
                        confirmed = True
                        break
                if confirmed:
                    o.update(status="refuted", why=what[:300])
                else:
                    o["why"] = "not proved, and no failing input found: " + bad[0][2][:300]
            elif self.native is not None and not live:
                o["why"] = "no path could be instantiated (vacuous)"
            else:
                o["status"] = "discharged"
        except Unsupported as x:
            o["why"] = str(x)[:300]
            if os.environ.get("PYVC_DEBUG"):
                traceback.print_exc()
        except (Remerge, NotMergeable, Infeasible) as x:
            o["why"] = f"engine: {type(x).__name__} {x}"
        except OutOfTime:
            o["why"] = "out of time"
        except Found as f:
            ctx.fail(f"{self.name}: {f.what}", obligation=self.name, **f.data)
            o.update(status="refuted", why=f.what[:300])
        except RecursionError:
            o["why"] = "recursion too deep"
        except Exception as x:  # noqa: BLE001 - an engine error is never a verdict
            o["why"] = f"engine error: {type(x).__name__}: {x}"[:300]
            if os.environ.get("PYVC_DEBUG"):
                traceback.print_exc()
        finally:
            alarm(0)
        o["paths"], o["queries"], o["solver_s"] = self.e.paths, self.e.queries, self.e.solver_s
        o["backends"] = {"z3": self.e.queries, "pyvc path engine": 1}
        o["crosschecks"] = self.crosschecks
        o["wall_s"] = round(time.time() - self.t0, 2)
        ctx.obligations.append(o)
        ctx.functions.update(self.it.functions)
        return o

    def crosscheck(self, store, outcome):
        if self.native is None:
            return 0
        n = 0
        for smp in self.samples_of(store, self.samples):
            try:
                nat = self.native(smp, self.it)
            except LookupError:
                continue
            n += 1
            self.crosschecks += 1
            try:
                ok = self.agree(smp, outcome, nat)
            except LookupError:
                continue
            if not ok:
                self.mismatches.append(f"{outcome!r:.200} predicted, {nat!r:.200} happened with {self.data(smp)!r:.300}")
        return 1 if n else 0

    def confirm(self, store, outcome, why):
        if self.native is None:
            return self.observe(store, outcome, why)
        for smp in self.samples_of(store, 12, 150):
            try:
                nat = self.native(smp, self.it)
                w = self.wrong(smp, nat)
            except LookupError:
                continue
            if w:
                return f"{why}: {w}" if w is not True else why, self.data(smp)
        return None


def outcome_of(fn):
    try:
        return ("ok", fn())
    except Exception as x:  # noqa: BLE001
        return ("exc", x)
