"""Running a check, its evidence and its verdict."""
import json
import os
import sys
import time
import traceback

from . import env


class Ctx:
    def __init__(self, pid):
        self.pid = pid
        self.tier = env.TIER
        self.seed = env.SEED
        self.t0 = self.t1 = time.time()
        self.models, self.io, self.kvn, self.xml = env.load()
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.violations = []  # (what, replay dict, failing_input_found)
        self.known_seen = []
        self.obligations = []  # dicts from the verifier
        self.notes = []
        self.functions = set()
        self.trusted = []
        self.budget = 60 if self.tier == "quick" else 600
        self.known = load_known(pid)
        self.proof_budget = 360 if self.tier == "quick" else 3000

    quick = property(lambda self: self.tier == "quick")

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    def left(self):
        """Seconds left for the bounded part."""
        return self.budget - (time.time() - self.t1)

    def proof_left(self):
        """Seconds left for the deductive part."""
        return self.proof_budget - (time.time() - self.t0)

    # bounded cases ----------------------------------------------------------
    def case(self, key, nontrivial=True, sample=None):
        self.evaluations += 1
        if nontrivial:
            self.distinct.add(key)
        if sample is not None and len(self.samples) < 3:
            self.samples.append(sample)

    def fail(self, what, **data):
        """A violation shown on the real code."""
        for k in self.known:
            if k["match"] in what:
                if k["text"] not in self.known_seen:
                    self.known_seen.append(k["text"])
                return
        self.violations.append((what, data, True))

    def enough(self):
        return len(self.violations) >= 3

    def expect(self, ok, what, **data):
        if not ok:
            self.fail(what, **data)
        return ok

    def guard(self, what, fn, **data):
        """fn() must not raise; returns (True, value) or (False, None)."""
        try:
            return True, fn()
        except Exception as e:  # noqa: BLE001 - any exception of the code under test
            self.fail(f"{what}: raised {type(e).__name__}: {str(e)[:200]}", traceback=traceback.format_exc()[-1500:], **data)
            return False, None


def outcome(fn):
    """('ok', value) or ('err', exception type name, text)."""
    try:
        return ("ok", fn())
    except Exception as e:  # noqa: BLE001
        return ("err", type(e).__name__, str(e))


def load_known(pid):
    """KNOWN_FINDINGS.txt: `open: property=<id> match=<text> :: <what fails>` entries only."""
    out = []
    path = os.path.join(env.VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith(f"open: property={pid} "):
                m, _, text = line.partition("match=")[2].partition(" :: ")
                out.append({"match": m.strip(), "text": text.strip()})
    return out


def finish(ctx, level, checker_cmd, technique_note=""):
    obl = ctx.obligations
    done = [o for o in obl if o["status"] == "discharged"]
    undecided = [o for o in obl if o["status"] == "undecided"]
    refuted = [o for o in obl if o["status"] == "refuted"]
    cov = {
        "evaluations": ctx.evaluations,
        "distinct_nontrivial": len(ctx.distinct),
        "rule": RULES.get(ctx.pid, "cases are generated from the seed; distinct by case key"),
        "samples": ctx.samples or ["(none)"],
    }
    if obl:
        backends = {}
        for o in obl:
            for b, k in o.get("backends", {}).items():
                backends[b] = backends.get(b, 0) + k
        cov.update(
            obligations=len(obl),
            discharged=len(done),
            undecided=[{"name": o["name"], "why": o["why"]} for o in undecided][:20],
            refuted=[{"name": o["name"], "why": o["why"]} for o in refuted][:20],
            checker_cmd=checker_cmd,
            trusted_base=sorted(set(ctx.trusted)),
            functions_under_contract=sorted(ctx.functions),
            paths=sum(o.get("paths", 0) for o in obl),
            solver_queries=sum(o.get("queries", 0) for o in obl),
            solver_time_s=round(sum(o.get("solver_s", 0) for o in obl), 3),
            backends=backends,
            cpython_crosschecks=sum(o.get("crosschecks", 0) for o in obl),
            obligation_list=[f"{o['name']}: {o['status']}" for o in obl][:400],
        )
    if ctx.notes:
        cov["notes"] = ctx.notes
    if level in ("proof", "other") and not obl or level == "proof" and len(done) < len(obl):
        level = "exploration"  # nothing, or not everything, is proved on this tree
    cov["explanation"] = technique_note
    ev = {
        "property": ctx.pid, "tier": ctx.tier, "seed": ctx.seed, "level": level, "coverage": cov,
        "assumptions": sorted(set(ctx.trusted)), "wall_s": round(time.time() - ctx.t0, 2), "violations": len(ctx.violations),
    }
    os.makedirs(os.path.join(env.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(env.VERIF, "evidence", ctx.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for t in ctx.known_seen:
        print(f"KNOWN-FINDING: property={ctx.pid} {t}")
    print(f"{ctx.pid}: {ctx.evaluations} cases, {len(done)}/{len(obl)} obligations discharged, {len(undecided)} undecided, {len(ctx.violations)} violations, {ev['wall_s']} s")
    for o in undecided:
        print(f"  undecided: {o['name']}: {o['why']}")
    if not ctx.violations:
        return 0
    # a violation with an input found comes first
    ctx.violations.sort(key=lambda v: not v[2])
    d = os.path.join(env.VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    for i, (what, data, found) in enumerate(ctx.violations[:3]):
        path = os.path.join(d, f"{ctx.pid}-{i}.json")
        with open(path, "w") as f:
            json.dump({"property": ctx.pid, "what": what, "failing_input_found": found, "seed": ctx.seed, "tier": ctx.tier,
                       "rerun": f"cd /verif && VERIF_SEED={ctx.seed} VERIF_TIER={ctx.tier} python3-vt check.py {ctx.pid}", "data": data}, f, indent=1, default=str)
        print("  " + what[:600])
        print(f"VIOLATION property={ctx.pid} replay={path}" + ("" if found else " no-failing-input-found"))
    return 1


RULES = {}


def levels():
    """property -> (level, technique, note), as in MANIFEST.json."""
    m = json.load(open(os.path.join(env.VERIF, "MANIFEST.json")))
    return {c["property"]: (c["level"], c["technique"], c["level_note"]) for c in m["checks"]}


def main(pid):
    import importlib

    mod = importlib.import_module(f"vlib.props.{pid.lower()}")
    RULES[pid] = getattr(mod, "RULE", "")
    try:
        ctx = Ctx(pid)
    except Exception as e:  # the tree does not even import: nothing can be decided
        traceback.print_exc()
        print(f"{pid}: the code under test cannot be imported: {e}")
        sys.exit(3)
    if os.environ.get("PYVC_ONLY"):  # development: the deductive part alone
        from . import verify

        verify.prove(ctx)
    else:
        mod.run(ctx)
    level, _, note = levels()[pid]
    sys.exit(finish(ctx, level, f"python3-vt check.py {pid}", note))
