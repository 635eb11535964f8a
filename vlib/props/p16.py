"""P16 termination."""
import random
import signal

from .. import cases, gen, kvnspec, snap
from ..verify import prove

RULE = "one case per mutated KVN text (lines removed, repeated, moved, cut, mixed with lines of other messages, random lines), read under a time limit of 10 s, then once more of 60 s; distinct by text; non-trivial if the text differs from the unmodified one"


class Late(BaseException):
    pass


def _late(*_):
    raise Late()


def timed(fn, limit):
    signal.signal(signal.SIGALRM, _late)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        try:
            r = fn()
            return "object" if r is not None else "nothing"
        except Late:
            return "late"
        except MemoryError:
            return "late"
        except RecursionError:
            return "late"
        except Exception:
            return "error"
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def mutate(text, others, rng):
    lines = [x for x in text.split("\n") if x.strip()]
    for _ in range(rng.choice([1, 1, 2, 3, 6, 15])):
        if len(lines) < 2:
            break
        k = rng.randrange(12)
        i = rng.randrange(1, len(lines))
        j = rng.randrange(1, len(lines))
        if k == 0:
            del lines[i]
        elif k == 1:
            lines.insert(j, lines[i])
        elif k == 2:
            lines[i], lines[j] = lines[j], lines[i]
        elif k == 3:
            del lines[i : i + rng.randint(1, 10)]
        elif k == 4:
            lines[j:j] = lines[i : i + rng.randint(1, 12)]
        elif k == 5:
            lines.insert(i, rng.choice(others))
        elif k == 6:
            lines[i] = lines[i][: rng.randrange(len(lines[i]) + 1)]
        elif k == 7:
            lines.insert(i, "COMMENT " + rng.choice(gen.COMMENTS))
        elif k == 8:
            lines.insert(i, rng.choice(["=", "= x", "x", "2000", "2000-01-01", "1 2 3", "[", "a = ]", "COMMENT", "USER_DEFINED_X = 1", "META_START", "ATTITUDE_TYPE = foo", "EULER_ROT_SEQ = 999", "1.0", "nan", "inf 1"]))
        elif k == 9:
            lines = lines[: i + 1]
        elif k == 10:
            lines[i] = lines[i].replace("=", rng.choice(["", "==", " "]))
        else:
            lines[i:i] = ["COMMENT x"] * rng.randint(1, 4)
    return "\n".join(lines)


def shuffled(text, rng):
    """A short text of lines of one message, in any order."""
    lines = [x for x in text.split("\n") if x.strip()]
    head, lines = lines[0], lines[1:]
    if rng.random() < 0.5:  # what comes first in most cases
        n = rng.randrange(min(12, len(lines)) + 1)
        head, lines = "\n".join([head] + lines[:n]), lines[n:] or lines
    kind = rng.randrange(3)
    if kind:
        lines += ["COMMENT x"] * (len(lines) // 2)
    if kind == 2:
        k = rng.randrange(len(lines))
        lines = lines[k : k + rng.randint(1, 6)]
    return "\n".join([head] + [rng.choice(lines) for _ in range(rng.randrange(14))])


def run(ctx):
    prove(ctx)
    kvn = ctx.kvn
    rng = random.Random(f"{ctx.seed}/p16")
    texts = [t for _, t in cases.samples()["kvn"] if len(t) < 6000]
    for key, name, obj in cases.seeds(ctx, ctx.n(2, 6), tag="p16", probs=(0.2, 0.6)):
        texts.append(cases.render(kvnspec.expected(obj)))
    others = [x for t in texts for x in t.split("\n") if x.strip()]
    kinds = {}
    # longer, if the proof does not go through
    more = 4 if any(o["status"] != "discharged" for o in ctx.obligations) else 1
    ctx.budget *= more
    for i in range(ctx.n(6000, 80000) * more):
        if i % 3 == 2:
            base, t = None, shuffled(rng.choice(texts), rng)
        else:
            base = rng.choice(texts)
            t = mutate(base, others, rng)
        ctx.case(t, nontrivial=t != base, sample={"text": t[:300]})
        r = timed(lambda: kvn.NdmKvnIo().from_string(t), 10)
        if r == "late":  # a slow machine is not a violation
            r = timed(lambda: kvn.NdmKvnIo().from_string(t), 60)
        kinds[r] = kinds.get(r, 0) + 1
        ctx.expect(r not in ("late", "nothing"), f"reading a text of {len(t.split(chr(10)))} lines " + ("did not end within 60 s" if r == "late" else "ended without a message and without an error"), text=t)
        if r == "late" or ctx.enough() or ctx.left() < 10:
            break
    # lengths: time must not explode
    for name in ("Oem", "Aem", "Tdm"):
        o = gen.message(ctx.models, name, f"{ctx.seed}/p16/{name}", p=0.5, maxlist=2)
        seg = o.body.segment[0].data
        lst = next(getattr(seg, a) for a in ("state_vector", "attitude_state", "observation") if hasattr(seg, a))
        del lst[1:]
        lst *= ctx.n(60, 200)
        t = cases.render(kvnspec.expected(o))
        ctx.case((name, "long"))
        r = timed(lambda: kvn.NdmKvnIo().from_string(t), 120)
        ctx.expect(r == "object", f"reading a {name} with {len(lst)} data lines gave {r}", text=t[:2000])
    ctx.notes.append(f"outcomes: {kinds}")
