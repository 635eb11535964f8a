"""Shared material of the bounded parts: messages, samples, an independent KVN renderer."""
import functools
import glob
import os
import random
import re

from . import env, gen, kvnspec
from .snap import MESSAGES

NUMBER = re.compile(r"([+-]?)([0-9]+)\.([0-9]*)([eE][+-]?[0-9]+)?")


def seeds(ctx, n, names=MESSAGES, probs=(0.2, 0.5, 0.9), tag="", **kw):
    """(key, object) of n random messages per type and density."""
    for i in range(n):
        for p in probs:
            for name in names:
                key = f"{ctx.seed}/{tag}/{name}/{i}/{p}"
                yield key, name, gen.message(ctx.models, name, key, p=p, **kw)


@functools.lru_cache(None)
def samples():
    """(name, text) of the sample files of the repository, by format (empty if there are none)."""
    out = {"kvn": [], "xml": []}
    for f in sorted(glob.glob(os.path.join(env.REPO, "ccsds_ndm/tests/data/**/*"), recursive=True)):
        if os.path.isfile(f):
            try:
                t = open(f, encoding="utf-8").read()
            except (OSError, UnicodeError):
                continue
            if t.strip().startswith("CCSDS_"):
                out["kvn"].append((os.path.basename(f), t))
            elif t.strip().startswith("<") and "<!" not in t[:10]:
                out["xml"].append((os.path.basename(f), t))
    return out


def render(entries, rng=None):
    """A KVN text with these entries, in a plain or in a random layout."""
    if rng is None:
        rng = random.Random(0)
        wild = False
    else:
        wild = True
    blank = rng.choice([" \t", " \t", " ", "\t"])

    def ws(lo=0, hi=4):
        return "".join(rng.choice(blank if wild else " ") for _ in range(rng.randint(lo, hi))) if wild else " "

    def num(t):
        """Another way to write the same number, as other programs do (.5, 5., +.5, 1.e-3)."""
        x = NUMBER.fullmatch(t) if wild and rng.random() < 0.4 else None
        if not x:
            return t
        sign, a, b, e = x.groups()
        if rng.random() < 0.5 and a.strip("0") == "":
            a = "" if rng.random() < 0.7 else "000"
        if rng.random() < 0.5 and b.strip("0") == "" and a:
            b = ""
        if not sign and rng.random() < 0.3:
            sign = "+"
        if e and rng.random() < 0.5:
            e = e.lower()
        return f"{sign}{a}.{b}{e or ''}" if a or b else t

    lines = []
    for e in entries:
        if e[0] == "K":
            line = e[1] + ws() + "=" + ws() + (e[2] if e[3] is None else num(e[2]))
            if e[3] is not None:
                line += ws() + "[" + ((ws() + e[3] + ws()) if wild else e[3]) + "]"
        elif e[0] == "C":
            eq = wild and rng.random() < 0.3
            line = "COMMENT" + (ws() + "=" if eq else "") + (ws(1, 3) if wild else " ") + e[1]
            if not eq and e[1].startswith("="):
                line = "COMMENT = " + e[1]
        elif e[0] == "D":
            line = ws(1, 3).join([e[1][0] if "T" in e[1][0] else num(e[1][0])] + [num(x) for x in e[1][1:]]) if wild else "  ".join(e[1])
        elif e[0] == "O":
            line = e[1] + ws() + "=" + ws() + e[2] + (ws(1, 3) if wild else " ") + num(e[3])
        else:
            line = e[1]
        if wild:
            line = ws(0, 3) + line + ws(0, 3)
            if rng.random() < 0.1:
                lines.append(ws(0, 2))
        lines.append(line)
    end = "\r\n" if wild and rng.random() < 0.3 else "\n"
    if wild and rng.random() < 0.3:  # both kinds of line ends
        lines = [x + rng.choice(["", "\r"]) for x in lines]
        end = "\n"
    return end.join(lines) + (end if wild and rng.random() < 0.5 else "")


def kvn_roundtrip_diff(ctx, obj, back):
    d = kvnspec.normdiff(kvnspec.norm(obj), kvnspec.norm(back), type(obj).__name__)
    if d:
        return d
    a, b = kvnspec.comments(obj), kvnspec.comments(back)
    if a != b:
        i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
        return f"comment {i}: {a[i:i + 2]} became {b[i:i + 2]} ({len(a)} and {len(b)} comments)"
    for i, (x, y) in enumerate(zip(kvnspec.positions(obj), kvnspec.positions(back))):
        if x != y:
            return f"comment {i} {a[i]!r:.60} is moved from before value {x} to before value {y}"
    return None
