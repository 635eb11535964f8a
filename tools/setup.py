"""Checks that what the checks need is there; builds nothing (the checks read the sources of /repo)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import z3
from vlib import env
env.load()
s = z3.Solver(); x = z3.Int("x"); s.add(x > 1, x < 3); assert s.check() == z3.sat
print("ok: z3", z3.get_version_string())
