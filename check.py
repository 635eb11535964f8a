#!/usr/bin/env python3
"""python3-vt check.py PID: decide one property on /repo's working tree."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.environ.setdefault("PYTHONHASHSEED", "0")
sys.setrecursionlimit(20000)
from vlib import report  # noqa: E402

report.main(sys.argv[1].upper())
