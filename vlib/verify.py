"""The deductive part: verification conditions of each property."""
import importlib
import time

WHERE = {
    "P01": [("vcs_format", "p01")],
    "P02": [("vcs_io", "p02")],
    "P03": [("vcs_xml", "p03"), ("vcs_lines", "p03"), ("vcs_writer", "p03"), ("vcs_reader", "p03")],
    "P04": [("vcs_combined", "p04")],
    "P05": [("vcs_xml", "p05")],
    "P06": [("vcs_xml", "p06")],
    "P07": [("vcs_xml", "p07"), ("vcs_state", "p07")],
    "P08": [("vcs_lines", "p08"), ("vcs_reader", "p08")],
    "P09": [("vcs_lines", "p09")],
    "P10": [("vcs_writer", "p10")],
    "P11": [("vcs_writer", "p11")],
    "P12": [("vcs_reader", "p12")],
    "P13": [("vcs_writer", "p13")],
    "P14": [("vcs_reader", "p14")],
    "P15": [("vcs_writer", "p15"), ("vcs_reader", "p15")],
    "P16": [("vcs_term", "p16")],
    "P18": [("vcs_reader", "p18")],
}


def prove(ctx):
    """Discharge the obligations of the property; the bounded part gets its own time."""
    for mod, fn in WHERE.get(ctx.pid, ()):
        getattr(importlib.import_module(f"vlib.pyvc.{mod}"), fn)(ctx)
    ctx.t1 = time.time()
