"""Turns a spec into a trusspy model through the public API, and runs it."""
import contextlib
import io
import sys

from . import env
from .core import Violation  # noqa: F401

tp = env.import_trusspy()


def _tup(v):
    if isinstance(v, list):
        return tuple(_tup(x) for x in v)
    return v


def apply_settings(M, s):
    for k, v in s.items():
        setattr(M.Settings, k, _tup(v))


def make(spec, log=0, **kw):
    with contextlib.redirect_stdout(io.StringIO()):
        M = tp.Model(log=log, **kw)
    fill(M, spec)
    return M


def fill(M, spec):
    for n in spec["nodes"]:
        M.Nodes.add_node(n[0], tuple(n[1:4]))
    for e in spec["elems"]:
        M.Elements.add_element(
            e["label"],
            e["conn"],
            mat_type=e["mtype"],
            material_properties=list(e["mat"]),
            geometric_properties=list(e.get("geo") or [e["area"]]),
        )
    for lab, b in spec["bounds"]:
        M.Boundaries.add_bound_U(lab, tuple(b))
    for lab, f in spec["forces"]:
        M.ExtForces.add_force(lab, tuple(f))
    apply_settings(M, spec["settings"])
    return M


def solve(M):
    """build + run with stdout captured; returns the printed text."""
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        M.build()
        M.run()
    return buf.getvalue()


def stopped(out):
    return "ERROR" in out
