"""What several properties need: run a spec, walk through the recorded
increments next to the reference model."""
import numpy as np

from . import build, faults, ref
from .core import Violation

EPS = np.finfo(float).eps
COLLAPSED = 1e-6  # bars shorter than this part of their length are not judged
DEFAULTS = {
    "incs": 50,
    "du": 0.02,
    "dlpf": 0.02,
    "stepcontrol": False,
    "maxfac": 10,
    "minfac": 1e-6,
    "increase": 0.5,
    "reduce": 8,
    "dxtol": 1.000001,
    "ftol": 8,
    "xtol": 8,
    "cycl": 4,
    "nfev": 8,
    "nsteps": 1,
    "j0": None,
    "j_fixed": False,
    "xlimit": None,
}


def sett(spec, key):
    return spec["settings"].get(key, DEFAULTS[key])


def need(cond, msg, *a):
    if not cond:
        raise Violation(msg % a if a else msg)


def arr(x):
    return np.asarray(x, dtype=float)


def close(a, b, rtol, atol, msg, *args):
    a, b = arr(a), arr(b)
    if a.shape != b.shape:
        raise Violation((msg % args if args else msg) + ": shape %s != %s" % (a.shape, b.shape))
    ok = np.abs(a - b) <= atol + rtol * np.abs(b)
    if not ok.all():
        d = np.abs(a - b)
        d = np.where(np.isnan(d), np.inf, d)
        k = np.unravel_index(np.argmax(np.where(ok, -1, d)), a.shape)
        raise Violation(
            (msg % args if args else msg)
            + ": %r != %r at %s" % (float(a[k]), float(b[k]), tuple(int(q) for q in k))
        )


class Run:
    """One executed model with its reference."""

    def __init__(self, spec, log=0, model=None, out=None):
        self.spec = spec
        self.M = model if model is not None else build.make(spec, log=log)
        self.out = build.solve(self.M) if out is None else out
        self.after()

    def after(self):
        self.ref = ref.Ref(self.spec)
        self.R = self.M.Results.R
        self.steps = [int(r.step) for r in self.R]
        end = {}
        for r in self.R[1:]:
            end[int(r.step)] = float(r.lpf)
        self.lam_end = end

    def load(self, i):
        """external load of increment i by the rule for load steps, computed
        from the recorded load factors and the user's force table"""
        k = self.steps[i] - 1
        F = self.ref.F
        f = float(self.R[i].lpf) * F[k]
        for q in range(k):
            f = f + self.lam_end.get(q + 1, 0.0) * F[q]
        return f

    def replay(self):
        """(i, record, stretch, stress, state, dist) per increment: the material
        law applied to the recorded displacement history."""
        state = self.ref.state0()
        for i, x in enumerate(self.R):
            if i == 0:
                continue
            l, n, lam = self.ref.kin(x.U)
            if not lam.min() > COLLAPSED:
                return  # a bar without length has no direction
            s, ds, new, dist = self.ref.material(lam, state)
            yield i, x, lam, s, ds, state, new, dist
            state = new

    def dxmax0(self):
        d = np.full(len(self.ref.dof1) + 1, float(sett(self.spec, "du")))
        d[-1] = float(sett(self.spec, "dlpf"))
        return d

    def x(self, i):
        """free displacements and load factor of increment i"""
        return np.append(arr(self.R[i].U).ravel()[self.ref.dof1], float(self.R[i].lpf))

    def x_before(self, i):
        """start of increment i: last increment, load factor zero at a new step"""
        v = self.x(i - 1) if i > 1 else np.zeros(len(self.ref.dof1) + 1)
        if i > 1 and self.steps[i] != self.steps[i - 1]:
            v = v.copy()
            v[-1] = 0.0
        return v

    def tags(self):
        t = ["kind:" + self.spec["kind"]]
        o = self.out
        if "ERROR 1" in o:
            t.append("stopped: recycles")
        if "ERROR 2" in o:
            t.append("stopped: not converged")
        if "EXIT 1" in o:
            t.append("stopped: maximum value")
        if "recycling" in o:
            t.append("repeated increment")
        if sett(self.spec, "nsteps") > 1:
            t.append("several steps")
        if any(e["mtype"] == 2 for e in self.spec["elems"]):
            t.append("plastic")
        if sett(self.spec, "j_fixed"):
            t.append("fixed control")
        return t

    @property
    def n(self):
        return len(self.R) - 1


def faulty_run(case):
    """the run of a model some of whose attempts are made to fail"""
    case["fails"] = list(case["fails"])
    M, out, hit = faults.faulty(case["spec"], case["fails"])
    run = Run(case["spec"], model=M, out=out)
    run.injected = hit
    return run


def moved(run):
    return run.n >= 1 and max(np.abs(r.U).max() for r in run.R) > 1e-9


FIELDS = [
    "step", "lpf", "U", "U0", "r", "g", "K", "stretch", "element_force",
    "element_stress0", "element_stress", "DOF0", "DOF1", "Ured", "rred", "Vred",
    "state_v", "dVmax",
]


def snapshot(M):
    """all documented results of a model, as independent copies"""
    out = []
    for r in M.Results.R:
        d = {}
        for k in FIELDS:
            v = getattr(r, k, None)
            d[k] = None if v is None else np.array(v, copy=True)
        ef = getattr(r, "ExtForces", None)
        for k in ("forces", "forces_const"):
            v = getattr(ef, k, None)
            d["ExtForces." + k] = None if v is None else np.array(v, copy=True)
        out.append(d)
    return out


def same_snapshot(a, b, what):
    """bitwise equality of two snapshots"""
    need(len(a) == len(b), "%s: %d and %d increments", what, len(a), len(b))
    for i, (x, y) in enumerate(zip(a, b)):
        for k in x:
            u, v = x[k], y[k]
            if u is None and v is None:
                continue
            need(
                u is not None and v is not None and u.shape == v.shape
                and np.array_equal(u, v, equal_nan=True),
                "%s: increment %d: %s differs", what, i, k,
            )


def tables(M):
    """the definition of a model as tables keyed by label (first entry wins, like a
    query by label); multiplicity is checked by the callers through n_*"""
    t = {"nodes": {}, "elems": {}, "bounds": {}, "forces": {}}
    n, e, b, f = M.Nodes, M.Elements, M.Boundaries, M.ExtForces
    ln = [] if n.labels is None else list(n.labels)
    for k, lab in enumerate(ln):
        t["nodes"][int(lab)] = [float(x) for x in np.asarray(n.coords)[k]]
    le = [] if e.labels is None else list(e.labels)
    for k, lab in enumerate(le):
        t["elems"][int(lab)] = {
            "conn": [int(x) for x in np.asarray(e.conns)[k]],
            "etype": int(np.asarray(e.elem_type)[k]),
            "mtype": int(np.asarray(e.mat_type)[k]),
            "mat": [float(x) for x in np.asarray(e.material_properties)[k]],
            "geo": [float(x) for x in np.asarray(e.geometric_properties)[k]],
        }
    lb = [] if b.Unodes is None else list(b.Unodes)
    for k, lab in enumerate(lb):
        t["bounds"][int(lab)] = [int(x) for x in np.asarray(b.Uvalues)[k]]
    lf = [] if f.nodes is None else list(f.nodes)
    for k, lab in enumerate(lf):
        t["forces"][int(lab)] = [float(x) for x in np.asarray(f.forces)[k]]
    t["count"] = {"nodes": len(ln), "elems": len(le), "bounds": len(lb), "forces": len(lf)}
    return t
