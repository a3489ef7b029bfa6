"""Comparison of the runs of two equivalent models."""
import numpy as np

from .common import arr, close, need, sett
from .core import Violation


def component_map(ra, rb, nmap, axis=None, sign=None):
    """index in the free components of b (0-based, last = load factor) of every
    free component of a, with the sign it changes by.  nmap: index of node in b."""
    axis = axis or [0, 1, 2]
    sign = sign or [1, 1, 1]
    pos = {int(d): k for k, d in enumerate(rb.dof1)}
    idx, sg = [], []
    for d in ra.dof1:
        n, c = divmod(int(d), 3)
        cb = axis.index(c)
        idx.append(pos[3 * nmap[n] + cb])
        sg.append(sign[cb])
    idx.append(len(rb.dof1))
    sg.append(1)
    return idx, sg


def map_component(j, idx, sg):
    """a 1-based component number (0 = last) as the user gives it"""
    if j == 0:
        return 0
    k = abs(j) - 1
    return (idx[k] + 1) * sg[k] * (1 if j > 0 else -1)


def map_settings(s, idx, sg):
    s = dict(s)
    if s.get("j0") is not None:
        s["j0"] = map_component(s["j0"], idx, sg)
    xl = s.get("xlimit")
    if xl is not None:
        if isinstance(xl[0], list):
            s["xlimit"] = [[abs(map_component(j, idx, sg)), v] for j, v in xl]
        else:
            s["xlimit"] = [abs(map_component(xl[0], idx, sg)), xl[1]]
    return s


def sensitivity(run, i):
    """how much a disturbance of the size of the solver tolerance may move the
    recorded point i (in step limits)"""
    from .path import PathError, Tracer

    ref = run.ref
    w = arr(run.R[i].dVmax)
    k = run.steps[i] - 1
    T = Tracer(ref, np.zeros((ref.nn, 3)), ref.F[k], w)
    J = T.jac(run.x(i) / w)
    s = np.linalg.svd(J, compute_uv=False)
    if not np.isfinite(s).all() or len(s) == 0:
        return np.inf, 0.0
    rn = np.sqrt((J * J).sum(1))
    if (rn == 0).any():
        return np.inf, 0.0
    gap = np.linalg.svd(J / rn[:, None], compute_uv=False)
    return 1.0 / max(s[-1], 1e-300), gap[-1] / gap[0]


def margin(run, i):
    """relative distance of the control component of increment i to the runner-up"""
    d = np.abs(run.x(i) - run.x_before(i)) / arr(run.R[i].dVmax)
    d = np.sort(d)
    return (d[-1] - d[-2]) / d[-1] if len(d) > 1 else 1.0


def split(run):
    """printed text per increment, by step: {step: [text of increment 1, ...]}"""
    res, step = {}, 0
    for line in run.out.splitlines():
        if line.startswith("## Step"):
            step = int(line.split()[-1])
            res[step] = []
        elif line.startswith("### Increment"):
            res[step].append("")
        elif step and res[step]:
            res[step][-1] += line + "\n"
    return res


class Excuse:
    """Tells from which increment on rounding may decide what the solver does, so
    that two runs of equivalent models need not agree any more:
    an attempt was repeated in the reference run (for elastic-plastic bars, which
    can sit exactly on the yield surface, in either run), or two components reach
    the limit of what is accepted to within rounding."""

    def __init__(self, ra, rb, sign=None):
        self.ra, self.rb = ra, rb
        self.sa, self.sb = split(ra), split(rb)
        self.plastic = any(e["mtype"] == 2 for e in ra.spec["elems"])
        self.dxtol = float(sett(ra.spec, "dxtol"))
        self.pos = {}
        for run in (ra, rb):
            c = {}
            for i in range(1, run.n + 1):
                s = run.steps[i]
                c[s] = c.get(s, 0) + 1
                self.pos[(id(run), i)] = (s, c[s])
            self.pos[(id(run), run.n + 1)] = None
        self.why = None

    def text(self, run, sp, i):
        p = self.pos.get((id(run), i))
        if p is None:  # the increment after the last one: why did it end?
            if run.n == 0:
                s, k = 1, 0
            else:
                s, k = self.pos[(id(run), run.n)]
            t = sp.get(s, [])[k:] + [x for q in sp if q > s for x in sp[q]]
            return "".join(t)
        s, k = p
        t = "".join(sp.get(s, [])[k - 1:k])
        if k == 1 and s > 1:  # failed increment at the end of the previous step
            m = sum(1 for q in run.steps[1:] if q == s - 1)
            t += "".join(sp.get(s - 1, [])[m:])
        return t

    def at(self, i):
        """call for i = 1, 2, ...; True from the first such increment on"""
        if self.why:
            return True
        def bad(t):
            return "recycling" in t or "ERROR" in t

        if bad(self.text(self.ra, self.sa, i)):
            self.why = "repeated attempt"
        elif self.plastic and bad(self.text(self.rb, self.sb, i)):
            self.why = "repeated attempt (elastic-plastic)"
        elif i <= self.ra.n:
            d = np.abs(self.ra.x(i) - self.ra.x_before(i)) / arr(self.ra.R[i].dVmax)
            j0 = sett(self.ra.spec, "j0")
            if j0 and d[abs(j0) - 1] < 1e-9 * d.max() and self.pos[(id(self.ra), i)][1] == 1:
                self.why = "started along a component which does not move"
            elif sett(self.ra.spec, "j_fixed"):
                if d.max() > 1.5:
                    self.why = "long way with fixed control"
            else:
                d = np.sort(d)
                if len(d) > 1 and self.dxtol - 1e-4 * self.dxtol < d[-2]:
                    self.why = "tie"
                if self.dxtol > 1.0001 and len(d) > 1 and d[-2] > 0.8 / self.dxtol:
                    self.why = "tie"
        return self.why is not None


class Map:
    """What changes from model a to model b: node order, bar order (or, with
    split bars, groups), axes (orthogonal Q), units"""

    def __init__(self, nmap, eperm, Q=None, length=1.0, force=1.0, stress=1.0):
        self.nmap, self.eperm = nmap, eperm
        self.Q = np.eye(3) if Q is None else arr(Q)
        self.length, self.force, self.stress = length, force, stress


def compare(ra, rb, i, m):
    """raises Violation if increment i of b is not that of a under the map m;
    returns a reason to stop comparing or None"""
    a, qa, qb = ra.spec, ra.ref, rb.ref
    ft = 10.0 ** -sett(a, "ftol")
    amp, fs = 1.0, 0.0
    if i <= ra.n:
        amp, gap = sensitivity(ra, i)
        if gap < 1e-4:
            return "near a bifurcation"
    need(i <= ra.n and i <= rb.n, "%d and %d increments", ra.n, rb.n)
    x, y = ra.R[i], rb.R[i]
    need(ra.steps[i] == rb.steps[i], "increment %d: step", i)
    w = arr(x.dVmax)
    if sett(a, "stepcontrol") and abs(arr(y.dVmax)[-1] / w[-1] - 1) > 1e-9:
        return "step width decided by rounding"
    tol = 1e-7 * (1 + i) + 100 * i * ft * amp
    if tol > 1e-2:
        return "not compared further"
    t = "increment %d: "
    ut = tol * w[:-1].max() * (1 + np.abs(arr(x.U)).max())
    close(float(y.lpf), float(x.lpf), 1e-7, tol * w[-1] + 1e-9, t + "load factor", i)
    close(arr(y.U)[m.nmap], m.length * arr(x.U) @ m.Q.T, 1e-7, m.length * (ut + 1e-9),
          t + "displacement of node", i)
    st_ = tol * w[:-1].max() / qa.L.min() * 4 + 1e-8
    S = m.stress * qa.E.max() * st_
    F = S * qb.A.max() * 4
    if m.eperm is not None:
        p = m.eperm
        close(arr(y.stretch)[:, 0], arr(x.stretch)[p, 0], 1e-7, st_, t + "stretch", i)
        close(arr(y.element_stress)[:, 0], m.stress * arr(x.element_stress)[p, 0], 1e-6, S,
              t + "stress", i)
        close(arr(y.element_force)[:, 0], m.force * arr(x.element_force)[p, 0], 1e-6, F,
              t + "force", i)
    close(arr(y.r)[m.nmap], m.force * arr(x.r) @ m.Q.T, 1e-6, 20 * F,
          t + "internal force", i)
    return None


def walk(ra, rb, m, extra=None):
    """compares all increments; (number compared strictly, tags)"""
    exc = Excuse(ra, rb)
    done, tags = 0, []
    for i in range(1, max(ra.n, rb.n) + 1):
        excused = exc.at(i)
        try:
            stop = compare(ra, rb, i, m)
            if stop is None and extra is not None:
                extra(i)
        except Violation:
            if not excused:
                raise
            stop = "stopped comparing: " + exc.why
        if stop:
            tags.append(stop)
            break
        done += not excused
    return done, tags
