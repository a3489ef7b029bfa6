"""The path-following solver traces any system of equations."""
import contextlib
import io

import numpy as np
from hypothesis import strategies as st

from vf.build import tp
from vf.common import need
from vf.core import Part

RULE = (
    "a case counts as non-trivial if at least three increments were recorded and the "
    "system is not linear (path), at least two increments of a linear system with two "
    "unknowns or more (linear), or two increments (forms)"
)
ASSUMPTIONS = [
    "the system is handed over as the model does: a function that returns the unbalanced "
    "forces for displacements and load factor, its stiffness matrix, an Analysis with "
    "the reference load",
]
DOC = dict(dxmax=[0.02, 0.02], j=None, j_fixed=False, j_pre=True, xlimit=None, incs=20, nfev=8,
           cycl=4, ftol=1e-8, xtol=1e-8, stepcontrol=True, maxfac=10, minfac=1e-6, reduce=8,
           increase=1, dxtol=1.25, verbose=0)


@st.composite
def system(draw, linear=False):
    n = draw(st.integers(1, 4))
    q = lambda a, b, d: draw(st.integers(a, b)) / d  # noqa: E731
    A = [[q(-8, 8, 16) for _ in range(n)] for _ in range(n)]
    for k in range(n):
        A[k][k] += draw(st.sampled_from([2.0, 4.0, 3.0, -3.0, 1.5]))
    s = {"A": A, "f": [q(-8, 8, 4) for _ in range(n)], "u0": [q(-8, 8, 8) for _ in range(n)],
         "kind": "linear" if linear else draw(st.sampled_from(["snap", "sin", "log", "pair", "kink", "exp"])),
         "c": [q(1, 12, 4) for _ in range(n)]}
    s["f"][draw(st.integers(0, n - 1))] = draw(st.sampled_from([1.0, -1.0, 0.25, 3.0]))
    return s


class System:
    """r(u) = load factor times f"""

    def __init__(self, s):
        self.A, self.c, self.u0 = np.array(s["A"]), np.array(s["c"]), np.array(s["u0"])
        self.f = np.array(s["f"])
        self.kind = s["kind"]
        self.written = []
        self.calls = 0

    def h(self, v):
        c = self.c
        if self.kind == "snap":  # a maximum and a minimum
            return c * (v**3 * 8 - 6 * v**2)
        if self.kind == "sin":
            return c * np.sin(3 * v)
        if self.kind == "log":  # not a number below -1
            return c * np.log(1 + v)
        if self.kind == "pair":  # not symmetric
            return c * v * np.roll(v, 1)
        if self.kind == "kink":
            return c * np.where(v > 0.1, 0.5 * (v - 0.1), 0)
        if self.kind == "exp":
            return c * (np.exp(np.clip(v, -20, 20)) - 1)
        return 0 * v

    def dh(self, v):
        c = self.c
        if self.kind == "snap":
            return np.diag(c * (24 * v**2 - 12 * v))
        if self.kind == "sin":
            return np.diag(3 * c * np.cos(3 * v))
        if self.kind == "log":
            return np.diag(c / (1 + v))
        if self.kind == "pair":
            return np.diag(c * np.roll(v, 1)) + np.diag(c * v) @ np.roll(np.eye(len(v)), 1, axis=0)
        if self.kind == "kink":
            return np.diag(c * np.where(v > 0.1, 0.5, 0))
        if self.kind == "exp":
            return np.diag(c * np.exp(np.clip(v, -20, 20)))
        return np.zeros((len(v), len(v)))

    def bend(self, v):
        """(how much the stiffness changes per displacement, how much at once)"""
        c = self.c
        if self.kind == "snap":
            return (c * np.abs(48 * v - 12)).max() + 48 * c.max() * 0.01, 0.0
        if self.kind == "sin":
            return 9 * c.max(), 0.0
        if self.kind == "log":
            return (c / (1 + v) ** 2).max() * 4, 0.0
        if self.kind == "pair":
            return 2 * c.max(), 0.0
        if self.kind == "kink":
            return 0.0, 0.5 * c.max()
        if self.kind == "exp":
            return (c * np.exp(np.clip(v, -20, 20))).max() * 2, 0.0
        return 0.0, 0.0

    def r(self, u):
        return self.A @ (u - self.u0) + self.h(u - self.u0)

    def K(self, u):
        return self.A + self.dh(u - self.u0)

    # --- as the solver asks for it
    def g(self, V, V0, stage="G", analysis=None, statev_write=False):
        V = np.asarray(V)
        self.calls += 1
        if statev_write:
            self.written.append(np.array(V))
        # the state at the last evaluated point is kept in the analysis
        if analysis is not None:
            analysis.U[0] = V[:-1]
            analysis.r[0] = self.r(V[:-1])
            analysis.element_stress[0, 0] = V[-1]
        return V[-1] * self.f - self.r(V[:-1])

    def dgdx(self, U, analysis=None, **k):
        return self.K(np.asarray(U))

    def analysis(self):
        a = tp.Analysis()
        n = len(self.f)
        a.build(1, 1, n, np.arange(0), np.arange(n))
        a.f0red = self.f.reshape(n, 1)
        a.U[0] = self.u0
        a.r[0] = self.r(self.u0)
        return a


def follow(s, kw, integers=False):
    """(system, rows, analyses, printed text)"""
    from trusspy.solvers import pathfollow

    S = System(s)
    a = S.analysis()
    x = S.u0.astype(int) if integers else S.u0.copy()
    with contextlib.redirect_stdout(io.StringIO()) as buf, np.errstate(all="ignore"):
        X, R = pathfollow(S.g, S.dgdx, x, a, **kw)
    need(np.array_equal(x, S.u0), "the start vector was changed")
    X = np.asarray(X)
    if X.ndim == 1:
        X = X[None]
    need(X.shape == (len(R), len(x) + 1), "%d analyses and solutions of shape %s for %d unknowns", len(R), X.shape, len(x))
    need(np.array_equal(X[0], np.append(x, 0)), "the first solution %s is not the start vector", X[0])
    for i, (v, b) in enumerate(zip(X, R)):
        need(np.array_equal(b.U[0], v[:-1]) and np.array_equal(b.element_stress[0], v[-1:]),
             "the state kept with solution %d is the one of %s, not of %s", i, b.U[0], v)
        need(b.element_stress0[0, 0] == X[max(i - 1, 0)][-1], "solution %d starts from the stress of another one", i)
    return S, X, R, buf.getvalue()


@st.composite
def options(draw, n):
    """keyword arguments of pathfollow for n unknowns"""
    v = lambda: draw(st.sampled_from([0.02, 0.05, 0.1, 0.3, 0.01]))  # noqa: E731
    form = draw(st.sampled_from(["scalar", "two", "two", "all"]))
    kw = {"dxmax": v() if form == "scalar" else [v(), v()] if form == "two" else [v() for _ in range(n + 1)],
          "incs": draw(st.integers(1, 25))}
    o = {
        "nfev": [8, 3, 5, 2, 12, 1], "cycl": [4, 3, 6, 2, 1], "ftol": [1e-8, 1e-6, 1e-10, 1e-3, 1e-2],
        "xtol": [1e-8, 1e-6, 1e-2, 1e-10], "stepcontrol": [True, False], "maxfac": [10, 1, 2, 1.5],
        "minfac": [1e-6, 0.1, 1.0, 1e-2], "reduce": [8, 2, 1.5], "increase": [1, 0.5, 0, 2],
        "dxtol": [1.25, 1.000001, 1.1], "verbose": [0, 1, 2], "j_pre": [True, False],
    }
    for k, w in o.items():
        if draw(st.integers(0, 2)) > 0:
            kw[k] = draw(st.sampled_from(w))
    if draw(st.integers(0, 3)) == 0:
        kw["j_fixed"] = True
        kw["j"] = draw(st.integers(1, n + 1)) * draw(st.sampled_from([1, 1, -1]))
    elif draw(st.integers(0, 3)) == 0:
        kw["j"] = draw(st.integers(1, n + 1)) * draw(st.sampled_from([1, 1, -1]))
    if draw(st.booleans()):
        kw["xlimit"] = [draw(st.integers(1, n + 1)), draw(st.sampled_from([0.1, 0.5, 0.25, 1.0, 2.0]))]
    return kw


@st.composite
def path_case(draw):
    s = draw(system())
    return {"s": s, "kw": draw(options(len(s["f"])))}


def full(dxmax, n):
    """limits of all components, load factor included"""
    if not isinstance(dxmax, list):
        return np.full(n, float(dxmax))
    if len(dxmax) == 2:
        return np.array([dxmax[0]] * (n - 1) + [dxmax[1]], dtype=float)
    return np.array(dxmax, dtype=float)


def attempts(out, o, tags):
    """an increment is tried `cycl` times, and again after a forced reduction"""
    for k, t in enumerate(out.split("### Increment")[1:]):
        n = t.count("* recycling increment") + 1
        forced = t.count("(max. recycles reached)")
        most = o["cycl"] + forced * (o["cycl"] - 1)
        need(n <= most, "increment %d is tried %d times, at most %d are allowed (%d forced reductions)",
             k + 1, n, most, forced)
        if n > 1:
            tags.add("repeated attempt")
        if "ERROR 1" in t:
            need(n == most, "increment %d is given up after %d of %d attempts", k + 1, n, most)
            tags.add("all attempts used")


def check_path(c):
    kw = dict(c["kw"])
    form = isinstance(kw["dxmax"], list) and len(kw["dxmax"]) > 2
    if form:
        kw["dxmax"] = np.array(kw["dxmax"])
    keep = np.array(kw["dxmax"])
    S, X, R, out = follow(c["s"], kw)
    need(np.array_equal(keep, np.array(kw["dxmax"])), "the limits handed over were changed")
    o = dict(DOC, **c["kw"])
    m = X.shape[1]
    d0 = full(o["dxmax"], m)
    tags = {"kind:" + c["s"]["kind"], "unknowns:%d" % (m - 1)}
    need(len(X) - 1 <= o["incs"], "%d increments, %d are allowed", len(X) - 1, o["incs"])
    lim = o["xlimit"]
    for i in range(1, len(X)):
        x, a = X[i], R[i]
        where = "increment %d" % i
        need(np.isfinite(x).all(), "%s: solution %s", where, x)
        g = S.r(x[:-1]) - x[-1] * S.f
        need(np.linalg.norm(g) <= o["ftol"] * (1 + 1e-6) + 1e-12, "%s: residual %r", where, np.linalg.norm(g))
        need(np.array_equal(a.Vred, x) and np.array_equal(a.Ured, x[:-1]) and a.lpf == x[-1],
             "%s: the analysis is of %s, the solution is %s", where, a.Vred, x)
        w = np.asarray(a.dVmax, dtype=float)
        q = w / d0
        need(np.ptp(q) <= 1e-9 * q[0], "%s: limits %s are not a multiple of %s", where, w, d0)
        need(o["minfac"] * (1 - 1e-9) <= q[0] <= max(o["maxfac"], 1) * (1 + 1e-9), "%s: factor %r of the limits", where, q[0])
        if not o["stepcontrol"]:
            need(abs(q[0] - 1) <= 1e-12, "%s: factor %r of the limits", where, q[0])
        D = x - X[i - 1]
        j = int(a.j)
        need(1 <= abs(j) <= m, "%s: control component %d", where, j)
        if o["j_fixed"]:
            need(j == o["j"], "%s: control component %d, fixed is %d", where, j, o["j"])
        else:
            need((np.abs(D) <= o["dxtol"] * w * (1 + 1e-9)).all(), "%s: change %s over the limits %s", where, D, w)
        k = abs(j) - 1
        need(abs(D[k] - np.sign(j) * w[k]) <= 2 * o["ftol"] + 1e-12,
             "%s: control component %d changes by %r, not %r", where, j, D[k], np.sign(j) * w[k])
        # the correction that one more iteration would make
        J = np.zeros((m, m))
        J[:-1, :-1], J[:-1, -1], J[-1, k] = S.K(x[:-1]), -S.f, 1
        sv = np.linalg.svd(J, compute_uv=False)
        bend, jump = S.bend(x[:-1] - S.u0)
        xt = o["xtol"]
        if np.isfinite(sv).all() and sv[-1] > 1e-8:
            rest = np.append(-g, np.sign(j) * w[k] - D[k])
            more = np.linalg.norm(np.linalg.solve(J, rest))
            size = np.abs(J).max() * (1 + np.abs(x).max() + np.abs(S.u0).max())
            allowed = xt * 1.01 + (10 * bend * xt**2 + 4 * jump * xt + 1e-13 * size) / sv[-1]
            need(more <= allowed, "%s: one more iteration changes the solution by %r, tolerance is %r",
                 where, more, xt)
            if allowed < o["ftol"] / 10:
                tags.add("tight tolerance of the unknowns")
        if lim is not None and i < len(X) - 1:
            need(abs(x[lim[0] - 1]) <= lim[1], "%s is over the limit %s and not the last one", where, lim)
        tags.add("control:" + ("load" if k == m - 1 else "unknown") + (" down" if j < 0 else ""))
        for b in R[1:i]:
            need(not np.shares_memory(np.asarray(a.Vred), np.asarray(b.Vred)), "%s shares its solution with another one", where)
    need(len(S.written) == len(X) - 1 and all(np.array_equal(a, b) for a, b in zip(S.written, X[1:])),
         "the state was to be written at %d points, recorded are %d", len(S.written), len(X) - 1)
    over = lim is not None and len(X) > 1 and abs(X[-1][lim[0] - 1]) > lim[1]
    need(("EXIT 1" in out) == over, "notice of the limit %s, last solution %s, limit %s", "EXIT 1" in out, X[-1], lim)
    if len(X) - 1 < o["incs"] and not over:
        need("ERROR" in out, "ends after %d of %d increments without a notice", len(X) - 1, o["incs"])
        tags.add("gave up")
    else:
        need("ERROR" not in out, "a notice of an error although all increments are there")
    if o["verbose"] > 0:
        attempts(out, o, tags)
    if over:
        tags.add("limit")
    if form:
        tags.add("own limit of every component")
    return len(X) > 3, sorted(tags)


# -- linear systems: the path is known ----------------------------------------


@st.composite
def linear_case(draw):
    s = draw(system(linear=True))
    n = len(s["f"])
    kw = {"dxmax": draw(options(n))["dxmax"], "incs": draw(st.integers(1, 12)),
          "stepcontrol": draw(st.booleans()), "dxtol": 1.000001, "increase": draw(st.sampled_from([1, 0.5, 0])),
          "maxfac": draw(st.sampled_from([10, 2, 1])), "nfev": draw(st.sampled_from([8, 5, 12])),
          "j_pre": draw(st.integers(0, 3)) > 0}
    if draw(st.booleans()):
        kw["j"] = draw(st.integers(1, n + 1)) * draw(st.sampled_from([1, 1, -1]))
    return {"s": s, "kw": kw}


def check_linear(c):
    kw = dict(c["kw"])
    if isinstance(kw["dxmax"], list) and len(kw["dxmax"]) > 2:
        kw["dxmax"] = np.array(kw["dxmax"])
    s = System(c["s"])
    if abs(np.linalg.det(s.A)) < 1e-2 or np.linalg.cond(s.A) > 1e4:
        return False, ["singular"]
    S, X, R, out = follow(c["s"], kw)
    t = np.append(np.linalg.solve(S.A, S.f), 1.0)
    d0 = full(c["kw"]["dxmax"], len(t))
    rel = np.abs(t) / d0
    top = np.sort(rel)[::-1]
    if len(top) > 1 and top[1] > top[0] * (1 - 1e-4):
        return False, ["two components at their limit"]
    step = t / top[0]
    # in the direction of the initial control component, by default a growing load factor
    j = kw.get("j") or len(t)
    if abs(step[abs(j) - 1]) < 1e-3:
        return False, ["control component without change"]
    step = step * np.sign(step[abs(j) - 1] * j)
    need(len(X) - 1 == kw["incs"], "%d of %d increments of a linear system", len(X) - 1, kw["incs"])
    x = np.append(S.u0, 0.0)
    for i in range(1, len(X)):
        f = float(np.asarray(R[i].dVmax)[0] / d0[0])
        x = x + f * step
        need(np.abs(X[i] - x).max() <= 1e-7 * (1 + np.abs(x).max()) * np.linalg.cond(S.A),
             "increment %d of a linear system is %s, not %s", i, X[i], x)
    return len(X) > 2 and len(t) > 2, ["unknowns:%d" % (len(t) - 1), "initial control %s" % ("load" if abs(j) == len(t) else "unknown") + (" down" if j < 0 else "")]


# -- forms of the arguments and documented defaults ---------------------------


@st.composite
def forms_case(draw):
    s = draw(system())
    kw = draw(options(len(s["f"])))
    if draw(st.integers(0, 3)) == 0:
        s["u0"] = [float(round(v)) for v in s["u0"]]
    # attempts fail
    rough = {"nfev": draw(st.sampled_from([2, 3, 4])), "dxmax": [draw(st.sampled_from([0.5, 1.0, 0.2])), 1.0]} if draw(st.booleans()) else {}
    return {"s": s, "kw": kw, "rough": rough, "as": draw(st.sampled_from(["full", "list", "same", "same", "defaults", "defaults", "defaults", "integers"])),
            "omit": draw(st.lists(st.sampled_from(sorted(DOC)), unique=True, max_size=12))}


def check_forms(c):
    kw = dict(c["kw"])
    n = len(c["s"]["f"]) + 1
    c.setdefault("rough", {})
    a = dict(kw)
    b = dict(kw)
    if isinstance(kw["dxmax"], list) and len(kw["dxmax"]) > 2:
        a["dxmax"] = b["dxmax"] = np.array(kw["dxmax"])
    if c["as"] == "full":
        b["dxmax"] = full(kw["dxmax"], n)
    elif c["as"] == "list":
        b["dxmax"] = [float(v) for v in full(kw["dxmax"], n)]
    elif c["as"] == "same":  # other types of the same numbers
        d = b["dxmax"]
        if isinstance(d, float):
            if c["omit"] and len(c["omit"]) % 2:
                a["dxmax"], d = 1.0, 1
            b["dxmax"] = [d, np.float64(d), np.array(d)][len(c["omit"]) % 3]
        else:
            b["dxmax"] = [tuple(float(v) for v in d), np.array(d)][len(c["omit"]) % 2]
        if "xlimit" in b:
            b["xlimit"] = tuple(b["xlimit"])
        b["incs"] = np.int64(b["incs"])
    elif c["as"] == "integers":
        if any(v % 1 for v in c["s"]["u0"]):
            return False, ["no integers"]
    elif c["as"] == "defaults":
        a.update(c["rough"])
        b.update(c["rough"])
        # leaving an argument out is the documented default
        for k in c["omit"]:
            if k not in ("j", "j_fixed"):
                a[k] = DOC[k]
                b.pop(k, None)
    _, X, R, out = follow(c["s"], a)
    _, Y, Q, out2 = follow(c["s"], b, c["as"] == "integers")
    need(X.shape == Y.shape and np.array_equal(X, Y), "solutions differ with %s: %s and %s increments",
         c["as"], len(X) - 1, len(Y) - 1)
    need(out == out2, "printed text differs with %s", c["as"])
    return len(X) > 2, ["as " + c["as"]]


PARTS = [
    Part("path", path_case, check_path, 3000, 60000),
    Part("linear", linear_case, check_linear, 1600, 24000),
    Part("forms", forms_case, check_forms, 2400, 24000),
]
