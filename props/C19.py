"""The Newton solver reports success honestly."""
import contextlib
import io

import numpy as np
from hypothesis import strategies as st

from vf.build import tp  # noqa: F401
from vf.common import need
from vf.core import Part

RULE = (
    "a case counts as non-trivial if the function is not linear and at least two "
    "iterations were made (honest), at least two unknowns (linear), or an error between "
    "1e-7 and 0.5 was squared (quadratic)"
)
ASSUMPTIONS = [
    "decisions next to a tolerance (relative distance below 1e-5) or with an "
    "ill-conditioned derivative (condition above 1e7) are not compared",
]


def newton(*a):
    from trusspy.solvers import newton as nw

    return nw(*a)


@st.composite
def system(draw, linear=False, nmax=5):
    n = draw(st.integers(1, nmax))
    A = [[draw(st.integers(-12, 12)) / 4 for _ in range(n)] for _ in range(n)]
    for k in range(n):
        A[k][k] += draw(st.sampled_from([4.0, -4.0, 6.0, 2.0]))
    c = [0.0] * n if linear else [draw(st.integers(-8, 8)) / 4 for _ in range(n)]
    kind = draw(st.sampled_from(["sin", "cubic", "exp", "square", "cross"]))
    root = [draw(st.integers(-20, 20)) / 8 for _ in range(n)]
    hasroot = draw(st.integers(0, 5)) > 0
    return {"A": A, "c": c, "kind": kind, "root": root, "hasroot": hasroot,
            "scale": draw(st.sampled_from([1.0, 1.0, 1e-3, 1e3, 1e5])),
            "off": draw(st.sampled_from([0.0, 0.5, -2.0, 30.0]))}


def functions(s):
    A, c, r = np.array(s["A"]), np.array(s["c"]), np.array(s["root"])
    k = s["kind"]

    def h(x):
        if k == "sin":
            return c * np.sin(x)
        if k == "cubic":
            return c * x**3 / 10
        if k == "exp":
            return c * np.exp(np.clip(x, -30, 5) / 4)
        if k == "square":
            return c * x**2
        return c * x * np.roll(x, 1) / 4

    def dh(x):
        n = len(x)
        if k == "sin":
            return np.diag(c * np.cos(x))
        if k == "cubic":
            return np.diag(3 * c * x**2 / 10)
        if k == "exp":
            return np.diag(c * np.exp(np.clip(x, -30, 5) / 4) / 4 * ((x > -30) & (x < 5)))
        if k == "square":
            return np.diag(2 * c * x)
        D = np.diag(c * np.roll(x, 1) / 4)
        D = D + np.diag(c * x / 4) @ np.roll(np.eye(n), 1, axis=0)
        return D

    b = A @ r + h(r) if s["hasroot"] else A @ r + 50 * np.abs(h(r)) + 7

    # two extra arguments, as the path-following solver uses them
    def f(x, scale, off):
        return scale * (A @ (x - off) + h(x - off) - b)

    def df(x, scale, off):
        J = scale * (A + dh(x - off))
        # one unknown: a vector of length one as in the docstring
        return J.ravel() if len(r) == 1 and k == "cubic" else J

    return f, df, r + s["off"]


def reference(f, df, x, nfev, ftol, xtol, args):
    """plain Newton iteration; (x, success, n, norms, certain)"""
    certain = True
    for n in range(1, nfev + 1):
        J = df(x, *args).reshape(len(x), len(x))
        if not np.isfinite(J).all() or np.linalg.cond(J) > 1e7:
            return None
        dx = np.linalg.solve(J, -f(x, *args))
        x = x + dx
        fn, xn = np.linalg.norm(f(x, *args)), np.linalg.norm(dx)
        size = np.linalg.norm(J) * (1 + np.linalg.norm(x)) * 1e-12
        for v, t, e in ((fn, ftol, size), (xn, xtol, 1e-9 * (1 + np.linalg.norm(x)))):
            if abs(v - t) <= 1e-5 * t + e:
                certain = False
        if fn < ftol and xn < xtol:
            return x, True, n, fn, xn, certain
    return x, False, nfev, fn, xn, certain


@st.composite
def honest_case(draw):
    s = draw(system())
    n = len(s["c"])
    return {
        "s": s,
        "x0": [draw(st.integers(-40, 40)) / 8 for _ in range(n)],
        "nfev": draw(st.sampled_from([8, 1, 2, 3, 5, 20])),
        "ftol": draw(st.sampled_from([8, 6, 3, 1, -1, -3])),
        "xtol": draw(st.sampled_from([8, 6, 3, 1, -1, 0])),
        "verbose": draw(st.integers(0, 2)),
    }


def check_honest(c):
    s = c["s"]
    f, df, _ = functions(s)
    args = (s["scale"], s["off"])
    ftol, xtol = 10.0 ** -c["ftol"] * s["scale"], 10.0 ** -c["xtol"]
    x0 = np.array(c["x0"]) + s["off"]
    keep = x0.copy()
    wrong = []

    def watch(fun):
        def g(x, *a):
            if a != args:
                wrong.append(a)
            return fun(x, *a)

        return g

    with contextlib.redirect_stdout(io.StringIO()) as buf, np.errstate(all="ignore"):
        x, ok, n, fn, xn = newton(watch(f), watch(df), x0, c["nfev"], ftol, xtol, c["verbose"], *args)
    need(not wrong, "extra arguments %s instead of %s", wrong[:1], args)
    need(np.array_equal(x0, keep), "the start vector was changed")
    need(c["verbose"] > 0 or buf.getvalue() == "", "output without verbose")
    x = np.asarray(x)
    with np.errstate(all="ignore"):
        real = np.linalg.norm(f(x, *args))
    if not np.isfinite(real):
        need(not ok, "success at a point without finite residual")
        return False, ["diverged"]
    need(abs(fn - real) <= 1e-10 * real + 1e-300, "norm of the residual is %s, not %s", fn, real)
    need(1 <= n <= c["nfev"], "%d iterations of %d", n, c["nfev"])
    need(bool(ok) == bool(fn < ftol and xn < xtol), "success is %s with norms %s < %s, %s < %s", ok, fn, ftol, xn, xtol)
    need(ok or n == c["nfev"], "gave up after %d of %d iterations", n, c["nfev"])
    with np.errstate(all="ignore"):
        r = reference(f, df, keep, c["nfev"], ftol, xtol, args)
    if r is None:
        return False, ["ill-conditioned"]
    rx, rok, rn, rfn, rxn, certain = r
    # far from a root the iteration can be chaotic: only what a small disturbance of
    # the start does not change is compared
    for d in (1e-9, -3e-10):
        with np.errstate(all="ignore"):
            q = reference(f, df, keep + d * (1 + np.abs(keep)) * np.linspace(1, 2, len(keep)), c["nfev"], ftol, xtol, args)
        if q is None or q[1:3] != (rok, rn) or np.abs(q[0] - rx).max() > 1e-6 * (1 + np.linalg.norm(rx)):
            return False, ["decided by rounding"]
    if not certain:
        return False, ["next to a tolerance"]
    if np.linalg.norm(rx) > 1e6:
        return False, ["far away"]
    need(n == rn and bool(ok) == rok, "success %s after %d iterations, Newton's method has %s after %d", ok, n, rok, rn)
    sz = 1 + np.linalg.norm(rx)
    need(np.abs(x - rx).max() <= 1e-5 * sz, "solution %s, not %s", x, rx)
    need(abs(xn - rxn) <= 1e-5 * sz, "norm of the last step is %s, not %s", xn, rxn)
    nl = any(s["c"])
    return nl and n >= 2, ["success" if ok else "no success", s["kind"], "n:%d" % n]


@st.composite
def linear_case(draw):
    s = draw(system(linear=True, nmax=7))
    s["hasroot"] = True
    return {"s": s, "x0": [draw(st.integers(-4000, 4000)) / 8 for _ in s["c"]]}


def check_linear(c):
    s = c["s"]
    f, df, root = functions(s)
    args = (s["scale"], s["off"])
    A = np.array(s["A"])
    cond = np.linalg.cond(A)
    if not np.isfinite(cond) or cond > 1e6:
        return False, ["ill-conditioned"]
    x0 = np.array(c["x0"])
    tol = 1e-12 * cond * (np.linalg.norm(x0) + np.linalg.norm(root) + 1)
    x, ok, n, fn, xn = newton(f, df, x0, 1, 1e-8, 1e-8, 0, *args)
    need(n == 1, "%d iterations instead of one", n)
    need(np.abs(x - root).max() <= tol, "one iteration gives %s, the root is %s", x, root)
    dx = np.linalg.norm(x0 - root)
    need(abs(xn - dx) <= tol * 10, "the norm of the step is %s, not %s", xn, dx)
    x, ok, n, fn, xn = newton(f, df, x0, 8, 1e-4 * s["scale"] * (1 + dx), 1e-4 * (1 + dx), 0, *args)
    need(ok and n <= 2, "success %s after %d iterations of a linear system", ok, n)
    return len(root) >= 2, ["n:%d" % len(root)]


@st.composite
def quad_case(draw):
    s = draw(system())
    s["hasroot"] = True
    s["kind"] = "sin"
    n = len(s["c"])
    d = [draw(st.integers(-8, 8)) / 8 for _ in range(n)]
    return {"s": s, "d": d, "size": draw(st.sampled_from([0.5, 0.1, 0.02, 1e-3, 1e-5]))}


def check_quad(c):
    s = c["s"]
    f, df, root = functions(s)
    args = (s["scale"], s["off"])
    e = np.array(c["d"]) * c["size"]
    x = root + e
    L = max(abs(v) for v in s["c"])
    nt = False
    for _ in range(4):
        J = df(x, *args) / s["scale"]
        inv = np.linalg.norm(np.linalg.inv(J), 2) if np.linalg.cond(J) < 1e6 else np.inf
        if not np.isfinite(inv):
            break
        e0 = np.linalg.norm(x - root)
        if e0 > 2:
            break
        y = newton(f, df, x, 1, 1e-8, 1e-8, 0, *args)[0]
        e1 = np.linalg.norm(y - root)
        bound = 0.5 * inv * L * e0**2 + 1e-12 * (1 + np.linalg.norm(root)) * (1 + inv * np.linalg.norm(J))
        need(e1 <= bound * (1 + 1e-9), "error %s after one iteration from error %s, quadratic convergence gives at most %s", e1, e0, bound)
        nt = nt or (1e-7 < e0 < 0.5 and L > 0)
        x = y
    return nt, ["n:%d" % len(root)]


PARTS = [
    Part("honest", honest_case, check_honest, 6000, 150000),
    Part("linear", linear_case, check_linear, 2500, 60000),
    Part("quadratic", quad_case, check_quad, 2500, 60000),
]
