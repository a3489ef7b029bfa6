"""Model plots show the structure, loads and contours of the requested increment."""
import math

import numpy as np
from hypothesis import strategies as st

from vf import gen
from vf.build import make, solve
from vf.common import arr, need
from vf.core import Part
from vf.ref import Ref

RULE = (
    "a case counts as non-trivial if at least one drawn increment is loaded and "
    "deformed and it has at least one visible load arrow or a contour"
)
ASSUMPTIONS = [
    "what the figure shows is read from the artists of matplotlib: points, two-point "
    "lines, arrows, labels; of bars drawn at the same place the topmost lines count",
    "colours of contours are those of the ten-level blue-white-red map the plot uses, a "
    "value next to the border of two levels may have either colour",
]
VIEWS = {"xz": (0, 2), "xy": (0, 1), "yz": (1, 2), "3d": (0, 1, 2)}


@st.composite
def model(draw):
    spec = draw(gen.truss_spec(incs=(1, 5), max_free=2, max_steps=3))
    unit = draw(st.sampled_from([1.0] * 5 + [2.0 ** -30, 2.0 ** -40, 2.0 ** 20]))
    if unit != 1:
        # the same model with forces in another unit
        for e in spec["elems"]:
            e["mat"] = [v * unit for v in e["mat"]]
        spec["forces"] = [[l, [x * unit for x in v]] for l, v in spec["forces"]]
        s = spec["settings"]
        s["ftol"] = s.get("ftol", 8) - round(math.log10(unit))
    spec["unit"] = unit
    return spec


@st.composite
def case_(draw):
    spec = draw(model())
    plots = []
    for _ in range(draw(st.integers(1, 3))):
        view = draw(st.sampled_from(["xz", "xy", "yz", "3d"]))
        lim = draw(st.sampled_from([1.2, 1.0, None, -3.0]))
        if draw(st.integers(0, 3)) == 0:
            lim = [-4, 4] if view != "3d" else [-3, 4, -3, 3, -1, 4]
            if view != "3d" and draw(st.booleans()):
                lim = [-4, 3, -2, 5]
        con = draw(st.sampled_from([None, "force", "stress", "stretch", "force", "stress"]))
        plots.append({
            "view": view, "contour": con,
            "tuple": draw(st.booleans()),
            "limits": draw(st.sampled_from(["auto", "auto", 1.0, 0.3, 0.01])),
            "inc": draw(st.sampled_from([-1, 0, 1, 2, 3, -2, -3, 7])),
            "scale": draw(st.sampled_from([1.0, 0.5, 2.5, 10.0])),
            "lim": lim, "default": draw(st.integers(0, 9)) == 0,
        })
    return {"spec": spec, "plots": plots}


def visible(l):
    return l.get_visible() and l.get_alpha() != 0


def points2(ax):
    from matplotlib.collections import PathCollection

    P = [np.asarray(c.get_offsets()) for c in ax.collections if isinstance(c, PathCollection) and visible(c)]
    for l in ax.lines:
        if visible(l) and l.get_marker() not in (None, "None", "", " "):
            P.append(np.column_stack(l.get_data()))
    return P


def points3(ax):
    P = []
    for l in ax.lines:
        if visible(l) and l.get_marker() not in (None, "None", "", " "):
            P.append(np.column_stack([np.asarray(v, dtype=float) for v in l.get_data_3d()]))
    for c in ax.collections:
        if hasattr(c, "_offsets3d") and visible(c):
            P.append(np.column_stack([np.asarray(v, dtype=float) for v in c._offsets3d]))
    return P


def bars(ax, three):
    out = []
    for l in ax.lines:
        if not visible(l) or l.get_linestyle() in ("None", "none", "", " "):
            continue
        d = np.column_stack([np.asarray(v, dtype=float) for v in (l.get_data_3d() if three else l.get_data())])
        if len(d) == 2:
            out.append((d, l))
    return out


def arrows2(ax):
    from matplotlib.patches import FancyArrow

    return [(np.array([p._x, p._y]), np.array([p._dx, p._dy])) for p in ax.patches
            if isinstance(p, FancyArrow) and visible(p)]


def arrows3(ax):
    out = []
    for a in list(ax.artists) + list(ax.patches):
        v = getattr(a, "_verts3d", None)
        if v is None:
            continue
        v = np.array([[float(q) for q in x] for x in v])
        out.append((v[:, 0], v[:, 1] - v[:, 0]))
    return out


def match(want, got, tol, what):
    """every wanted (start, vector) is there once; returns what is left"""
    left = list(got)
    for s, d in want:
        for k, (a, b) in enumerate(left):
            if np.abs(a - s).max() <= tol and np.abs(b - d).max() <= tol:
                left.pop(k)
                break
        else:
            need(False, "%s: no arrow from %s by %s; there are %s", what, s, d, got)
    return left


def colours(value, lim):
    import matplotlib.pyplot as plt
    from matplotlib.colors import to_rgba

    cm = plt.get_cmap("bwr", 10)
    under, over = to_rgba("0.6"), to_rgba("0.95")
    lo, hi = lim
    out = set()
    for e in (-1e-9, 0, 1e-9):
        v = (value - lo) / (hi - lo) + e
        c = under if v < 0 else over if v > 1 else cm(min(int(v * 10), 9))
        out.add(tuple(np.round(c, 6)))
        if v == 1:
            out.add(tuple(np.round(cm(9), 6)))
    return out


def check_structure(ax, X, spec, view, cols, what):
    """nodes and bars at their places, with these colours (None: any)"""
    three = view == "3d"
    ij = VIEWS[view]
    P = X[:, ij]
    tol = 1e-9 * (1 + np.abs(X).max())
    pts = points3(ax) if three else points2(ax)
    need(any(p.shape == P.shape and np.abs(p - P).max() <= tol for p in pts)
         or same_points(np.vstack(pts) if pts else np.zeros((0, len(ij))), P, tol, three),
         "%s: nodes are drawn at %s, not at %s", what, [p.tolist() for p in pts], P.tolist())
    lab = sorted(int(n[0]) for n in spec["nodes"])
    want = {}
    for k, e in enumerate(spec["elems"]):
        a, b = (P[lab.index(q)] for q in e["conn"])
        want.setdefault(place(a, b), []).append(k)
    got = {}
    for d, l in bars(ax, three):
        got.setdefault(place(d[0], d[1]), []).append(l)
    need(set(want) == set(got), "%s: bars are drawn at %s, not at %s", what, sorted(got), sorted(want))
    if cols is None:
        return
    from matplotlib.colors import to_rgba

    for q, ks in want.items():
        z = max(l.get_zorder() for l in got[q])
        top = [tuple(np.round(to_rgba(l.get_color()), 6)) for l in got[q] if l.get_zorder() == z]
        need(len(top) == len(ks), "%s: %d bars drawn for %d bars at %s", what, len(top), len(ks), q)
        left = list(top)
        for k in ks:
            hit = [c for c in left if c in cols[k]]
            need(hit, "%s: bar %d has colour %s, not one of %s", what, spec["elems"][k]["label"], left, sorted(cols[k]))
            left.remove(hit[0])


def place(a, b):
    r = lambda v: tuple(np.round(np.asarray(v, dtype=float), 7) + 0.0)  # noqa: E731
    return tuple(sorted([r(a), r(b)]))


def same_points(got, P, tol, three):
    """as sets of points (3d plots have an additional dot at the origin)"""
    def near(p, Q):
        return len(Q) and (np.abs(Q - p).max(1) <= tol).any()

    return all(near(p, got) for p in P) and all(near(p, P) or (three and not np.abs(p).any()) for p in got)


def load(M, ref, i, lam_end):
    k = int(M.Results.R[i].step) - 1
    if i == 0:
        return ref.F[0]
    f = float(M.Results.R[i].lpf) * ref.F[k]
    for q in range(k):
        f = f + lam_end.get(q + 1, 0.0) * ref.F[q]
    return f


def check(c):
    import matplotlib.pyplot as plt

    spec = c["spec"]
    M = make(spec)
    solve(M)
    ref = Ref(spec)
    R = M.Results.R
    n = len(R)
    lam_end = {int(r.step): float(r.lpf) for r in R[1:]}
    X0 = np.array([x[1:] for x in sorted(spec["nodes"])], dtype=float)
    nt = False
    tags = set()
    for p in c["plots"]:
        inc, view, con = p["inc"], p["view"], p["contour"]
        if not -n <= inc < n:
            inc = -1
        i = inc % n
        three = view == "3d"
        field = None
        if con is not None and i > 0:
            field = {"force": lambda r: r.element_force, "stress": lambda r: r.element_stress,
                     "stretch": lambda r: r.stretch}[con](R[i])
            field = arr(field)[:, 0]
        mid = 1.0 if con == "stretch" else 0.0
        limits = "auto"
        if field is not None:
            h = np.abs(field - mid).max()
            if p["limits"] != "auto":
                h = p["limits"] * (h if h > 0 else 1.0)
                limits = [mid - h, mid + h]
            rng = (mid - h, mid + h)
        kw = dict(view=view, inc=inc, contour=con)
        if p["lim"] is not None:
            kw["lim_scale"] = tuple(p["lim"]) if isinstance(p["lim"], list) else p["lim"]
        if limits != "auto":
            if p["tuple"]:
                kw["contour"] = (con, limits)
            else:
                kw["cbar_limits"] = limits
        kw["force_scale"] = scale = p["scale"] / spec["unit"]
        if p["default"]:
            view, con, field, i, scale = "xz", None, None, n - 1, 1.0
            three = False
            kw = {}
        before = plt.get_fignums()
        fig, ax = M.plot_model(**kw)
        what = "plot of increment %d, view %s" % (i, view)
        need(fig.number not in before, "%s is not in a figure of its own", what)
        need(ax.figure is fig, "%s: the axes are not those of the figure", what)
        X = X0 + arr(R[i].U)
        # colours
        if field is None:
            from matplotlib.colors import to_rgba

            cols = [{tuple(np.round(to_rgba("C7"), 6))}] * len(spec["elems"])
        elif rng[1] - rng[0] > 1e-9 * max(1e-12, np.abs(field).max()):
            cols = [colours(v, rng) for v in field]
        else:
            cols = None
        check_structure(ax, X, spec, view, cols, what)
        # loads
        f = load(M, ref, i, lam_end)
        ij = VIEWS[view]
        want = []
        small = 1e-12 * np.abs(ref.F).max()
        skip = []
        for a in range(len(X)):
            for q, comp in enumerate(ij):
                d = np.zeros(len(ij))
                d[q] = scale * f[a, comp]
                if abs(f[a, comp]) > small:
                    want.append((X[a, ij], d))
                elif f[a, comp] != 0:
                    skip.append((X[a, ij], d))
        got = arrows3(ax) if three else arrows2(ax)
        tol = 1e-8 * (1 + np.abs(X).max() + scale * np.abs(f).max())
        left = match(want, got, tol, what)
        if three:
            # the triad of the coordinate system
            left = [(s, d) for s, d in left if not (np.abs(s).max() == 0 and (d != 0).sum() == 1 and d.max() > 0
                                                   and len(left) <= 3 + len(skip))]
        left = [(s, d) for s, d in left if np.abs(d).max() > 2 * tol]
        need(not left, "%s: there is an arrow from %s by %s that is no load", what, *(left[0] if left else (0, 0)))
        # labels
        title = ax.get_title()
        if i == 0:
            need("UNDEFORMED" in title, "%s: title %r", what, title)
        else:
            need("INCREMENT: %d" % i in title.split(",")[0] and title.split(",")[0].split()[-1] == str(i),
                 "%s: title %r", what, title)
        if field is not None:
            txt = " ".join([title] + [a.get_ylabel() for a in fig.axes])
            need(con in txt, "%s: the contour %s is not named: %r", what, con, txt)
            if cols is not None:
                bar = [v for o in fig.axes if o is not ax for v in (o.get_xlim(), o.get_ylim())]
                need(any(np.allclose(v, rng, rtol=1e-6, atol=0) for v in bar),
                     "%s: the colour bar shows %s, the colours %s", what, bar, rng)
        axes = (ax.get_xlabel(), ax.get_ylabel()) + ((ax.get_zlabel(),) if three else ())
        need("".join(axes) == ("xyz" if three else view), "%s: axis labels %s", what, axes)
        # visible part
        lim = kw.get("lim_scale", 1.2)
        shown = [ax.get_xlim(), ax.get_ylim()] + ([ax.get_zlim()] if three else [])
        if isinstance(lim, tuple):
            given = [lim[k:k + 2] for k in range(0, len(lim), 2)] if len(lim) > 2 else [lim, lim]
        elif lim < 0:
            given = [(lim, -lim)] * len(shown)
        else:
            given = None
        if given is not None:
            need(np.allclose(shown, given, rtol=1e-9, atol=0),
                 "%s: the axes show %s, asked for %s", what, shown, lim)
            tags.add("axis limits given")
        elif not three:
            e = 1e-9 * (1 + np.abs(X).max())
            for q in (0, 1):
                x = X[:, ij[q]]
                need(x.min() >= shown[q][0] - e and x.max() <= shown[q][1] + e,
                     "%s: nodes from %s to %s, but the axis shows %s", what, x.min(), x.max(), shown[q])
        if i > 0 and np.abs(R[i].U).max() > 0 and (want or field is not None):
            nt = True
        tags |= {"view " + view, "contour " + (con or "none") if field is not None else "no contour",
                 "step %d" % R[i].step}
        if spec["unit"] != 1:
            tags.add("other unit of force")
        plt.close("all")
    return nt, sorted(tags)


@st.composite
def parts_case(draw):
    return {
        "spec": draw(model()),
        "what": draw(st.lists(st.sampled_from(["nodes", "elements", "forces"]), min_size=1, max_size=3, unique=True)),
        "config": draw(st.sampled_from([None, "undeformed", "deformed"])),
        "run": draw(st.booleans()),
    }


def check_parts(c):
    import matplotlib.pyplot as plt

    spec = c["spec"]
    M = make(spec)
    solve(M)
    ref = Ref(spec)
    X = np.array([x[1:] for x in sorted(spec["nodes"])], dtype=float)
    if c["config"] == "deformed":
        X = X + arr(M.Results.R[-1].U)
    a = () if c["config"] is None else (c["config"],)
    plt.close("all")
    fig = plt.figure()
    ax = fig.gca()
    for w in c["what"]:
        {"nodes": M.plt_nodes, "elements": M.plt_elements, "forces": M.plt_extforces}[w](*a)
    need(plt.get_fignums() == [fig.number] and len(fig.axes) == 1, "the parts are not in the current figure")
    P = X[:, (0, 2)]
    tol = 1e-9 * (1 + np.abs(X).max())
    pts = points2(ax)
    if "nodes" in c["what"]:
        need(len(pts) == 1 and same_points(pts[0], P, tol, False), "nodes are drawn at %s, not at %s", pts, P)
    else:
        need(not pts, "nodes are drawn")
    lab = sorted(int(n[0]) for n in spec["nodes"])
    want = {place(*(P[lab.index(q)] for q in e["conn"])) for e in spec["elems"]} if "elements" in c["what"] else set()
    got = {place(d[0], d[1]) for d, _ in bars(ax, False)}
    need(want == got, "bars are drawn at %s, not at %s", sorted(got), sorted(want))
    want = []
    if "forces" in c["what"]:
        for k in range(len(X)):
            for q, comp in enumerate((0, 2)):
                if ref.F[0][k, comp] != 0:
                    d = np.zeros(2)
                    d[q] = 0.5 * ref.F[0][k, comp]
                    want.append((P[k], d))
    left = match(want, arrows2(ax), 1e-8 * (1 + np.abs(X).max()), "external forces")
    need(not left, "arrows that are no loads: %s", left)
    return len(M.Results.R) > 1, sorted(c["what"]) + [str(c["config"])]


PARTS = [
    Part("model", case_, check, 1200, 16000),
    Part("parts", parts_case, check_parts, 500, 8000),
]
