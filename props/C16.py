"""History and path plots show exactly the recorded values."""
import numpy as np
from hypothesis import strategies as st

from vf import gen
from vf.build import make, solve
from vf.common import need, snapshot
from vf.core import Part

RULE = (
    "a case counts as non-trivial if a drawn curve has at least three points (history) "
    "or two points (path) that are not all equal"
)
ASSUMPTIONS = [
    "what the figure shows is read from the line, label, tick and legend objects of matplotlib",
]

QUANT = ["Displacement X", "Displacement Y", "Displacement Z", "Force X", "Force Y", "Force Z",
         "LPF"]


@st.composite
def model(draw, size="small", **kw):
    if size == "large":
        return draw(gen.large_spec(max_steps=1))
    if size == "long":
        return draw(gen.truss_spec(incs=(60, 130), max_free=1, max_steps=2, sett_calm=True))
    return draw(gen.truss_spec(incs=(2, 6), max_free=2, max_steps=3, sett_calm=True, **kw))


@st.composite
def history_case(draw, size="small"):
    spec = draw(model(size))
    labs = [n[0] for n in spec["nodes"]]
    plots = []
    for _ in range(draw(st.integers(1, 5))):
        plots.append([
            [draw(st.sampled_from(labs)), draw(st.sampled_from(labs))],
            draw(st.sampled_from(QUANT + ["Increments"])),
            draw(st.sampled_from(QUANT + ["Increments"])),
            draw(st.sampled_from([0, 0, 1, 1, 2, 3])),  # into the k-th last figure
        ])
        if draw(st.integers(0, 4)) == 0:
            # something of the defaults
            for k, v in draw(st.sampled_from([((1, "Displacement X"),), ((2, "LPF"),), ((1, "Displacement X"), (2, "LPF"))])):
                plots[-1][k] = v
        if 1 in labs and draw(st.integers(0, 4)) == 0:
            plots[-1][0] = [1, 1]
    return {"spec": spec, "plots": plots, "omit": draw(st.booleans())}


@st.composite
def path_case(draw, size="small"):
    spec = draw(model(size))
    labs = [n[0] for n in spec["nodes"]]
    plots = []
    for _ in range(draw(st.integers(1, 5))):
        path = draw(st.lists(st.sampled_from(labs), min_size=1, max_size=6))
        kind = draw(st.sampled_from(["list", "tuple", "array", "range"]))
        plots.append([path, kind, draw(st.sampled_from(QUANT)),
                      draw(st.sampled_from([-1, 0, 1, 2, -2, 3])), draw(st.sampled_from([0, 0, 1, 1, 2, 3]))])
        if 1 in labs and draw(st.integers(0, 4)) == 0:
            plots[-1][:2] = [[1], "list"]
        if draw(st.integers(0, 4)) == 0:
            plots[-1][2] = "Displacement X"
    return {"spec": spec, "plots": plots, "omit": draw(st.booleans())}


def args(omit, kw, **defaults):
    """keyword arguments, those that are the defaults may be left out"""
    return {k: v for k, v in kw.items() if not (omit and isinstance(v, type(defaults[k])) and v == defaults[k])}


def expected(M, lab, q, R=None):
    """the recorded values of a quantity over all increments"""
    idx = sorted(int(x) for x in M.Nodes.labels).index(lab)
    k = "XYZ".find(q[-1])
    out = []
    for i, r in enumerate(M.Results.R if R is None else [R]):
        if q.startswith("Displacement"):
            out.append(r.U[idx][k])
        elif q.startswith("Force"):
            out.append(r.r[idx][k])
        elif q == "LPF":
            out.append(r.lpf)
        else:
            out.append(i)
    return np.array(out, dtype=float)


def legend(ax):
    g = ax.get_legend()
    need(g is not None, "there is no legend")
    return [t.get_text() for t in g.get_texts()]


def same(got, want, msg, *a):
    got = np.asarray(got, dtype=float)
    need(got.shape == want.shape, msg + ": %d points, not %d", *a, got.size, want.size)
    need(np.array_equal(got, want, equal_nan=True), msg + ": %s, not %s", *a, got, want)


def varied(v):
    return len(v) > 1 and np.ptp(v) > 0


def check_history(c):
    import matplotlib.pyplot as plt

    M = make(c["spec"])
    solve(M)
    snap = snapshot(M)
    figs = []
    nt = False
    tags = set()
    for nodes, X, Y, into in c["plots"]:
        if into and figs:
            fig, ax, have = figs[-1 - (into - 1) % len(figs)]
            f2, a2 = M.plot_history(nodes=nodes, X=X, Y=Y, fig=fig, ax=ax)
            need(f2 is fig and a2 is ax, "the plot is not in the given figure")
            tags.add("into a given figure")
        else:
            n0 = len(plt.get_fignums())
            fig, ax = M.plot_history(**args(
                c["omit"], dict(nodes=nodes, X=X, Y=Y), nodes=[1, 1], X="Displacement X", Y="LPF"))
            need(len(plt.get_fignums()) == n0 + 1, "a plot without figure does not make one")
            have = []
            figs.append((fig, ax, have))
        have.append([expected(M, nodes[0], X), expected(M, nodes[1], Y), "Node %d" % nodes[0]])
        for _, a, h in figs:
            need(len(a.lines) == len(h), "%d curves after %d plots into a figure", len(a.lines), len(h))
        for l, (x, y, lab) in zip(ax.lines, have):
            same(l.get_xdata(), x, "history of %s of node %d", X, nodes[0])
            same(l.get_ydata(), y, "history of %s of node %d", Y, nodes[1])
        need(ax.get_xlabel() == X and ax.get_ylabel() == Y, "axis labels %r, %r", ax.get_xlabel(), ax.get_ylabel())
        need(legend(ax) == [h[2] for h in have], "legend is %s", legend(ax))
        need(len(have[-1][0]) == len(snap), "%d points, %d increments", len(have[-1][0]), len(snap))
        nt = nt or (len(snap) > 2 and (varied(have[-1][0]) or varied(have[-1][1])))
        tags.add(X.split()[0] + "-" + Y.split()[0])
    if M.Settings.nsteps > 1:
        tags.add("several steps")
    return nt, sorted(tags)


def check_path(c):
    import matplotlib.pyplot as plt

    M = make(c["spec"])
    solve(M)
    n = len(M.Results.R)
    labs = sorted(int(x) for x in M.Nodes.labels)
    figs = []
    nt = False
    tags = set()
    for path, kind, Y, inc, into in c["plots"]:
        inc = inc if -n <= inc < n else -1
        run = 1
        while labs[0] + run in labs:
            run += 1
        if kind == "range":
            if run < 2:
                continue
            given = range(labs[0], labs[0] + run)
            path = list(given)
        else:
            given = {"list": list, "tuple": tuple, "array": np.array}[kind](path)
        if into and figs:
            fig, ax, have = figs[-1 - (into - 1) % len(figs)]
            f2, a2 = M.plot_path(given, inc, Y, fig, ax)
            need(f2 is fig and a2 is ax, "the plot is not in the given figure")
            tags.add("into a given figure")
        else:
            n0 = len(plt.get_fignums())
            fig, ax = M.plot_path(**args(
                c["omit"], dict(nodepath=given, increment=inc, Y=Y), nodepath=[1], increment=-1, Y="Displacement X"))
            need(len(plt.get_fignums()) == n0 + 1, "a plot without figure does not make one")
            have = []
            figs.append((fig, ax, have))
        R = M.Results.R[inc]
        y = np.array([expected(M, l, Y, R)[0] for l in path])
        have.append([y, inc])
        for _, a, h in figs:
            need(len(a.lines) == len(h), "%d curves after %d plots into a figure", len(a.lines), len(h))
        for l, (w, _) in zip(ax.lines, have):
            same(l.get_ydata(), w, "path of %s, increment %d, nodes %s", Y, inc, path)
        x = np.asarray(ax.lines[-1].get_xdata(), dtype=float)
        need(len(x) == len(path) and (np.diff(x) > 0).all(), "the nodes are not drawn in the listed order: %s", x)
        # the ticks name the nodes
        named = dict(zip([float(t) for t in ax.get_xticks()], [t.get_text() for t in ax.get_xticklabels()]))
        for p, l in zip(x, path):
            if kind == "range":
                need(p == l, "node %d is drawn at %s", l, p)
            else:
                need(named.get(float(p)) == str(int(l)), "tick at node %d is %r", l, named.get(float(p)))
        if kind == "range":
            for p, txt in named.items():
                need(str(int(p)) == txt, "tick at %s is %r", p, txt)
        need(ax.get_ylabel() == Y, "axis label %r, not %r", ax.get_ylabel(), Y)
        ok = [{"Increment %d" % i, "Increment %d" % (i % n)} for _, i in have]
        lg = legend(ax)
        need(len(lg) == len(ok) and all(a in b for a, b in zip(lg, ok)), "legend is %s", lg)
        nt = nt or varied(y)
        tags |= {Y.split()[0], "given as " + kind}
    return nt, sorted(tags)


PARTS = [
    Part("history", history_case, check_history, 500, 8000),
    Part("path", path_case, check_path, 500, 8000),
    Part("long", lambda: history_case("long"), check_history, 24, 400),
    Part("large", lambda: path_case("large"), check_path, 24, 400),
]
