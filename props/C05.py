"""Supports hold; undefined is free and unloaded; reactions balance the loads."""
import copy

import numpy as np
from hypothesis import strategies as st

from vf import build, gen
from vf.common import EPS, Run, arr, close, need
from vf.core import Part

RULE = (
    "balance: at least one increment with bar forces was recorded; undefined: at "
    "least one boundary or force entry was left out and an increment recorded; "
    "build: always"
)


def check_balance(spec):
    run = Run(spec)
    ref = run.ref
    big = 0.0
    lists = [("the model's list", run.M.nproDOF0, run.M.nproDOF1)]
    lists += [("increment %d's list" % i, x.DOF0, x.DOF1) for i, x in enumerate(run.R)]
    for what, locked, free in lists:
        for kind, got, want in (("locked", locked, ~ref.free), ("free", free, ref.free)):
            need(
                sorted(arr(got).ravel().tolist()) == np.flatnonzero(want.ravel()).tolist(),
                "%s of %s components: %s", what, kind, got,
            )
    for i, x in enumerate(run.R):
        U = arr(x.U)
        need(U.shape == (ref.nn, 3), "shape of the displacements %s", U.shape)
        need((U[~ref.free] == 0).all(), "increment %d: a locked component moved", i)
        need((arr(x.U0)[~ref.free] == 0).all(), "increment %d: a locked component started displaced", i)
        r = arr(x.r)
        N = np.abs(arr(x.element_force)).sum()
        xc = ref.X + U
        tol = 200 * EPS * (N + np.abs(r).sum()) * (1 + np.abs(xc).max())
        need(np.abs(r.sum(0)).max() <= tol, "increment %d: resultant force %s", i, r.sum(0))
        for p in (np.zeros(3), np.array([3.0, -7.0, 2.0])):
            m = np.cross(xc - p, r).sum(0)
            need(
                np.abs(m).max() <= tol * 20,
                "increment %d: resultant moment %s about %s", i, m, p,
            )
        if i:
            # reactions balance the loads
            f = run.load(i)
            react = np.where(ref.free, 0.0, r - f)
            total = (react + f).sum(0)
            ftol = 10.0 ** -run.spec["settings"].get("ftol", 8) * (3 * ref.nn)
            need(
                np.abs(total).max() <= ftol + tol + 1e3 * EPS * np.abs(f).sum(),
                "increment %d: loads and reactions do not balance: %s", i, total,
            )
            big = max(big, N)
    return big > 1e-12, run.tags() + (["supports loaded"] if np.any(
        run.ref.F[:, ~ref.free] != 0) else [])


@st.composite
def undefined_case(draw):
    spec = draw(gen.truss_spec(max_steps=2))
    return {"spec": spec, "noforce": draw(st.booleans())}


def full(spec):
    """the same model with every boundary and force entry written out"""
    s = copy.deepcopy(spec)
    labs = [n[0] for n in s["nodes"]]
    have = {b[0] for b in s["bounds"]}
    s["bounds"] += [[l, [1, 1, 1]] for l in labs if l not in have]
    have = {f[0] for f in s["forces"]}
    n = 3 * s["settings"].get("nsteps", 1)
    s["forces"] += [[l, [0.0] * n] for l in labs if l not in have]
    return s


def check_undefined(case):
    spec = copy.deepcopy(case["spec"])
    # loads that are zero everywhere are left out altogether
    spec["forces"] = [f for f in spec["forces"] if any(f[1])]
    left = (
        len(spec["forces"]) < len(spec["nodes"]) or len(spec["bounds"]) < len(spec["nodes"])
    )
    if case["noforce"]:
        spec["forces"] = []
        spec["settings"].pop("nsteps", None)
        for k in ("incs", "xlimit"):
            v = spec["settings"].get(k)
            if isinstance(v, list) and (k == "incs" or isinstance(v[0], list)):
                spec["settings"][k] = v[0]
        spec["settings"].pop("j_fixed", None)
        spec["settings"].pop("j0", None)
    a = Run(spec)
    ref = a.ref
    B, F = a.M.Boundaries, a.M.ExtForces
    need(list(map(int, B.Unodes)) == ref.labels, "boundary labels after build")
    need(list(map(int, F.nodes)) == ref.labels, "force labels after build")
    close(B.Uvalues, ref.free.astype(float), 0, 0, "boundary values after build")
    if case["noforce"]:
        for i, x in enumerate(a.R):
            need((arr(x.U) == 0).all(), "increment %d: an unloaded structure moved", i)
            need((arr(x.r) == 0).all(), "increment %d: forces in an unloaded structure", i)
        need(a.n >= 1, "no increment recorded for an unloaded structure")
        return left, ["no forces"]
    want = np.concatenate(list(ref.F), axis=1)
    got = arr(F.forces)
    close(got[:, : want.shape[1]], want, 0, 0, "forces after build")
    b = Run(full(spec))
    need(len(a.R) == len(b.R), "%d and %d increments", len(a.R), len(b.R))
    for i, (x, y) in enumerate(zip(a.R, b.R)):
        for k in ("U", "r", "element_force", "lpf"):
            close(getattr(x, k), getattr(y, k), 1e-12, 1e-13, "increment %d: %s", i, k)
    return left and a.n >= 1, a.tags()


@st.composite
def build_case(draw):
    g = draw(gen.geometry())
    n = len(g["pos"])
    labs = gen._labels(draw, n)
    sub = lambda: draw(st.lists(st.sampled_from(labs), unique=True, min_size=draw(st.sampled_from([0, 1, n // 2, n])), max_size=n))  # noqa: E731
    return {
        "nodes": list(draw(st.permutations([[l] + p for l, p in zip(labs, g["pos"])]))),
        "conn": [[labs[a], labs[b]] for a, b in g["conn"]],
        "bounds": [
            [l, draw(st.lists(st.integers(0, 1), min_size=3, max_size=3))] for l in sub()
        ],
        "forces": [
            [l, [draw(st.integers(-9, 9)) / 2 for _ in range(3)]] for l in sub()
        ],
        "plastic": draw(st.booleans()),
    }


def check_build(case):
    import contextlib
    import io

    with contextlib.redirect_stdout(io.StringIO()):
        M = build.tp.Model(log=0)
        for n in case["nodes"]:
            M.Nodes.add_node(n[0], n[1:])
        for k, c in enumerate(case["conn"]):
            M.Elements.add_element(
                k + 1, c, mat_type=2 if case["plastic"] else 1,
                material_properties=[1.0, 0.1, 0.01], geometric_properties=[1.0],
            )
        for l, b in case["bounds"]:
            M.Boundaries.add_bound_U(l, b)
        for l, f in case["forces"]:
            M.ExtForces.add_force(l, f)
        M.build()
    labs = sorted(n[0] for n in case["nodes"])
    coords = {n[0]: n[1:] for n in case["nodes"]}
    bounds = {l: [1, 1, 1] for l in labs}
    bounds.update({l: b for l, b in case["bounds"]})
    forces = {l: [0, 0, 0] for l in labs}
    forces.update({l: f for l, f in case["forces"]})
    need(list(map(int, M.Nodes.labels)) == labs, "node labels after build")
    need(list(map(int, M.Boundaries.Unodes)) == labs, "boundary labels after build")
    need(list(map(int, M.ExtForces.nodes)) == labs, "force labels after build")
    close(M.Nodes.coords, [coords[l] for l in labs], 0, 0, "coordinates after build")
    close(M.Boundaries.Uvalues, [bounds[l] for l in labs], 0, 0, "boundaries after build")
    close(M.ExtForces.forces, [forces[l] for l in labs], 0, 0, "forces after build")
    free = np.array([bounds[l] for l in labs]).ravel() == 1
    A = M.Analysis
    need(list(A.DOF1) == list(np.flatnonzero(free)), "free degrees of freedom")
    need(list(A.DOF0) == list(np.flatnonzero(~free)), "locked degrees of freedom")
    need(len(M.Results.R) == 1 and (arr(M.Results.R[0].U) == 0).all(), "initial result")
    t = []
    if not case["forces"]:
        t.append("no forces")
    if not case["bounds"]:
        t.append("no boundaries")
    return True, t


PARTS = [
    Part("balance", lambda: gen.truss_spec(), check_balance, 1000, 16000),
    Part("large", lambda: gen.large_spec(), check_balance, 64, 1600),
    Part("undefined", undefined_case, check_undefined, 500, 8000),
    Part("build", build_case, check_build, 800, 8000),
]
