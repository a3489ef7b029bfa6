"""The solver follows the equilibrium path continuously and in one direction."""
import numpy as np
from hypothesis import strategies as st

from vf import gen
from vf.common import Run, arr, need, sett
from vf.core import Part
from vf.path import PathError, Tracer, distance

RULE = (
    "a case counts as non-trivial if at least two increments were compared with the "
    "independently traced path; increments are compared where the traced path turns by "
    "less than 45 degrees (in coordinates scaled by the step limits) from the last "
    "increment to 1.5 step limits beyond this one and stays away from bifurcation points"
)
ASSUMPTIONS = [
    "increments at sharp bends of the path (relative to the step limits) and next to "
    "bifurcation points are not judged"
]
GAP = 2e-3
COS = 0.75
AHEAD = 1.5  # the path must stay smooth this many step limits beyond the increment


def check(spec, one_way=None):
    run = Run(spec)
    ref = run.ref
    tags = run.tags()
    judged = limit_u = limit_l = 0
    lastdir, skip = None, set()
    for i in range(1, run.n + 1):
        a, b = run.x_before(i), run.x(i)
        w = arr(run.R[i].dVmax)
        k = run.steps[i] - 1
        first = i == 1 or run.steps[i] != run.steps[i - 1]
        const = sum(
            (run.lam_end.get(q + 1, 0.0) * ref.F[q] for q in range(k)), np.zeros((ref.nn, 3))
        )
        dy = (b - a) / w
        if first:
            t0 = np.zeros(len(a))
            t0[-1] = 1.0
        else:
            t0 = lastdir / w
            t0 = t0 / np.linalg.norm(t0)
        lastdir = b - a
        dxtol = sett(spec, "dxtol")
        T = Tracer(ref, const, ref.F[k], w)
        try:
            ta, gap, d = T.tangent(a / w, t0)
            if gap < GAP:
                skip.add("near a bifurcation")
                continue
            if d < (COS if not first else 1e-5):
                skip.add("bend before")
                continue
            pts, ts, gap, cos = T.trace(
                a, t0, lambda q: np.abs(q).max() > dxtol + AHEAD
            )
        except (PathError, FloatingPointError):
            skip.add("reference stopped")
            continue
        if gap < GAP or cos < COS:
            skip.add("bend" if cos < COS else "near a bifurcation")
            continue
        # cut the traced path at the step limits
        dist = distance(pts, ts, b / w)
        # resolution of the recorded point: the solver's own tolerances
        ft = 10.0 ** -sett(spec, "ftol")
        J = T.jac(b / w)
        rn = np.sqrt((J * J).sum(1)).min()
        tol = 2e-3 + 50 * ft / max(rn, 1e-300) / GAP
        if tol > 0.05:
            skip.add("coarse tolerance")
            continue
        far = np.abs(pts - a / w).max(1)
        need(
            dist <= tol,
            "increment %d: the recorded point is %.3g step limits away from the path that "
            "continues the last increment (moved %s, path goes to %s)",
            i, dist, np.round(dy, 4), np.round(pts[-1] - a / w, 4),
        )
        judged += 1
        tb = ts[int(np.argmin(np.linalg.norm(pts - b / w, axis=1)))]
        if ta[-1] * tb[-1] < 0:
            limit_l += 1
        if ((ta[:-1] * tb[:-1] < 0) & (np.abs(ta[:-1]) > 1e-6)).any():
            limit_u += 1
    if limit_l:
        tags.append("passed a load limit point")
    if limit_u:
        tags.append("passed a displacement limit point")
    tags += ["not judged: " + k for k in skip]
    return judged >= 2, tags


@st.composite
def apex_case(draw):
    """a shallow or steep pyramid whose apex is loaded through a spring: passes
    limit points of load (and of displacement, if the spring is soft)"""
    ax = list(draw(st.permutations([0, 1, 2])))
    nb = draw(st.integers(2, 4))
    h = draw(st.integers(2, 12)) / 8
    up = draw(st.sampled_from([1, -1]))
    EA = draw(st.sampled_from([1.0, 10.0]))
    nodes, elems, bounds = [], [], []

    def P(u, v, z):
        p = [0.0, 0.0, 0.0]
        p[ax[0]], p[ax[1]], p[ax[2]] = u, v, up * z
        return p

    for k in range(nb):
        phi = 2 * np.pi * k / nb + draw(st.integers(0, 8)) / 20
        rad = 1.0 + draw(st.integers(0, 8)) / 8
        nodes.append([k + 1] + P(round(rad * np.cos(phi), 6), round(rad * np.sin(phi), 6), 0.0))
        bounds.append([k + 1, [0, 0, 0]])
        elems.append({"label": k + 1, "conn": [k + 1, nb + 1], "mat": [EA], "mtype": 1, "area": 1.0})
    nodes.append([nb + 1] + P(0.0, 0.0, h))
    fr = [0, 0, 0]
    fr[ax[2]] = 1
    bounds.append([nb + 1, fr])
    top = nb + 1
    if draw(st.booleans()):
        top = nb + 2
        nodes.append([top] + P(0.0, 0.0, h + 1.0 + draw(st.integers(2, 16)) / 8))
        bounds.append([top, list(fr)])
        elems.append({"label": nb + 1, "conn": [nb + 1, top], "mat": [EA],
                      "mtype": 1, "area": draw(st.sampled_from([1.0, 0.3, 0.1, 0.05, 0.03]))})
    f = [0.0, 0.0, 0.0]
    f[ax[2]] = -up * EA * draw(st.sampled_from([0.1, 0.03, 0.3]))
    s = draw(gen.settings_dict(incs=(30, 60), calm=True))
    s["du"] = h * draw(st.sampled_from([0.04, 0.08, 0.02, 0.12]))
    s["dlpf"] = draw(st.sampled_from([0.1, 0.03, 0.3]))
    s["stepcontrol"] = draw(st.sampled_from([False, False, True]))
    if s["stepcontrol"]:
        s["maxfac"], s["increase"], s["reduce"], s["minfac"] = 2, 0.5, 8, 1e-6
    return {"kind": "apex", "nodes": nodes, "elems": elems, "bounds": bounds,
            "forces": [[top, f]], "settings": s, "ax": ax[2], "sgn": -up}


def check_apex(case):
    spec = {k: v for k, v in case.items() if k not in ("ax", "sgn")}
    nt, tags = check(spec)
    return nt, tags


PARTS = [
    Part("general", lambda: gen.truss_spec(plastic=False, fixed_control=False), check, 420, 8000),
    Part("curved", lambda: gen.curved_spec(plastic=False), check, 140, 3000),
    Part("apex", apex_case, check_apex, 120, 2500),
]
