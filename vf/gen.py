"""Hypothesis strategies for truss models.  A case is a plain JSON value (the
"spec"); every random choice is made by Hypothesis."""
import itertools
import math

import numpy as np
from hypothesis import strategies as st
from hypothesis import assume

AXES = {"xz": (0, 2, 1), "xy": (0, 1, 2), "yz": (1, 2, 0)}


def _q(draw, lo, hi, den):
    return draw(st.integers(lo, hi)) / den


def _labels(draw, n):
    style = draw(st.sampled_from(["seq", "shuf", "sparse", "sparse", "zero", "big"]))
    if style == "zero":
        return list(draw(st.permutations(range(n))))
    if style == "big":
        # neighbours which are equal in single precision or up to a relative tolerance
        base = draw(st.sampled_from([10**7, 2**24, 10**10]))
        return [base + k for k in draw(st.permutations(range(n)))]
    if style == "sparse":
        return draw(
            st.lists(st.integers(1, 700), min_size=n, max_size=n, unique=True)
        )
    lab = list(range(1, n + 1))
    if style == "shuf":
        lab = list(draw(st.permutations(lab)))
    return lab


def _sigma(dirs):
    d = np.array(dirs, dtype=float)
    n = np.sqrt((d * d).sum(1))
    if (n < 1e-9).any():
        return 0.0
    d = d / n[:, None]
    if d.shape[0] < d.shape[1]:
        return 0.0
    return np.linalg.svd(d, compute_uv=False)[-1]


def _connect(draw, pos, new, dim, sel, maxextra=2, floor=0.12):
    """Choose earlier nodes to connect `new` to, so that it is well braced in the
    coordinates `sel`."""
    cand = [
        i
        for i, p in enumerate(pos)
        if math.dist(p, new) >= 0.6
    ]
    assume(len(cand) >= dim)
    d = {i: [new[k] - pos[i][k] for k in sel] for i in cand}
    k = draw(st.integers(dim, min(len(cand), dim + maxextra)))
    order = list(draw(st.permutations(cand)))
    chosen = order[:k]
    if _sigma([d[i] for i in chosen]) < floor:
        best = max(
            itertools.combinations(cand, dim),
            key=lambda c: _sigma([d[i] for i in c]),
        )
        assume(_sigma([d[i] for i in best]) >= floor)
        chosen = sorted(set(chosen[: maxextra]) | set(best))
    return chosen


@st.composite
def geometry(draw, kinds=("space", "planar", "chain"), max_free=3, locks=True, min_free=1):
    """nodes (positions), connectivity, free/locked pattern."""
    kind = draw(st.sampled_from(list(kinds)))
    pos, conn, free = [], [], []
    if kind == "space":
        ns = draw(st.integers(3, 4))
        base = [(-2, -2, 0), (2, -2, 0), (0, 2.5, 0), (0.5, 0, 3)]
        for b in base[:ns]:
            pos.append([b[i] + _q(draw, -5, 5, 8) for i in range(3)])
            free.append([0, 0, 0])
        nf = draw(st.integers(min_free, max_free))
        for _ in range(nf):
            p = [_q(draw, -16, 16, 8), _q(draw, -16, 16, 8), _q(draw, 4, 24, 8)]
            p = [p[i] + _q(draw, -3, 3, 64) for i in range(3)]
            c = _connect(draw, pos, p, 3, (0, 1, 2))
            for i in c:
                conn.append([i, len(pos)])
            pos.append(p)
            f = [1, 1, 1]
            if locks and draw(st.integers(0, 4)) == 0:
                f = draw(
                    st.lists(st.integers(0, 1), min_size=3, max_size=3).filter(any)
                )
            free.append(f)
    elif kind == "planar":
        view = draw(st.sampled_from(sorted(AXES)))
        a, b, c3 = AXES[view]
        off = _q(draw, -4, 4, 4)

        def P(u, v):
            p = [0.0, 0.0, 0.0]
            p[a], p[b], p[c3] = u, v, off
            return p

        ns = draw(st.integers(2, 3))
        for u, v in [(-1.5, 0), (1.5, 0), (0, -1.5)][:ns]:
            pos.append(P(u + _q(draw, -4, 4, 8), v + _q(draw, -4, 4, 8)))
            free.append([0, 0, 0])
        nf = draw(st.integers(min_free, max_free))
        for _ in range(nf):
            p = P(
                _q(draw, -16, 16, 8) + _q(draw, -3, 3, 64),
                _q(draw, 2, 20, 8) + _q(draw, -3, 3, 64),
            )
            c = _connect(draw, pos, p, 2, (a, b), floor=0.15)
            for i in c:
                conn.append([i, len(pos)])
            pos.append(p)
            f = [0, 0, 0]
            f[a] = f[b] = 1
            if locks and draw(st.integers(0, 5)) == 0:
                f[draw(st.sampled_from([a, b]))] = 0
            free.append(f)
    else:  # chain along one axis
        ax = draw(st.integers(0, 2))
        off = [_q(draw, -4, 4, 4) for _ in range(3)]
        x = 0.0
        n = draw(st.integers(min_free + 1, max_free + 2))
        sgn = draw(st.sampled_from([1, -1]))
        for i in range(n):
            p = list(off)
            p[ax] += sgn * x
            pos.append(p)
            f = [0, 0, 0]
            f[ax] = 0 if i == 0 else 1
            free.append(f)
            x += _q(draw, 5, 16, 8)
        for i in range(n - 1):
            conn.append([i, i + 1])
        if n > 2 and draw(st.booleans()):
            free[-1][ax] = 0  # clamped at both ends
        if n > 2 and draw(st.booleans()):
            conn.append([0, n - 1])
            if free[-1][ax] == 0:
                conn.pop()
    # parallel bars and reversed bars
    if conn and draw(st.integers(0, 4)) == 0:
        conn.append(list(draw(st.sampled_from(conn))))
    conn = [c[::-1] if draw(st.booleans()) else c for c in conn]
    return {"kind": kind, "pos": pos, "conn": conn, "free": free}


LOADSCALES = [0.02, 0.1, 0.4]


@st.composite
def settings_dict(draw, incs=(2, 8), calm=False, nsteps=1, nfree=1):
    s = {}
    lo, hi = incs
    if nsteps > 1 and draw(st.booleans()):
        s["incs"] = [draw(st.integers(lo, hi)) for _ in range(nsteps)]
    else:
        s["incs"] = draw(st.integers(lo, hi))
    s["du"] = draw(st.sampled_from([0.02, 0.005, 0.01, 0.05] + ([] if calm else [0.1, 0.3])))
    s["dlpf"] = draw(st.sampled_from([0.02, 0.005, 0.05, 0.1] + ([] if calm else [0.5, 1.0])))
    s["stepcontrol"] = draw(st.booleans())
    if s["stepcontrol"]:
        s["maxfac"] = draw(st.sampled_from([10, 1, 2, 4, 1.7]))
        s["minfac"] = draw(st.sampled_from([1e-6, 1e-3, 0.1]))
        s["reduce"] = draw(st.sampled_from([8, 2, 4.0, 1.5]))
        s["increase"] = draw(st.sampled_from([0.5, 1, 0.1, 2.0]))
    if draw(st.booleans()):
        s["dxtol"] = draw(st.sampled_from([1.000001, 1.25, 1.01, 1.1]))
    if draw(st.booleans()):
        s["ftol"] = draw(st.sampled_from([8, 6, 10, 7, 4] if not calm else [8, 9, 10]))
        s["xtol"] = draw(st.sampled_from([8, 6, 10, 2, 1] if not calm else [8, 9]))
    if draw(st.booleans()):
        s["nfev"] = draw(st.sampled_from([8, 10, 6] + ([] if calm else [2, 3, 4])))
        s["cycl"] = draw(st.sampled_from([4, 6, 3] + ([] if calm else [2])))
    if draw(st.integers(0, 5)) == 0:
        s["j_pre"] = False
    if nsteps > 1:
        s["nsteps"] = nsteps
    return s


@st.composite
def truss_spec(
    draw,
    kinds=("space", "planar", "chain"),
    max_free=3,
    plastic=None,
    max_steps=3,
    incs=(2, 8),
    calm=False,
    xlimit=True,
    fixed_control=True,
    locks=True,
    sett=None,
    unit_E=None,
    settf=None,
    sett_calm=False,
    min_steps=1,
    yielding=False,
    min_free=1,
    extras=False,
    soft=False,
    _hard=False,
):
    g = draw(geometry(kinds=kinds, max_free=max_free, locks=locks, min_free=min_free))
    pos, conn, free = g["pos"], g["conn"], g["free"]
    n = len(pos)
    labs = _labels(draw, n)
    elabs = _labels(draw, len(conn))
    if plastic is None:
        plast = draw(st.integers(0, 2)) == 0
    else:
        plast = plastic
    E0 = unit_E or draw(st.sampled_from([1.0, 2.5, 20.0, 300.0]))
    elems = []
    mixed = draw(st.booleans())
    for l, c in zip(elabs, conn):
        E = E0 * draw(st.sampled_from([1.0, 1.0, 0.5, 2.0]))
        mtype = 1
        mat = [E]
        if plast:
            mtype = 2 if not mixed else draw(st.sampled_from([2, 2, 1]))
            mat = [
                E,
                E * draw(st.sampled_from(
                    [0.1, 0.05, 0.3, 0.8] if not soft else [0.1, 0.3, 0.0, -0.02, -0.1, 1e-3]
                )),
                E * draw(st.sampled_from(
                    [0.02, 0.004, 0.01, 0.05] if not yielding else [0.004, 0.001, 0.01]
                )),
            ]
        elems.append(
            {
                "label": l,
                "conn": [labs[c[0]], labs[c[1]]],
                "mat": mat,
                "mtype": mtype,
                "area": draw(st.sampled_from([1.0, 0.5, 0.75, 2.0, 0.3])),
            }
        )
    if extras and draw(st.booleans()):
        # property lists may be longer than what the material and element use
        for e in elems:
            if e["mtype"] == 1 and draw(st.booleans()):
                e["mat"] = e["mat"] + [draw(st.integers(1, 9)) / 8 for _ in range(2)]
            if draw(st.booleans()):
                e["geo"] = [e["area"]] + [
                    draw(st.sampled_from([0.0, 3.0, 0.25]))
                    for _ in range(draw(st.integers(1, 2)))
                ]
    nsteps = draw(st.integers(min_steps, max_steps))
    if nsteps >= 3 and draw(st.integers(0, 4)) == 4:
        nsteps += draw(st.integers(1, 3))
    scale = E0 * draw(st.sampled_from(LOADSCALES if not yielding else [0.1, 0.05]))
    forces = {}
    freenodes = [i for i in range(n) if any(free[i])]
    loaded = [
        i for i in freenodes if draw(st.integers(0, 3)) > 0
    ] or [freenodes[-1]]
    for i in loaded:
        v = []
        for s in range(nsteps):
            f = [float(draw(st.integers(-4, 4))) * scale / 4 for _ in range(3)]
            v += f
        forces[i] = v
    # every step loads some free component
    for s in range(nsteps):
        if not any(
            forces[i][3 * s + k] != 0 and free[i][k] for i in loaded for k in range(3)
        ):
            i = loaded[0]
            k = [k for k in range(3) if free[i][k]][-1]
            forces[i][3 * s + k] = draw(st.sampled_from([-1, 1])) * scale
    if plast and nsteps > 1 and (yielding or draw(st.booleans())):
        # load reversal
        for s in range(1, nsteps):
            a = -draw(st.sampled_from([1.0, 2.0, 1.5]))
            for v in forces.values():
                for k in range(3):
                    v[3 * s + k] = a * v[3 * (s - 1) + k]
    # loads on locked components are allowed and carried by the support
    bounds = []
    for i in range(n):
        if free[i] == [1, 1, 1] and draw(st.booleans()):
            continue  # undefined = free
        bounds.append([labs[i], list(free[i])])
    flist = []
    for i in range(n):
        if i in forces:
            flist.append([labs[i], forces[i]])
        elif draw(st.integers(0, 3)) == 0:
            flist.append([labs[i], [0.0] * (3 * nsteps)])
    nodes = [[labs[i]] + pos[i] for i in range(n)]
    nodes = list(draw(st.permutations(nodes)))
    elems = list(draw(st.permutations(elems)))
    bounds = list(draw(st.permutations(bounds)))
    flist = list(draw(st.permutations(flist)))
    nfree = sum(map(sum, free))
    if sett is not None:
        s = draw(sett)
    elif settf is not None:
        s = draw(settf(nsteps=nsteps))
    elif _hard:
        s = draw(hard_settings(incs=incs, nsteps=nsteps))
    else:
        s = draw(settings_dict(incs=incs, calm=calm or sett_calm, nsteps=nsteps))
    if nsteps > 1:
        s["nsteps"] = nsteps
    if xlimit and draw(st.integers(0, 2)) == 0:
        def lim():
            j = draw(st.sampled_from([0, nfree + 1] + list(range(1, nfree + 1))))
            return [j, draw(st.sampled_from([0.05, 0.02, 0.1, 0.01, 0.3]))]

        if (nsteps > 1 and draw(st.booleans())) or draw(st.integers(0, 4)) == 0:
            s["xlimit"] = [lim() for _ in range(nsteps)]
        else:
            s["xlimit"] = lim()
    if fixed_control and (fixed_control == "always" or draw(st.integers(0, 5)) == 0):
        s["j_fixed"] = True
        s["j0"] = draw(st.integers(1, nfree + 1)) * draw(st.sampled_from([1, -1]))
    elif fixed_control and draw(st.integers(0, 11)) == 0:
        # only where the search for the control component begins
        s["j0"] = draw(st.integers(1, nfree + 1)) * draw(st.sampled_from([1, -1]))
    return {
        "kind": g["kind"],
        "nodes": nodes,
        "elems": elems,
        "bounds": bounds,
        "forces": flist,
        "settings": s,
    }


@st.composite
def hard_settings(draw, incs=(2, 8), nsteps=1):
    """settings under which increments fail, are repeated or are cut"""
    s = draw(settings_dict(incs=incs, nsteps=nsteps))
    s["nfev"] = draw(st.sampled_from([3, 2, 4, 5, 3, 4, 1]))
    s["cycl"] = draw(st.sampled_from([3, 2, 4, 3, 2, 1]))
    s["du"] = draw(st.sampled_from([0.3, 0.1, 0.6, 1.0]))
    s["dlpf"] = draw(st.sampled_from([1.0, 0.3, 3.0]))
    s["ftol"] = draw(st.sampled_from([8, 6, 10, 4]))
    s["xtol"] = draw(st.sampled_from([8, 4, 2, 1]))
    return s


def hard_spec(**kw):
    kw.setdefault("max_steps", 3)
    return truss_spec(**kw, _hard=True)


@st.composite
def big_settings(draw, incs=(6, 14)):
    s = draw(settings_dict(incs=incs, calm=True))
    s["du"] = draw(st.sampled_from([0.2, 0.1, 0.3]))
    s["dlpf"] = draw(st.sampled_from([1.0, 0.5, 4.0]))
    s["stepcontrol"] = draw(st.booleans())
    return s


def big_spec(**kw):
    """large displacements and rotations"""
    kw.setdefault("max_free", 2)
    kw.setdefault("kinds", ("space", "planar"))
    return truss_spec(**kw, sett=big_settings(), max_steps=1, xlimit=False, fixed_control=False)


@st.composite
def curved_settings(draw, incs=(10, 40)):
    """long runs around limit points"""
    s = draw(settings_dict(incs=incs))
    s["du"] = draw(st.sampled_from([0.1, 0.05, 0.2]))
    s["dlpf"] = draw(st.sampled_from([0.1, 0.02, 0.3]))
    s["ftol"], s["xtol"] = 8, 8
    s["nfev"], s["cycl"] = 8, draw(st.sampled_from([4, 6]))
    return s


def curved_spec(**kw):
    kw.setdefault("max_free", 1)
    kw.setdefault("kinds", ("space", "planar"))
    return truss_spec(**kw, sett=curved_settings(), max_steps=1, xlimit=False, fixed_control=False)


def large_spec(**kw):
    """structures of 11 to 18 nodes and up to about 50 bars"""
    kw.setdefault("min_free", 9)
    kw.setdefault("max_free", 13)
    kw.setdefault("incs", (1, 3))
    kw.setdefault("max_steps", 2)
    kw.setdefault("sett_calm", True)
    return truss_spec(**kw)


@st.composite
def fault_settings(draw, nsteps=1, incs=(4, 10)):
    s = draw(settings_dict(incs=incs, nsteps=nsteps, calm=True))
    s["stepcontrol"] = draw(st.integers(0, 5)) > 0
    s["maxfac"] = draw(st.sampled_from([10, 1, 2, 1.7]))
    s["minfac"] = draw(st.sampled_from([1e-6, 1e-3, 0.1, 0.02]))
    s["reduce"] = draw(st.sampled_from([8, 2, 4.0, 1.5]))
    s["increase"] = draw(st.sampled_from([0.5, 1, 0.1, 2.0]))
    s["cycl"] = draw(st.sampled_from([4, 3, 2, 6, 10]))
    return s


@st.composite
def fault_case(draw, settf=fault_settings, kinds_of_failure=True, **kw):
    """a model and how often each of its increments fails before it is accepted"""
    kw.setdefault("max_free", 2)
    kw.setdefault("max_steps", 3)
    spec = draw(truss_spec(settf=settf, **kw))
    s = spec["settings"]
    n = sum(s["incs"]) if isinstance(s["incs"], list) else s["incs"] * s.get("nsteps", 1)
    fails = [0 if not kinds_of_failure else ""] * n
    for _ in range(draw(st.integers(1, 4))):
        k = draw(st.integers(1, max(1, s["cycl"] - 2)))
        if kinds_of_failure:
            k = "".join(draw(st.lists(st.sampled_from("nt"), min_size=k, max_size=k)))
        fails[draw(st.integers(0, n - 1))] = k
    return {"spec": spec, "fails": fails}
