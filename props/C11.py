"""Results obey the symmetries of mechanics."""
import copy
import math

import numpy as np
from hypothesis import strategies as st

from vf import gen
from vf.common import Run, arr, close
from vf.core import Part
from vf.meta import Map, component_map, map_settings, walk
from vf.ref import Ref

RULE = (
    "a case counts as non-trivial if the transformation is not the identity and at "
    "least two increments were compared"
)
ASSUMPTIONS = [
    "results are compared up to the solver tolerance, and up to the first increment at "
    "which rounding can decide (next to a bifurcation point, or after a Newton failure)",
    "another unit of length is compared without adaptive step width and with room for "
    "Newton iterations, since the tolerances are absolute",
]


@st.composite
def case_(draw):
    what = draw(st.sampled_from(["axes", "move", "force", "length", "split", "rotate", "axes"]))
    kw = dict(plastic=draw(st.booleans()), max_steps=3, sett_calm=True, incs=(2, 6))
    if what == "rotate":
        kw.update(kinds=("space",), locks=False, fixed_control=False, xlimit=False)
    spec = draw(gen.truss_spec(**kw))
    s = spec["settings"]
    c = {"spec": spec, "what": what}
    if what in ("length", "rotate"):
        s["stepcontrol"] = False
        s["nfev"] = 14
    if what == "axes":
        c["axis"] = list(draw(st.permutations([0, 1, 2])))
        c["sign"] = [draw(st.sampled_from([1, -1])) for _ in range(3)]
    elif what == "move":
        c["by"] = [draw(st.sampled_from([0, 1, -3.5, 17.25, 100.125, -0.3])) for _ in range(3)]
    elif what == "force":
        c["factor"] = draw(st.sampled_from([10.0, 100.0, 0.1, 1e-3, 1e3, 1e6, 1e9, 1e12, 1e-9]))
    elif what == "length":
        c["factor"] = draw(st.sampled_from([10.0, 2.0, 0.5, 0.1, 100.0, 0.01, 1e-4, 1e-6, 1e-6, 1e4]))
    elif what == "split":
        n = len(spec["elems"])
        c["parts"] = [
            draw(st.sampled_from([[1.0], [1.0], [0.5, 0.5], [0.25, 0.75], [0.2, 0.5, 0.3]]))
            for _ in range(n)
        ]
    else:
        c["angles"] = [draw(st.integers(-90, 90)) / 30 for _ in range(3)]
        # a run under load control
        nf = sum(3 - sum(1 - v for v in f) for f in free(spec).values())
        s["j_fixed"], s["j0"] = True, nf + 1
        s["dlpf"] = draw(st.sampled_from([0.02, 0.05, 0.1, 0.01]))
        s["du"] = 0.3
    return c


@st.composite
def units_case(draw):
    """another unit of force, big increments"""
    spec = draw(gen.big_spec(plastic=False))
    spec["settings"]["nfev"] = draw(st.sampled_from([8, 14]))
    return {"spec": spec, "what": "force",
            "factor": 2.0 ** draw(st.sampled_from([10, 20, 30, 40, 50, -10, -20, -30, -40]))}


def free(spec):
    f = {n[0]: [1, 1, 1] for n in spec["nodes"]}
    f.update({k: v for k, v in spec["bounds"]})
    return f


def rotation(a):
    def r(i, w):
        m = np.eye(3)
        j, k = (i + 1) % 3, (i + 2) % 3
        m[j, j] = m[k, k] = math.cos(w)
        m[j, k], m[k, j] = -math.sin(w), math.sin(w)
        return m

    return r(0, a[0]) @ r(1, a[1]) @ r(2, a[2])


def check(c):
    a = c["spec"]
    b = copy.deepcopy(a)
    what = c["what"]
    s = b["settings"]
    Q, length, force, stress = np.eye(3), 1.0, 1.0, 1.0
    axis, sign = [0, 1, 2], [1, 1, 1]
    ident = False
    eperm = list(range(len(a["elems"])))
    if what == "axes":
        axis, sign = c["axis"], c["sign"]
        Q = np.array([[sign[k] * float(axis[k] == q) for q in range(3)] for k in range(3)])
        ident = np.array_equal(Q, np.eye(3))

        def t(v):
            return [sign[k] * v[axis[k]] for k in range(3)]

        b["nodes"] = [[n[0]] + t(n[1:]) for n in b["nodes"]]
        b["bounds"] = [[n, [v[axis[k]] for k in range(3)]] for n, v in b["bounds"]]
        b["forces"] = [[n, sum((t(v[q:q + 3]) for q in range(0, len(v), 3)), [])]
                       for n, v in b["forces"]]
    elif what == "move":
        ident = not any(c["by"])
        b["nodes"] = [[n[0]] + [x + d for x, d in zip(n[1:], c["by"])] for n in b["nodes"]]
    elif what == "force":
        force = stress = c["factor"]
        for e in b["elems"]:
            e["mat"] = [v * force for v in e["mat"]]
        b["forces"] = [[n, [x * force for x in v]] for n, v in b["forces"]]
        s["ftol"] = s.get("ftol", 8) - math.log10(force)
    elif what == "length":
        length = c["factor"]
        b["nodes"] = [[n[0]] + [x * length for x in n[1:]] for n in b["nodes"]]
        s["du"] = s.get("du", 0.02) * length
        # the tolerance of the last change is a length, too
        s["xtol"] = min(s.get("xtol", 8) - math.log10(length), 11)
        xl = s.get("xlimit")
        if xl is not None:
            nf = len(Ref(a).dof1)

            def tl(l):
                return [l[0], l[1] * length if l[0] not in (0, nf + 1) else l[1]]

            s["xlimit"] = [tl(l) for l in xl] if isinstance(xl[0], list) else tl(xl)
    elif what == "split":
        lab = max(e["label"] for e in a["elems"])
        new, group = [], []
        for k, (e, p) in enumerate(zip(b["elems"], c["parts"])):
            for q, frac in enumerate(p):
                e2 = dict(e)
                e2["area"] = e["area"] * frac
                if q:
                    lab += 1
                    e2["label"] = lab
                    if q == 2:
                        e2["conn"] = e["conn"][::-1]
                new.append(e2)
                group.append(k)
        ident = len(new) == len(a["elems"])
        b["elems"] = new
        eperm = None
    else:
        Q = rotation(c["angles"])
        ident = not any(c["angles"])
        b["nodes"] = [[n[0]] + list((Q @ n[1:]).tolist()) for n in b["nodes"]]
        b["forces"] = [
            [n, sum(((Q @ v[q:q + 3]).tolist() for q in range(0, len(v), 3)), [])]
            for n, v in b["forces"]]
    qa, qb = Ref(a), Ref(b)
    nmap = [qb.idx[l] for l in qa.labels]
    if what == "axes":
        idx, sg = component_map(qa, qb, nmap, axis, sign)
        b["settings"] = map_settings(s, idx, sg)
    ra, rb = Run(a, log=1), Run(b, log=1)

    def extra(i):
        """forces of parallel bars add up, their stretch and stress is that of the bar"""
        x, y = ra.R[i], rb.R[i]
        T = 1e-5 * qa.E.max()
        close(arr(y.stretch)[:, 0], arr(x.stretch)[group, 0], 1e-6, 1e-5, "increment %d: stretch", i)
        close(arr(y.element_stress)[:, 0], arr(x.element_stress)[group, 0], 1e-5, T,
              "increment %d: stress", i)
        f = np.zeros(len(a["elems"]))
        np.add.at(f, group, arr(y.element_force)[:, 0])
        close(f, arr(x.element_force)[:, 0], 1e-5, T * qa.A.max(), "increment %d: force", i)

    done, tags = walk(ra, rb, Map(nmap, eperm, Q, length, force, stress),
                      extra if eperm is None else None)
    return done >= 2 and not ident, tags + ra.tags() + [what]


PARTS = [
    Part("transform", case_, check, 900, 16000),
    Part("units", units_case, check, 500, 8000),
]
