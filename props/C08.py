"""Load steps are sequential."""
import copy

import numpy as np
from hypothesis import strategies as st

from vf import gen
from vf.common import COLLAPSED, Run, arr, close, need, sett
from vf.core import Part

RULE = (
    "history: increments recorded in at least two load steps; split: both parts of "
    "the split step recorded increments and the load factor only grows in the "
    "single-step run"
)


def check_history(spec):
    run = Run(spec)
    ref = run.ref
    seen, directed = set(), 0
    for i in range(1, len(run.R)):
        x = run.R[i]
        k = run.steps[i] - 1
        const = sum(
            (run.lam_end.get(q + 1, 0.0) * ref.F[q] for q in range(k)), np.zeros((ref.nn, 3))
        )
        close(x.ExtForces.forces, ref.F[k], 0, 0, "increment %d: reference load of step %d", i, k + 1)
        close(
            x.ExtForces.forces_const, const, 1e-13, 1e-15 * (1 + np.abs(const).max()),
            "increment %d: held load in step %d", i, k + 1,
        )
        close(x.U0, arr(run.R[i - 1].U), 0, 0, "increment %d: state at the beginning", i)
        tot = run.load(i)
        if not ref.kin(x.U)[2].min() > COLLAPSED:
            return False, run.tags() + ["collapsed bar"]
        g = (tot - ref.internal(x.U, arr(x.element_force)[:, 0])).ravel()[ref.dof1]
        tol = 10.0 ** -sett(spec, "ftol")
        need(
            np.linalg.norm(g) <= tol * (1 + 1e-6) + 1e-12 * (1 + np.abs(tot).sum()
                + np.abs(arr(x.element_force)).sum()) * (1 + np.abs(ref.X).max()),
            "increment %d: not in equilibrium with held and current loads", i,
        )
        if k and run.steps[i - 1] != run.steps[i] and not sett(spec, "j_fixed"):
            # first increment of a later step starts at load factor zero
            need(
                abs(float(x.lpf)) <= sett(spec, "dlpf") * sett(spec, "dxtol")
                * (sett(spec, "maxfac") if sett(spec, "stepcontrol") else 1) * (1 + 1e-9),
                "step %d does not start at load factor zero: %r", k + 1, float(x.lpf),
            )
            if not (ref.mtype == 2).any() and "recycling" not in run.out:
                # ... and follows increasing load factor: the increment runs along,
                # not against, the tangent of the path with growing load factor
                w = arr(x.dVmax)
                t, gap = ref.tangent_dir(arr(run.R[i - 1].U), ref.F[k], w)
                dy = (run.x(i) - run.x_before(i)) / w
                # (or the initial control component that is given)
                j = sett(spec, "j0") or len(t)
                tj = t[abs(j) - 1] * np.sign(j)
                c = float(t @ dy) * np.sign(tj) / np.linalg.norm(dy)
                if gap > 1e-3 and abs(tj) > 1e-4 and abs(c) > 0.9:
                    directed += 1
                    need(c > 0, "step %d starts against its initial control component %d of %d", k + 1, j, len(t))
        seen.add(k)
    t = run.tags() + ["steps with increments: %d" % len(seen)]
    if directed:
        t.append("direction of a later step judged")
    n = [run.steps[1:].count(k + 1) for k in sorted(seen)]
    if len(set(n)) > 1:
        t.append("unequal numbers of increments")
    return len(seen) >= 2, t


@st.composite
def split_case(draw):
    spec = draw(
        gen.truss_spec(
            plastic=draw(st.booleans()),
            max_steps=1,
            max_free=2,
            sett=gen.settings_dict(incs=(4, 10), calm=True),
            xlimit=False,
            fixed_control=False,
        )
    )
    spec["settings"]["stepcontrol"] = False
    # no overshoot: how far an increment goes must not depend on the control
    # component it was computed with (a new step starts with the load factor)
    spec["settings"]["dxtol"] = 1.000001
    n = spec["settings"]["incs"]
    k = draw(st.integers(1, n - 1))
    return {"spec": spec, "k": k, "parts": 2 if n - k < 2 or draw(st.booleans()) else 3}


def check_split(case):
    spec = case["spec"]
    n, k = sett(spec, "incs"), case["k"]
    a = Run(spec)
    two = copy.deepcopy(spec)
    cuts = [k, n - k]
    if case["parts"] == 3:
        cuts = [k, 1, n - k - 1]
    two["settings"]["nsteps"] = len(cuts)
    two["settings"]["incs"] = cuts
    for f in two["forces"]:
        f[1] = f[1] * len(cuts)
    b = Run(two)
    lam = [float(r.lpf) for r in a.R]
    mono = all(y > x + 1e-9 for x, y in zip(lam, lam[1:]))
    if not mono or a.n < n:
        return False, ["load factor not growing"]
    tags = a.tags()
    base, tot = 0.0, [0.0]
    for i in range(1, len(b.R)):
        if i > 1 and b.steps[i] != b.steps[i - 1]:
            base += float(b.R[i - 1].lpf)
        tot.append(base + float(b.R[i].lpf))
    if b.n < n:
        # the first increment of the new step predicts from the load direction
        tags.append("split run stopped early")
        return False, tags
    # the same limits decide the same points unless another component decides;
    # the recorded points lie on the same path
    tol = 1e-6
    for i in range(1, n + 1):
        close(b.R[i].U, arr(a.R[i].U), 0, tol, "increment %d: displacement after the split", i)
        close(tot[i], lam[i], 0, tol * (1 + abs(lam[i])), "increment %d: total load factor", i)
    return True, tags


PARTS = [
    Part("history", lambda: gen.truss_spec(max_steps=4, incs=(1, 6), min_steps=2), check_history, 1100, 16000),
    Part("hard", lambda: gen.hard_spec(max_steps=4, min_steps=2), check_history, 500, 8000),
    Part("split", split_case, check_split, 500, 8000),
]
