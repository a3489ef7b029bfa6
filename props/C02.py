"""Bar and node results follow exactly from the recorded displacements."""
import numpy as np

from vf import gen
from vf.common import COLLAPSED, EPS, Run, arr, close, need
from vf.core import Part

RULE = (
    "a case counts as non-trivial if some recorded bar is stretched by more than "
    "1e-9 and, in the 'rotation' part, some bar turned by more than 0.05 rad"
)
ASSUMPTIONS = [
    "the plastic strain of an elastic-plastic bar is taken as recorded here (C04 judges it)"
]


def check_records(run):
    ref, spec = run.ref, run.spec
    need(arr(run.R[0].stretch).shape == (ref.ne, 1), "shape of the stretch")
    close(run.R[0].stretch, np.ones((ref.ne, 1)), 0, 0, "stretch of the undeformed state")
    big, turn = 0.0, 0.0
    _, n0, _ = ref.kin(np.zeros((ref.nn, 3)))
    xs = 1 + np.abs(ref.X).max()
    for i, x in enumerate(run.R):
        l, n, lam = ref.kin(x.U)
        if not lam.min() > COLLAPSED:
            break  # a bar without length has no direction
        if i == 0:
            close(x.element_stress, np.zeros((ref.ne, 1)), 0, 0, "stress of the undeformed state")
            close(x.element_force, np.zeros((ref.ne, 1)), 0, 0, "force of the undeformed state")
            close(x.r, np.zeros((ref.nn, 3)), 0, 0, "internal forces of the undeformed state")
            continue
        geps = 64 * EPS * xs / ref.L.min()
        close(arr(x.stretch)[:, 0], lam, 1e-12, geps * 4, "increment %d: stretch of bar", i)
        e = lam - 1.0
        s = ref.E * e
        if (ref.mtype == 2).any():
            need(x.state_v is not None, "no state variables recorded")
            ep = arr(x.state_v)[:, 1]
            s = np.where(ref.mtype == 2, ref.E * (e - ep), s)
        satol = ref.E.max() * geps * 8
        close(arr(x.element_stress)[:, 0], s, 1e-9, satol, "increment %d: stress of bar", i)
        N = arr(x.element_force)[:, 0]
        close(N, arr(x.element_stress)[:, 0] * ref.A, 1e-13, 1e-300, "increment %d: force of bar", i)
        fat = 64 * EPS * (np.abs(N).sum() + 1e-300) * xs / l.min()
        r = ref.internal(x.U, N)
        close(x.r, r, 1e-11, fat, "increment %d: internal force of node", i)
        fc, fl = arr(x.ExtForces.forces_const), float(x.lpf) * arr(x.ExtForces.forces)
        f = fc + fl
        close(
            x.g, f - arr(x.r), 1e-12, fat + 64 * EPS * (np.abs(fc).max() + np.abs(fl).max()),
            "increment %d: out-of-balance force", i,
        )
        close(x.rred, arr(x.r).ravel()[ref.dof1], 0, 0, "increment %d: reduced internal force", i)
        u = arr(x.U).ravel()[ref.dof1]
        close(x.Ured, u, 0, 0, "increment %d: reduced displacement", i)
        close(x.Vred, np.append(u, float(x.lpf)), 0, 0, "increment %d: reduced vector", i)
        free = np.zeros(3 * ref.nn, dtype=bool)
        free[ref.dof1] = True
        need(list(arr(x.DOF1)) == list(np.flatnonzero(free)), "increment %d: free degrees of freedom", i)
        need(list(arr(x.DOF0)) == list(np.flatnonzero(~free)), "increment %d: locked degrees of freedom", i)
        # the access methods return the same values
        for m, full, red in ((x.get_U, x.U, x.Ured), (x.get_r, x.r, x.rred)):
            close(m(), arr(full), 0, 0, "increment %d: %s()", i, m.__name__)
            close(m(flat=True), arr(full).ravel(), 0, 0, "increment %d: %s(flat)", i, m.__name__)
            close(m(red=True), arr(red), 0, 0, "increment %d: %s(red)", i, m.__name__)
        need(run.M.Results.get_result(i) is x, "get_result(%d) is another increment", i)
        big = max(big, float(np.abs(e).max()))
        turn = max(turn, float(np.arccos(np.clip((n * n0).sum(1), -1, 1)).max()))
    return big, turn


def check(spec):
    run = Run(spec)
    big, turn = check_records(run)
    return big > 1e-9, run.tags() + (["turned > 0.3 rad"] if turn > 0.3 else [])


def check_rot(spec):
    run = Run(spec)
    big, turn = check_records(run)
    return big > 1e-9 and turn > 0.05, run.tags() + (
        ["turned > 0.3 rad"] if turn > 0.3 else []
    )


PARTS = [
    Part("general", lambda: gen.truss_spec(extras=True), check, 1400, 24000),
    Part("rotation", lambda: gen.big_spec(), check_rot, 400, 8000),
    Part("large", lambda: gen.large_spec(), check, 48, 1600),
    Part("hard", lambda: gen.hard_spec(), check, 500, 8000),
]
