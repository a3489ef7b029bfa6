"""Every recorded increment is an equilibrium state."""
import numpy as np

from vf import gen
from vf.common import EPS, faulty_run, need, Run, sett
from vf.core import Part

RULE = (
    "a case counts as non-trivial if at least one increment with non-zero "
    "displacement was recorded; distinct = distinct generated model"
)
ASSUMPTIONS = ["equilibrium is judged by an independent model of the documented truss theory"]


def check(spec, run=None):
    run = run or Run(spec)
    tol = 10.0 ** -sett(spec, "ftol")
    big = 0.0
    for i, x, lam, s, ds, st0, st1, dist in run.replay():
        r = run.ref.internal(x.U, s * run.ref.A)
        f = run.load(i)
        res = (r - f).ravel()[run.ref.dof1]
        n = float(np.linalg.norm(res))
        noise = 400 * EPS * (1 + np.abs(s * run.ref.A).sum() + np.abs(f).sum()) * (
            1 + np.abs(run.ref.X).max()
        )
        need(
            n <= tol * (1 + 1e-6) + noise,
            "increment %d (step %d, lpf %r): out-of-balance force %.3g > tolerance %.3g",
            i, run.steps[i], float(x.lpf), n, tol,
        )
        big = max(big, float(np.abs(x.U).max()))
        if i > 1 and run.steps[i] != run.steps[i - 1]:
            need(
                np.array_equal(np.asarray(x.U0), np.asarray(run.R[i - 1].U)),
                "step %d does not start from the last valid increment", run.steps[i],
            )
    return run.n >= 1 and big > 1e-9, run.tags()


def check_faults(case):
    run = faulty_run(case)
    nt, tags = check(case["spec"], run)
    return nt and run.injected > 0, tags


PARTS = [
    Part("general", lambda: gen.truss_spec(max_steps=5, extras=True), check, 1500, 24000),
    Part("hard", lambda: gen.hard_spec(max_steps=5), check, 1100, 20000),
    Part("large", lambda: gen.large_spec(), check, 48, 1600),
    Part("long", lambda: gen.truss_spec(max_free=1, incs=(15, 40), max_steps=1), check, 160, 3000),
    Part("faults", lambda: gen.fault_case(), check_faults, 400, 8000),
]
