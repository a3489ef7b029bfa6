"""No increment exceeds the step limits."""
import numpy as np

from vf import gen
from vf.common import Run, arr, need, sett
from vf.core import Part

RULE = (
    "a case counts as non-trivial if at least two increments were recorded; the "
    "classes say how often increments were repeated, cut or controlled by the user"
)


def check(spec):
    run = Run(spec)
    w0 = run.dxmax0()
    sc = sett(spec, "stepcontrol")
    dxtol = float(sett(spec, "dxtol"))
    ftol = 10.0 ** -sett(spec, "ftol")
    over = 0
    for i in range(1, run.n + 1):
        a, b = run.x_before(i), run.x(i)
        dx = b - a
        noise = 1e-12 * (1 + np.abs(a).max() + np.abs(b).max())
        fac = arr(run.R[i].dVmax) / w0
        need(
            np.abs(fac - fac[0]).max() <= 1e-9 * fac[0],
            "increment %d: limits are not one factor times the initial limits: %s", i, fac,
        )
        f = float(fac[0])
        if not sc:
            need(abs(f - 1) <= 1e-12, "increment %d: limits changed by %r without step-width control", i, f)
        else:
            need(
                f <= sett(spec, "maxfac") * (1 + 1e-9), "increment %d: step-width factor %r > maxfac %r",
                i, f, sett(spec, "maxfac"),
            )
        w = w0 * f
        ratio = np.abs(dx) / w
        slack = (ftol + noise) / w.min()
        if sett(spec, "j_fixed"):
            j = abs(sett(spec, "j0")) - 1
            need(
                abs(dx[j] - np.sign(sett(spec, "j0")) * w[j]) <= ftol + noise,
                "increment %d: fixed control component changed by %r, limit %r", i, dx[j], w[j],
            )
        else:
            need(
                ratio.max() <= dxtol * (1 + 1e-9) + slack,
                "increment %d: component %d changed by %r times its limit (allowed %r)",
                i, int(ratio.argmax()), float(ratio.max()), dxtol,
            )
            need(
                ratio.max() >= 1 - 1e-9 - slack,
                "increment %d: no component reached its limit (largest %r)", i, float(ratio.max()),
            )
        if ratio.max() > 1 + 1e-5:
            over += 1
    t = run.tags()
    if over:
        t.append("overshoot within tolerance")
    if sc:
        t.append("step-width control")
    return run.n >= 2, t


PARTS = [
    Part("general", lambda: gen.truss_spec(), check, 1000, 16000),
    Part("curved", lambda: gen.curved_spec(), check, 450, 8000),
    Part("fixed", lambda: gen.truss_spec(fixed_control="always"), check, 400, 6000),
    Part("hard", lambda: gen.hard_spec(), check, 600, 9000),
]
