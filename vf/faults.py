"""Injected faults: chosen attempts to find an increment do not converge.

The out-of-balance force returned to the solver is not a number during these
attempts (what an overflow in a diverging iteration looks like, "n"), or a wildly
changing one ("t", which also makes another component the biggest one).  Which attempt the
solver is in is read from the printed log."""
import contextlib
import io

import numpy as np

from . import build


class Tap(io.StringIO):
    def __init__(self):
        super().__init__()
        self.inc, self.attempt, self.tail = -1, 0, ""

    def write(self, s):
        self.tail += s
        while "\n" in self.tail:
            line, self.tail = self.tail.split("\n", 1)
            if line.startswith("### Increment"):
                self.inc += 1
                self.attempt = 0
            elif "recycling increment" in line:
                self.attempt += 1
        return super().write(s)


def faulty(spec, fails):
    """model whose k-th increment (counted over all steps) fails fails[k] times"""
    M = build.make(spec, log=1)
    real = M.equilibrium
    tap = Tap()
    hit = [0]
    big = 1e3 * (1 + max(abs(e["mat"][0] * e["area"]) for e in spec["elems"]))

    def eq(*a, **k):
        g = real(*a, **k)
        stage = a[2] if len(a) > 2 else k.get("stage", "G")
        if g is None or stage != "G" or k.get("statev_write") or not 0 <= tap.inc < len(fails):
            return g
        how = fails[tap.inc]
        if isinstance(how, int):
            how = "n" * how
        if tap.attempt < len(how):
            hit[0] += 1
            if how[tap.attempt] == "n":
                return np.full_like(np.asarray(g, dtype=float), np.nan)
            return g + big * (1 + hit[0] % 7) * (-1) ** hit[0]
        return g

    M.equilibrium = eq
    with contextlib.redirect_stdout(tap):
        M.build()
        tap.inc = -1
        M.run()
    del M.equilibrium
    if tap.inc < 0:  # the log does not show the increments: nothing was injected
        fails[:] = [0] * len(fails)
    return M, tap.getvalue(), hit[0]


