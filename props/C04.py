"""Plastic bars follow the isotropic-hardening law over the recorded history."""
import numpy as np
from hypothesis import strategies as st

from vf import gen
from vf.common import arr, close, faulty_run, need, Run
from vf.core import Part

RULE = (
    "a case counts as non-trivial if at least one elastic-plastic bar yielded in a "
    "recorded increment"
)
ASSUMPTIONS = [
    "return mapping of the documented one-dimensional isotropic hardening law; bars "
    "that soften are judged until the first of them has lost its strength"
]


def check(spec, run=None):
    run = run or Run(spec)
    ref = run.ref
    pl = ref.mtype == 2
    tags = run.tags()
    yielded = 0
    signs = {}
    back = False
    for i, x, lam, s, ds, st0, st1, dist in run.replay():
        if pl.any() and (st1[pl, 0] <= 1e-9 * ref.E[pl]).any():
            tags.append("softened to zero strength")
            break
        sc = ref.E.max() * (1 + np.abs(lam - 1).max())
        close(arr(x.element_stress)[:, 0], s, 1e-9, 1e-11 * sc, "increment %d: stress", i)
        if pl.any():
            need(x.state_v is not None, "no state variables recorded")
            sv = arr(x.state_v)
            close(sv[pl, 0], st1[pl, 0], 1e-9, 1e-11 * sc, "increment %d: yield stress", i)
            close(sv[pl, 1], st1[pl, 1], 1e-9, 1e-11 * (1 + np.abs(lam - 1).max()),
                  "increment %d: plastic strain", i)
            need(
                (np.abs(arr(x.element_stress)[pl, 0]) <= sv[pl, 0] + 1e-9 * sc).all(),
                "increment %d: stress beyond the yield stress", i,
            )
            for k in np.flatnonzero(pl & (dist > 0)):
                yielded += 1
                sg = np.sign(s[k])
                if signs.setdefault(k, sg) != sg:
                    back = True
    if yielded:
        tags.append("yielded")
    if back:
        tags.append("yielded in both directions")
    if len({e["mtype"] for e in spec["elems"]}) > 1:
        tags.append("mixed materials")
    return yielded > 0, tags


@st.composite
def yield_settings(draw, incs=(4, 12), nsteps=1):
    s = draw(gen.settings_dict(incs=incs, nsteps=nsteps, calm=False))
    s["du"] = draw(st.sampled_from([0.02, 0.05, 0.1]))
    s["dlpf"] = draw(st.sampled_from([0.1, 0.3, 1.0]))
    return s


@st.composite
def fault_settings(draw, nsteps=1):
    s = draw(gen.fault_settings(nsteps=nsteps))
    s["du"] = draw(st.sampled_from([0.02, 0.05, 0.1]))
    s["dlpf"] = draw(st.sampled_from([0.1, 0.3, 1.0]))
    return s


def check_faults(case):
    run = faulty_run(case)
    nt, tags = check(case["spec"], run)
    return nt and run.injected > 0, tags


PARTS = [
    Part("general", lambda: gen.truss_spec(plastic=True, fixed_control=True), check, 750, 14000),
    Part("yielding", lambda: gen.truss_spec(
        plastic=True, max_steps=4, fixed_control=False, settf=yield_settings, yielding=True),
        check, 750, 14000),
    Part("soft", lambda: gen.truss_spec(
        plastic=True, max_steps=4, max_free=2, fixed_control=False, settf=yield_settings,
        yielding=True, soft=True), check, 300, 6000),
    Part("hard", lambda: gen.hard_spec(plastic=True, yielding=True), check, 600, 10000),
    Part("faults", lambda: gen.fault_case(
        plastic=True, yielding=True, settf=fault_settings), check_faults, 400, 8000),
    Part("large", lambda: gen.large_spec(
        plastic=True, yielding=True, max_steps=3, incs=(1, 4)), check, 24, 800),
    Part("long", lambda: gen.truss_spec(
        plastic=True, max_steps=2, max_free=1, fixed_control=False, yielding=True,
        settf=lambda nsteps=1: yield_settings(incs=(30, 80), nsteps=nsteps)), check, 64, 1600),
]
