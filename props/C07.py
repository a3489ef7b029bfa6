"""A run records the complete, ordered list of increments and stops when told."""
import contextlib
import io
import math

import numpy as np
from hypothesis import strategies as st

from vf import build, gen
from vf.common import Run, arr, close, faulty_run, need, sett
from vf.core import Part, Violation

RULE = (
    "a case counts as non-trivial if increments were recorded and (several steps "
    "were run, or the maximum value or an error ended a step, or at least three "
    "increments were recorded); singular: the structure has no unique solution"
)


def per_step(v, k, tup):
    return v[k] if tup else v


def bound(spec):
    """a generous bound of the evaluations of the out-of-balance force"""
    cycl, nfev = sett(spec, "cycl"), sett(spec, "nfev")
    rounds = 1
    if sett(spec, "stepcontrol"):
        rounds = 3 + math.log(
            max(sett(spec, "maxfac"), 1) / sett(spec, "minfac")
        ) / math.log(sett(spec, "reduce"))
    incs = sett(spec, "incs")
    n = sum(incs) if isinstance(incs, list) else incs * sett(spec, "nsteps")
    return (n + sett(spec, "nsteps")) * rounds * cycl * (2 * nfev + 8) * 2 + 200


def counted(spec, log=0):
    """model whose evaluations are counted, so that an endless run is noticed"""
    M = build.make(spec, log=log)
    lim = bound(spec)
    cnt = [0]
    orig = M.equilibrium

    def eq(*a, **k):
        if k.get("stage", "G") == "G" and (len(a) < 3 or a[2] == "G"):
            cnt[0] += 1
            if cnt[0] > lim:
                raise Violation("run does not end: more than %d evaluations" % lim)
        return orig(*a, **k)

    M.equilibrium = eq
    return M, cnt


def check_list(run):
    spec, ref, R = run.spec, run.ref, run.R
    ns = sett(spec, "nsteps")
    z = np.zeros((ref.nn, 3))
    r0 = R[0]
    close(r0.U, z, 0, 0, "first result: displacement")
    close(r0.r, z, 0, 0, "first result: internal force")
    need(float(r0.lpf) == 0.0, "first result: load factor %r", r0.lpf)
    close(r0.U0, z, 0, 0, "first result: displacement at its beginning")
    close(r0.g, z, 0, 0, "first result: out-of-balance force")
    bars = np.zeros((ref.ne, 1))
    close(r0.element_force, bars, 0, 0, "first result: bar force")
    close(r0.element_stress, bars, 0, 0, "first result: stress")
    close(r0.element_stress0, bars, 0, 0, "first result: stress at its beginning")
    close(r0.stretch, bars + 1, 0, 0, "first result: stretch")
    nf = len(ref.dof1)
    close(np.ravel(r0.Ured), np.zeros(nf), 0, 0, "first result: reduced displacement")
    close(np.ravel(r0.rred), np.zeros(nf), 0, 0, "first result: reduced internal force")
    need(len({id(r) for r in R}) == len(R), "increments share one object")
    need(run.steps[1:] == sorted(run.steps[1:]), "order of steps %s", run.steps)
    need(all(1 <= s <= ns for s in run.steps), "step numbers %s", run.steps)
    incs, xl = sett(spec, "incs"), sett(spec, "xlimit")
    errors = exits = 0
    kinds = set()
    for k in range(ns):
        ids = [i for i in range(1, len(R)) if run.steps[i] == k + 1]
        want = incs[k] if isinstance(incs, list) else incs
        need(len(ids) <= want, "step %d: %d increments, %d asked for", k + 1, len(ids), want)
        hit = False
        if xl is not None:
            j, mx = xl[k] if isinstance(xl[0], list) else xl
            for i in ids:
                need(not hit, "step %d went on after its maximum value was exceeded", k + 1)
                hit = abs(run.x(i)[j - 1]) > mx
        if hit:
            exits += 1
            kinds.add("maximum")
        elif len(ids) < want:
            errors += 1
            kinds.add("error")
    need(
        run.out.count("ERROR") == errors,
        "%d step(s) ended early without reaching a maximum value, but %d error notices",
        errors, run.out.count("ERROR"),
    )
    need(
        run.out.count("EXIT") == exits,
        "%d step(s) ended by maximum value, %d notices", exits, run.out.count("EXIT"),
    )
    for i in range(1, len(R)):
        prev = arr(R[i - 1].U)
        close(R[i].U0, prev, 0, 0, "increment %d: displacement at its beginning", i)
        close(
            R[i].element_stress0, arr(R[i - 1].element_stress), 0, 0,
            "increment %d: stress at its beginning", i,
        )
        need(
            not np.array_equal(run.x(i), run.x_before(i)),
            "increment %d repeats the one before", i,
        )
    return kinds


def check(spec):
    M, cnt = counted(spec)
    run = Run(spec, model=M)
    kinds = check_list(run)
    t = run.tags() + ["end: " + k for k in kinds]
    return run.n >= 1 and (bool(kinds) or sett(spec, "nsteps") > 1 or run.n >= 3), t


def check_faults(case):
    run = faulty_run(case)
    kinds = check_list(run)
    need(
        all(np.isfinite(arr(r.U)).all() and np.isfinite(arr(r.r)).all() for r in run.R),
        "a failed attempt was recorded",
    )
    return run.n >= 1 and run.injected > 0, run.tags() + ["end: " + k for k in kinds]


@st.composite
def limited_case(draw):
    spec = draw(gen.truss_spec(max_steps=4, incs=(2, 6), xlimit=False))
    ns = spec["settings"].get("nsteps", 1)
    nd = sum(sum(b) for _, b in spec["bounds"]) + 3 * (
        len(spec["nodes"]) - len(spec["bounds"])
    )

    def lim():
        return [
            draw(st.integers(0, nd + 1)),
            draw(st.sampled_from([0.05, 0.02, 0.1, 0.01, 0.3, 0.003, 1.0])),
        ]

    spec["settings"]["xlimit"] = (
        [lim() for _ in range(ns)] if ns > 1 and draw(st.booleans()) else lim()
    )
    return spec


@st.composite
def singular_case(draw):
    """structures with a mechanism, loaded in or across its direction"""
    n = draw(st.integers(2, 4))
    ax = draw(st.permutations([0, 1, 2]))
    nodes, elems, bounds = [], [], []
    for i in range(n):
        p = [0.0, 0.0, 0.0]
        p[ax[0]] = float(i)
        nodes.append([i + 1] + p)
        if i:
            elems.append({"label": i, "conn": [i, i + 1], "mat": [1.0, 0.1, 0.05],
                          "mtype": draw(st.sampled_from([1, 2])), "area": 1.0})
    f = [0, 0, 0]
    for i in range(n):
        b = [0, 0, 0]
        if i:
            b[ax[0]] = 1
            if draw(st.booleans()):
                b[ax[1]] = 1
        bounds.append([i + 1, b])
    if draw(st.booleans()) and n > 2:
        bounds[-1][1] = [0, 0, 0]
    # at least one component across the bars is free: no stiffness at the start
    bounds[1][1] = [0, 0, 0]
    bounds[1][1][ax[0]] = bounds[1][1][ax[1]] = 1
    f[ax[0]] = draw(st.sampled_from([1.0, 0.0, -1.0]))
    f[ax[1]] = draw(st.sampled_from([1.0, 0.0, -0.5]))
    s = draw(st.one_of(gen.settings_dict(incs=(2, 4)), gen.hard_settings(incs=(2, 4))))
    return {
        "kind": "singular",
        "nodes": nodes, "elems": elems, "bounds": bounds,
        "forces": [[2, f]], "settings": s,
    }


def check_singular(spec):
    M, cnt = counted(spec)
    run = Run(spec, model=M)
    kinds = check_list(run)
    need(
        all(np.isfinite(arr(r.U)).all() and np.isfinite(float(r.lpf)) for r in run.R),
        "a recorded increment is not finite",
    )
    return True, run.tags() + ["end: " + k for k in kinds]


PARTS = [
    Part("general", lambda: gen.truss_spec(max_steps=4, incs=(1, 6)), check, 800, 12000),
    Part("limited", limited_case, check, 600, 9000),
    Part("hard", lambda: gen.hard_spec(max_steps=4), check, 800, 12000),
    Part("faults", lambda: gen.fault_case(), check_faults, 300, 6000),
    Part("singular", singular_case, check_singular, 300, 4000),
    Part("long", lambda: gen.truss_spec(max_steps=3, incs=(60, 140), max_free=1), check, 40, 800),
]
