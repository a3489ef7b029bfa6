"""Adaptive step-width control follows its rules."""
import re

import numpy as np
from hypothesis import strategies as st

from vf import build, gen
from vf.common import Run, arr, faulty_run, need, sett
from vf.core import Part
from vf.meta import split

RULE = (
    "a case counts as non-trivial if adaptive control changed the step width at least "
    "once (rules), or a model without it recorded at least two increments (constant)"
)
ASSUMPTIONS = [
    "the iterations of an increment found at the first attempt are counted by the "
    "stiffness matrices asked for; after repeated attempts, and with injected failures, "
    "every count from one to the allowed number is accepted",
]
MARK = "<stiffness>"


def counted(spec):
    """run that prints a mark for every stiffness matrix the solver asks for"""
    M = build.make(spec, log=1)
    real = M.stiffness

    def stiffness(*a, **k):
        print(MARK)
        return real(*a, **k)

    M.stiffness = stiffness
    return Run(spec, model=M)


@st.composite
def control_settings(draw, nsteps=1, long=True):
    s = {"stepcontrol": True}
    n = draw(st.integers(6, 40 if nsteps == 1 else 14))
    s["incs"] = n
    s["du"] = draw(st.sampled_from([0.02, 0.005, 0.1, 0.3, 0.6, 1.0]))
    s["dlpf"] = draw(st.sampled_from([0.02, 0.005, 0.1, 0.5, 1.0, 3.0]))
    s["maxfac"] = draw(st.sampled_from([10, 1, 2, 4, 1.7, 1.1, 40]))
    s["minfac"] = draw(st.sampled_from([1e-6, 1e-3, 0.1, 0.5, 1.0, 0.07]))
    s["reduce"] = draw(st.sampled_from([8, 2, 4.0, 1.5, 1.1]))
    s["increase"] = draw(st.sampled_from([0.5, 1, 0.1, 2.0, 0, 5.0]))
    s["nfev"] = draw(st.sampled_from([8, 8, 3, 4, 5, 2]))
    s["cycl"] = draw(st.sampled_from([4, 3, 2, 6, 10]))
    s["dxtol"] = draw(st.sampled_from([1.000001, 1.25, 1.05]))
    if draw(st.booleans()):
        s["ftol"] = draw(st.sampled_from([8, 10, 6]))
        s["xtol"] = draw(st.sampled_from([8, 6, 3]))
    if draw(st.integers(0, 4)) == 0:
        s["j_pre"] = False
    return s


def rules_case():
    return gen.truss_spec(max_free=2, max_steps=3, plastic=None, settf=control_settings)


@st.composite
def limit_settings(draw, nsteps=1):
    """long runs around limit points with bars of realistic stiffness, so that single
    attempts fail now and then"""
    s = draw(control_settings(nsteps=nsteps))
    s["incs"] = draw(st.integers(25, 60))
    s["nfev"] = draw(st.sampled_from([4, 5, 8, 3]))
    s["du"] = draw(st.sampled_from([0.1, 0.3, 0.05]))
    s["dlpf"] = draw(st.sampled_from([0.1, 1.0, 0.02]))
    s["minfac"] = draw(st.sampled_from([1e-6, 1e-3]))
    s["cycl"] = draw(st.sampled_from([4, 8]))
    return s


def long_case():
    return gen.truss_spec(max_free=1, max_steps=1, settf=limit_settings, xlimit=False)


@st.composite
def const_case(draw):
    spec = draw(gen.truss_spec(max_free=2, max_steps=3, incs=(2, 10)))
    s = spec["settings"]
    if draw(st.booleans()):
        s["stepcontrol"] = True
        s["minfac"] = s["maxfac"] = 1
        s["cycl"] = 10
        s["increase"] = draw(st.sampled_from([0.5, 1, 2.0]))
    else:
        s["stepcontrol"] = False
    return spec


def factors(run):
    """the common factor of the step limits of every increment"""
    f = [None]
    d0 = run.dxmax0()
    for i in range(1, run.n + 1):
        w = arr(run.R[i].dVmax)
        need(w.shape == d0.shape, "increment %d: %d step limits for %d components", i, w.size, d0.size)
        q = w / d0
        need(np.isfinite(q).all() and np.ptp(q) <= 1e-9 * q[0],
             "increment %d: step limits are %s times the initial ones, not one common factor", i, q)
        f.append(float(q[0]))
    return f


def check_rules(spec, run=None):
    exact = run is None
    run = run or counted(spec)
    S = lambda k: float(sett(spec, k))  # noqa: E731
    lo, hi, red, inc, nfev = min(S("minfac"), 1.0), max(S("maxfac"), 1.0), S("reduce"), S("increase"), int(S("nfev"))
    f = factors(run)
    tol = 1e-9
    seg = split(run)
    # what a single attempt may do
    grow = [1.0] + [1 + (m - n) / m * inc for m in (nfev, nfev - 1) if m > 0 for n in range(1, m + 1)]
    gmax = 1 + (nfev - 1) / nfev * inc
    pre = 1 if spec["settings"].get("j_pre", True) and not sett(spec, "j_fixed") else 0
    before = ""
    tags = set(run.tags())
    k = 0
    last_red = None
    changed = 0
    for i in range(1, run.n + 1):
        first = i == 1 or run.steps[i] != run.steps[i - 1]
        if first:
            k, last_red = 0, None
        k += 1
        where = "step %d increment %d" % (run.steps[i], k)
        need(lo * (1 - tol) <= f[i] <= hi * (1 + tol), "%s: factor %r outside [%r, %r]", where, f[i], lo, hi)
        prev = 1.0 if first else f[i - 1]
        q = f[i] / prev
        text = seg.get(run.steps[i], [])
        text = text[k - 1] if k <= len(text) else "recycling"
        repeats = text.count("recycling increment")
        if q > 1 + tol:
            need(not first, "%s: the factor starts at %r", where, f[i])
            need(q <= gmax * (1 + tol), "%s: factor grows by %r, at most %r is allowed", where, q, gmax)
            if last_red is not None:
                need(i - last_red > 4, "%s: factor grows %d increments after a reduction", where, i - last_red)
            tags.add("growth")
            changed += 1
        if q < 1 - tol:
            need(repeats > 0, "%s: factor falls without a failed attempt", where)
            changed += 1
            tags.add("reduction")
        # from the last factor: one increase at most, then whole reductions
        ok = False
        gs = grow
        if exact and not first and MARK in before and "recycling" not in before:
            # the increment before was found at once, in this number of iterations
            m, n = nfev - pre, before.count(MARK) - pre
            gs = [1.0, 1 + (m - n) / m * inc] if m > 0 else [1.0]
            if q > 1 + tol and repeats == 0:
                tags.add("amount of growth")
        if not first and "recycling" in before:
            # no growth after an increment that needed repeated attempts
            gs = [1.0]
            tags.add("after repeated attempts")
        before = text
        for g in gs:
            if last_red is not None and i - last_red <= 4 and g > 1:
                continue
            v = min(prev * g, max(S("maxfac"), prev))
            if first and g > 1:
                continue
            for _ in range(repeats + 1):
                if abs(f[i] / v - 1) <= 1e-7:
                    ok = True
                v = max(v / red, S("minfac"))
        if S("maxfac") <= 1 and abs(f[i] / S("maxfac") - 1) <= 1e-9:
            ok = True
        need(ok, "%s: factor %r after %r is neither an allowed increase nor whole reductions by %r (%d repeated attempts)",
             where, f[i], prev, red, repeats)
        # a reduction inside this increment
        smaller = f[i] < prev * (1 - tol)
        if smaller:
            last_red = i
        if abs(f[i] - S("minfac")) <= tol * f[i] and f[i] < 1:
            tags.add("minimum factor")
        if abs(f[i] - S("maxfac")) <= tol * f[i] and f[i] > 1:
            tags.add("maximum factor")
    if "ERROR 2" in run.out and run.n > 0:
        # gave up although smaller limits were still allowed?
        st_ = run.steps[-1]
        for q in sorted(seg):
            if q >= st_ and seg[q] and "ERROR 2" in seg[q][-1]:
                m = sum(1 for x in run.steps[1:] if x == q)
                if len(seg[q]) == m + 1:
                    r = seg[q][-1].count("recycling increment")
                    least = (f[run.n] if m else 1.0) / red ** r
                    need(least <= S("minfac") * (1 + 1e-6),
                         "step %d stopped without convergence at a factor of at least %r, %r is allowed",
                         q, least, S("minfac"))
                    tags.add("stopped at the minimum")
                break
    if "ERROR 1" in run.out and int(S("cycl")) > 1:
        # the attempt that did not converge may have been repeated with smaller limits?
        for q in sorted(seg):
            if seg[q] and "ERROR 1" in seg[q][-1]:
                t = seg[q][-1]
                m = [i for i in range(1, run.n + 1) if run.steps[i] == q]
                if len(seg[q]) != len(m) + 1:
                    break
                norms = re.findall(r"^\|\s*\|\s*\d+\s*\|\s*\|\s*(\S+?)\s*\|", t, re.M)
                if norms and not float(norms[-1]) < 0.999 * 10.0 ** -S("ftol"):
                    r = t.count("recycling increment")
                    least = (f[m[-1]] if m else 1.0) / red ** r
                    need(least <= S("minfac") * (1 + 1e-6),
                         "step %d: a failed attempt is not repeated at a factor of at least %r, %r is allowed",
                         q, least, S("minfac"))
                    tags.add("given up at the minimum")
                break
    return changed >= 1, sorted(tags)


@st.composite
def linear_case(draw):
    spec = draw(gen.truss_spec(kinds=("chain",), max_free=3, plastic=False, max_steps=2,
                               settf=control_settings, xlimit=False, fixed_control=False))
    s = spec["settings"]
    s["nfev"] = draw(st.sampled_from([8, 6, 12]))
    s["du"] = draw(st.sampled_from([0.02, 0.005]))
    s["increase"] = draw(st.sampled_from([0.5, 1, 0.1, 2.0, 0.25]))
    s["dxtol"] = 1.000001
    s["ftol"] = s["xtol"] = 8
    s.pop("j_pre", None)
    s["incs"] = draw(st.integers(3, 8))
    return spec


def check_linear(spec):
    """every increment of a linear structure converges at once: the limits grow from
    the first increment of every step on, by the documented amount"""
    run = Run(spec, log=1)
    f = factors(run)
    inc, nfev, hi = float(sett(spec, "increase")), int(sett(spec, "nfev")), float(sett(spec, "maxfac"))
    lo = float(sett(spec, "minfac"))
    grew = 0
    for i in range(1, run.n + 1):
        if float(arr(run.R[i].stretch).min()) < 0.2:
            break
        if i == 1 or run.steps[i] != run.steps[i - 1]:
            need(abs(f[i] - 1) <= 1e-9, "the first increment of a step has the factor %r", f[i])
            continue
        d = np.abs(run.x(i - 1) - run.x_before(i - 1)) / arr(run.R[i - 1].dVmax)
        d = np.sort(d)
        u, v = (arr(run.R[k].stretch)[:, 0] for k in (i - 2, i - 1))
        if np.min(v - 1.05 * (1 + inc) * np.abs(v - u)) < 0.2:
            break  # the attempt may fold a bar
        if len(d) > 1 and d[-2] > 1 - 1e-5:
            break  # two components reach their limit: the control component may change
        prev = f[i - 1]
        if prev < 1 - 1e-9:
            break
        ok = False
        for m in (nfev, nfev - 1):
            for n in (1, 2):
                v = min(prev * (1 + (m - n) / m * inc), hi) if prev < hi else hi
                ok = ok or abs(f[i] / max(v, lo) - 1) <= 1e-9
        need(ok, "increment %d: factor %r after %r although every increment before converged at once", i, f[i], prev)
        grew += f[i] > prev
    return grew >= 2, ["kind:" + spec["kind"], "several steps" if run.steps[-1] > 1 else "one step"]


@st.composite
def fault_settings(draw, nsteps=1):
    s = draw(gen.fault_settings(nsteps=nsteps, incs=(6, 16)))
    s["stepcontrol"] = True
    s["du"] = draw(st.sampled_from([0.01, 0.005]))
    s["nfev"] = draw(st.sampled_from([8, 6, 12]))
    s["maxfac"] = draw(st.sampled_from([10, 1, 2, 4, 1.7, 1.1]))
    s["cycl"] = draw(st.sampled_from([4, 3, 6, 10]))  # room for a change of the control component
    s["dxtol"] = 1.000001
    s["ftol"] = s["xtol"] = 8
    s.pop("j_pre", None)
    return s


def fault_case():
    return gen.fault_case(kinds=("chain",), max_free=3, plastic=False, xlimit=False,
                          fixed_control=False, settf=fault_settings, kinds_of_failure=False)


@st.composite
def turn_settings(draw, nsteps=1):
    s = draw(gen.fault_settings(nsteps=nsteps, incs=(6, 16)))
    s["stepcontrol"] = True
    s["cycl"] = draw(st.sampled_from([4, 6, 2, 3, 10]))
    s["increase"] = draw(st.sampled_from([0.5, 1.0, 0.1]))
    return s


def turn_case():
    return gen.fault_case(settf=turn_settings, plastic=None)


def check_turns(case):
    run = faulty_run(case)
    nt, tags = check_rules(case["spec"], run)
    return nt and run.injected > 0, tags


def check_faults(case):
    """the step width of every increment of a linear structure follows from the
    schedule of failing attempts"""
    run = faulty_run(case)
    spec, fails = case["spec"], case["fails"]
    f = factors(run)
    S = lambda k: float(sett(spec, k))  # noqa: E731
    lo, hi, red, inc, nfev = S("minfac"), S("maxfac"), S("reduce"), S("increase"), int(S("nfev"))
    lims = sett(spec, "incs")
    tags = set()
    pos = i = events = 0  # pos: increments begun, i: increments recorded
    for step in range(1, int(sett(spec, "nsteps")) + 1):
        want = lims[step - 1] if isinstance(lims, list) else lims
        now, since = {1.0}, 4
        for k in range(want):
            n = fails[pos] if pos < len(fails) else 0
            pos += 1
            where = "step %d increment %d" % (step, k + 1)
            ends, acc = False, []
            for a in now:
                for _ in range(n):
                    if a <= lo * (1 + 1e-9):
                        ends = True
                        break
                    a = max(a / red, lo)
                else:
                    acc.append(a)
            if not (i < run.n and run.steps[i + 1] == step):
                need(ends, "%s: not found although attempt %d converges and the minimum factor "
                     "is not reached before", where, n + 1)
                tags.add("stopped at the minimum")
                break
            i += 1
            hit = [a for a in acc if abs(f[i] / a - 1) <= 1e-9]
            need(hit, "%s: factor %r after %d failed attempts and %d increments since the last "
                 "reduction, possible %s", where, f[i], n, since, sorted(acc))
            a = hit[0]
            if k and a > f[i - 1] * (1 + 1e-9):
                tags.add("growth")
                events += 1
            if float(arr(run.R[i].stretch).min()) < 0.2:
                return events >= 1, sorted(tags)
            d = np.sort(np.abs(run.x(i) - run.x_before(i)) / arr(run.R[i].dVmax))
            if len(d) > 1 and d[-2] > 1 - 1e-5:
                return events >= 1, sorted(tags)  # tie: the control component may change
            if n:
                since = 0
                tags.add("reduction")
                events += 1
            if n == 0 and since >= 4 and a < hi:
                now = {min(a * (1 + (m - q) / m * inc), hi)
                       for m in (nfev, nfev - 1) for q in (1, 2, 3)}
            elif a >= hi * (1 - 1e-12):
                now = {hi}
            else:
                now = {a}
            since += 1
    return events >= 1, sorted(tags)


def check_const(spec):
    run = Run(spec)
    f = factors(run)
    for i in range(1, run.n + 1):
        need(abs(f[i] - 1) <= 1e-12, "increment %d: step limits are %r times the initial ones", i, f[i])
    return run.n >= 2, run.tags()


PARTS = [
    Part("rules", rules_case, check_rules, 700, 14000),
    Part("long", long_case, check_rules, 200, 6000),
    Part("linear", linear_case, check_linear, 400, 8000),
    Part("faults", fault_case, check_faults, 400, 8000),
    Part("turns", turn_case, check_turns, 400, 8000),
    Part("constant", const_case, check_const, 200, 6000),
]
