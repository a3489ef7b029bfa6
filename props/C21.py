"""The printed report agrees with model, settings and results."""
import ast
import contextlib
import io
import re
import time

import numpy as np
from hypothesis import strategies as st

from vf import build, gen
from vf.common import Run, arr, need, sett
from vf.core import Part

RULE = (
    "a case counts as non-trivial if at least two recorded increments were compared "
    "with their part of the report; exit: a maximum value was exceeded; times: always"
)
ASSUMPTIONS = [
    "the report is read by its headlines, table columns and notices",
]
ROW = re.compile(r"^\|.*\|$")
NOTE = "* "


def cells(line):
    return [c.strip() for c in line.strip().strip("|").split("|")]


def num(s):
    return float(s)


class Block:
    """the report of one increment"""

    def __init__(self, number):
        self.number = number
        self.pre = None
        self.attempts = []  # [iteration rows, final row]
        self.rows = []
        self.notes = []
        self.lpf = None

    def close(self, final):
        self.attempts.append((self.rows, final))
        self.rows = []


def parse(text):
    """{"head": lines, "steps": [{"number", "intro", "blocks", "write", "end"}]}"""
    rep = {"head": [], "steps": [], "tail": []}
    step = block = None
    where = "head"
    for line in text.split("\n"):
        m = re.match(r"^## Step\s+(\d+)\s*$", line)
        if m:
            step = {"number": int(m[1]), "intro": [], "blocks": [], "write": [], "end": None}
            rep["steps"].append(step)
            where = "intro"
            continue
        m = re.match(r"^### Increment\s+(\d+)\s*$", line)
        if m:
            block = Block(int(m[1]))
            step["blocks"].append(block)
            where = "block"
            continue
        m = re.match(r"^End of Step\s+(\d+)\s*$", line)
        if m:
            step["end"] = int(m[1])
            where = "tail"
            continue
        if line.startswith("### Create result"):
            step["create"] = line
            where = "write"
            continue
        if where == "head":
            rep["head"].append(line)
        elif where == "tail":
            rep["tail"].append(line)
        elif where == "intro":
            step["intro"].append(line)
        elif where == "write":
            m = re.match(r"^\s*write result\s+(\d+)/\s*(\d+) \(LPF:\s*(\S+)\)\s*$", line)
            if m:
                step["write"].append((int(m[1]), int(m[2]), num(m[3])))
        elif where == "block":
            m = re.match(r"^\* final LPF:\s*(\S+)\s*$", line)
            if m:
                need(block.lpf is None, "two final load factors in one increment")
                block.lpf = num(m[1])
            elif line.startswith(NOTE) or line.startswith("* "):
                block.notes.append((len(block.attempts), line))
            elif ROW.match(line):
                c = cells(line)
                if c[0] in ("Cycle", ":---:", "total") or c[0].startswith(":"):
                    continue
                if c[0] == "":
                    block.rows.append((int(c[1]), num(c[3])))
                elif c[-1] == "":
                    need(block.pre is None and not block.attempts, "prediction row out of place")
                    block.pre = c
                else:
                    block.close(c)
    return rep


def summary(rep, run, log):
    text = "\n".join(rep["head"])
    ref = run.ref
    if log < 2:
        return
    want = {"ndim": 3, "nnodes": ref.nn, "nelems": ref.ne, "ndof": 3 * ref.nn,
            "ndof1": len(ref.dof1), "ndof2": len(ref.dof0)}
    for k, v in want.items():
        m = re.search(r'"%s":\s*(\d+)\s*$' % k, text, re.M)
        need(m and int(m[1]) == v, "summary: %s is printed as %s, the model has %d", k, m and m[1], v)
    for k, v in (("nproDOF1", ref.dof1), ("nproDOF0", ref.dof0)):
        m = re.search(r'"%s":\s*\[([^\]]*)\]' % k, text)
        need(m and "..." in m[1] or m and [int(q) for q in m[1].split()] == list(v),
             "summary: %s is printed as %s, the model has %s", k, m and m[1], list(v))
    keys = ["incs", "cycl", "nfev", "du", "dlpf", "dxtol", "xtol", "ftol"]
    if sett(run.spec, "stepcontrol"):
        keys += ["minfac", "maxfac", "increase", "reduce"]
    else:
        need("`stepcontrol`" not in text, "parameters of adaptive control listed without it")
    for k in keys:
        m = re.search(r"`%s`\|(.*)\|\s*$" % k, text, re.M)
        need(m, "parameter %s is not listed", k)
        got = ast.literal_eval(m[1].strip())
        v = sett(run.spec, k)
        v = list(v) if isinstance(v, (list, tuple)) else float(v)
        if k == "reduce":
            v = 1 / v
        got = list(got) if isinstance(got, tuple) else float(got)
        need(got == v or isinstance(v, float) and abs(got - v) <= 1e-9 * abs(v),
             "parameter %s is listed as %r, the setting is %r", k, got, v)
    m = re.search(r"`j_fixed`\|(.*)\|\s*$", text, re.M)
    need(m and m[1].strip() == str(bool(sett(run.spec, "j_fixed"))), "parameter j_fixed: %s", m and m[1])
    m = re.search(r"`j0`\|(.*)\|\s*$", text, re.M)
    j0 = sett(run.spec, "j0")
    need(m and m[1].strip() == ("LPF" if j0 is None else str(j0)), "parameter j0: %s", m and m[1])


def near(a, b, tol):
    return abs(a - b) <= tol * abs(b) or a == b


def numbers(text):
    return [float(q) for q in re.findall(r"[-+]?(?:\d+\.?\d*(?:e[-+]?\d+)?|\.\d+)", text)]


def intro(step, run, first):
    """held loads and start of a later step; first: its first recorded increment"""
    text = "\n".join(step["intro"])
    a = text.find("constant part of external forces")
    b = text.find("initial values of active DOF")
    if step["number"] == 1:
        need(a < 0 and b < 0, "held loads reported in the first step")
        return
    need(0 <= a < b, "no held loads reported in step %d", step["number"])
    if first is None or "..." in text:
        return
    R = run.R[first]
    for part, want in ((text[a:b], arr(R.ExtForces.forces_const).ravel()),
                       (text[b:], run.x_before(first))):
        got = np.array(numbers(part[part.index("["):]))
        need(got.shape == want.shape, "step %d: %d numbers reported, %d expected",
             step["number"], len(got), len(want))
        # eight digits after the point
        need((np.abs(got - want) <= 6e-9 + 1e-7 * np.abs(want)).all(),
             "step %d: reported start %s, real one %s", step["number"], got, want)


def increment(block, run, i, log, where):
    """the report of recorded increment i (index into the results)"""
    R = run.R[i]
    need(block.lpf is not None and near(block.lpf, float(R.lpf), 1e-3),
         "%s: load factor %s reported, %r recorded", where, block.lpf, float(R.lpf))
    dx = run.x(i) - run.x_before(i)
    rel = dx / arr(R.dVmax)
    x0 = np.abs(run.x_before(i)).max()
    tol = 6e-5 + 1e-10 * x0 / arr(R.dVmax).min() + 1e-9 * np.abs(rel).max()
    rec = sum("recycling increment" in n for _, n in block.notes)
    need(not any("ERROR" in n for _, n in block.notes), "%s: error notice in a recorded increment", where)
    if log < 2:
        return
    need(len(block.attempts) == rec + 1, "%s: %d attempts, %d repetitions reported",
         where, len(block.attempts), rec)
    need(not block.rows, "%s: iterations without an attempt", where)
    nfev = int(sett(run.spec, "nfev"))
    pred = run.spec["settings"].get("j_pre", True) and not sett(run.spec, "j_fixed")
    need((block.pre is not None) == bool(pred), "%s: prediction reported: %s", where, block.pre is not None)
    number = 0
    for k, (rows, final) in enumerate(block.attempts):
        # attempts are counted, from the start again after a forced reduction
        forced = any(q == k and "max. recycles reached" in n for q, n in block.notes)
        number = 2 if forced else number + 1
        need(int(final[0]) == number, "%s: attempt %d has the number %s", where, k + 1, final[0])
        need([r[0] for r in rows] == list(range(1, len(rows) + 1)), "%s: iterations %s", where, rows)
        extra = 1 if pred and k == 0 else 0
        need(len(rows) <= nfev - extra, "%s: %d iterations, %d allowed", where, len(rows), nfev - extra)
        need(int(final[1]) == len(rows) + extra, "%s: %s iterations in total, %d listed",
             where, final[1], len(rows) + extra)
        if not rows:  # nothing but the predictor allowed: no residual known
            need(np.isnan(num(final[3])), "%s: final norm %s without an iteration", where, final[3])
            continue
        need(near(num(final[3]), rows[-1][1], 1e-3) or np.isnan(num(final[3])) and np.isnan(rows[-1][1]),
             "%s: final norm %s, norm of the last iteration %s", where, final[3], rows[-1][1])
    rows, final = block.attempts[-1]
    need(num(final[3]) <= 10.0 ** -float(sett(run.spec, "ftol")) * 1.001,
         "%s: recorded with norm %s", where, final[3])
    used = int(final[2])
    need(abs(abs(rel[abs(used) - 1]) - 1) <= tol and (rel[abs(used) - 1] > 0) == (used > 0),
         "%s: control component %d reported, its relative change is %r", where, used, rel[abs(used) - 1])
    order = np.sort(np.abs(rel))[::-1]
    for q in range(min(3, len(rel))):
        c, v = int(final[4 + 2 * q]), num(final[5 + 2 * q])
        need(abs(rel[c - 1] - v) <= tol, "%s: relative change %r of component %d reported, it is %r",
             where, v, c, rel[c - 1])
        need(abs(abs(v) - order[q]) <= 2 * tol, "%s: component %d reported as number %d of the biggest, "
             "relative changes %s", where, c, q + 1, rel)


def widths(blocks, run, ids, where):
    """step width of every increment from the reported reductions and increases"""
    if not sett(run.spec, "stepcontrol"):
        need(not any("NR-step" in n for b in blocks for _, n in b.notes), "%s: step width changed", where)
        return 0
    lo, hi = float(sett(run.spec, "minfac")), float(sett(run.spec, "maxfac"))
    red, inc = float(sett(run.spec, "reduce")), float(sett(run.spec, "increase"))
    nfev = int(sett(run.spec, "nfev"))
    d0 = run.dxmax0()[0]
    f, changes = 1.0, 0
    for b, i in zip(blocks, ids):
        n_att = len(b.attempts)
        grown = 1.0
        for k, n in b.notes:
            m = re.match(r"^\* (reduce|increase) NR-step size by factor:\s*([0-9.eE+-]+)\s*$", n)
            if not m:
                continue
            if m[1] == "reduce":
                need(near(num(m[2]), 1 / red, 6e-3), "%s: reduction by %s reported", where, m[2])
                f = max(f / red, lo)
            else:
                rows = b.attempts[k - 1][0]
                N = nfev - (1 if b.pre is not None and k == 1 else 0)
                need(N > 0, "%s: increase without an allowed iteration", where)
                g = 1 + (N - len(rows)) / N * inc
                need(near(num(m[2]), g, 6e-3), "%s: increase by %s reported after %d of %d iterations",
                     where, m[2], len(rows), N)
                grown *= g
                if k < n_att:  # an attempt that converged but was repeated
                    f, grown = min(f * grown, hi), 1.0
            changes += 1
        got = arr(run.R[i].dVmax)[0] / d0
        if f >= hi * (1 - 1e-9) or got >= hi * (1 - 1e-9):
            # at the maximum nothing is reported
            need(near(got, f, 1e-9) or near(got, hi, 1e-9), "%s: step width %r, reported %r", where, got, f)
            f = got
        else:
            need(near(got, f, 1e-9), "%s: step width %r times the initial one, by the report %r",
                 where, got, f)
        f = min(f * grown, hi)
    return changes


def case_():
    return st.builds(
        lambda spec, log: {"spec": spec, "log": log},
        st.one_of(
            gen.truss_spec(max_steps=3, incs=(1, 7), max_free=2),
            gen.hard_spec(max_free=2),
            gen.truss_spec(max_free=2, max_steps=2, settf=control, xlimit=False),
            gen.truss_spec(max_steps=2, incs=(8, 16), max_free=1),
        ),
        st.sampled_from([2, 2, 2, 1, 3]),
    )


@st.composite
def control(draw, nsteps=1):
    s = draw(gen.hard_settings(nsteps=nsteps, incs=(6, 14)))
    s["stepcontrol"] = True
    s["nfev"] = draw(st.sampled_from([8, 4, 6, 3]))
    s["maxfac"] = draw(st.sampled_from([10, 2, 4, 1.7]))
    s["minfac"] = draw(st.sampled_from([1e-6, 1e-3, 0.1]))
    s["reduce"] = draw(st.sampled_from([8, 2, 4.0, 1.5]))
    s["increase"] = draw(st.sampled_from([0.5, 1, 0.1, 2.0]))
    return s


def check(case):
    spec, log = case["spec"], case["log"]
    run = Run(spec, log=log)
    rep = parse(run.out)
    ns = int(sett(spec, "nsteps"))
    need([s["number"] for s in rep["steps"]] == list(range(1, ns + 1)),
         "steps %s reported, %d run", [s["number"] for s in rep["steps"]], ns)
    summary(rep, run, log)
    seen = changes = 0
    for s in rep["steps"]:
        k = s["number"]
        need(s["end"] == k, "end of step %s reported in step %d", s["end"], k)
        ids = [i for i in range(1, len(run.R)) if run.steps[i] == k]
        blocks = s["blocks"]
        need([b.number for b in blocks] == list(range(1, len(blocks) + 1)),
             "step %d: increments %s reported", k, [b.number for b in blocks])
        done = [b for b in blocks if b.lpf is not None]
        need(len(done) == len(ids), "step %d: %d increments reported as found, %d recorded",
             k, len(done), len(ids))
        need(done == blocks[: len(done)] and len(blocks) - len(done) <= 1,
             "step %d: an increment without result in between", k)
        if len(blocks) > len(done):
            need(any("ERROR" in n for _, n in blocks[-1].notes), "step %d: increment %d has neither "
                 "a result nor an error notice", k, blocks[-1].number)
        xl = sett(spec, "xlimit")
        if xl is not None:
            j, mx = xl[k - 1] if isinstance(xl[0], list) else xl
        for b, i in zip(done, ids):
            said = sum("EXIT 1" in n for _, n in b.notes)
            over = xl is not None and bool(abs(run.x(i)[j - 1]) > mx)
            need(said == over, "step %d increment %d: maximum value exceeded: %s, notice: %s",
                 k, b.number, over, said)
            increment(b, run, i, log, "step %d increment %d" % (k, b.number))
            seen += 1
        if log > 1:
            changes += widths(done, run, ids, "step %d" % k)
            n = len(ids)
            need([w[:2] for w in s["write"]] == [(q + 1, n) for q in range(n)],
                 "step %d: results %s written, %d recorded", k, [w[:2] for w in s["write"]], n)
            for w, i in zip(s["write"], ids):
                need(near(w[2], float(run.R[i].lpf), 1e-3), "step %d: written load factor %r, recorded %r",
                     k, w[2], float(run.R[i].lpf))
        intro(s, run, ids[0] if ids else None)
    tags = ["log %d" % log] + run.tags() + (["step width changed"] if changes else [])
    return seen >= 2, tags


@st.composite
def exit_case(draw):
    spec = draw(gen.truss_spec(max_steps=1, incs=(2, 6), max_free=2, xlimit=False, sett_calm=True))
    return {"spec": spec, "log": draw(st.sampled_from([0, 1, 2])), "at": draw(st.integers(1, 6)),
            "more": draw(st.sampled_from([0, 0, 1, 3])), "part": draw(st.sampled_from([0.5, 0.01, 0.99])),
            "component": draw(st.integers(0, 9))}


def check_exit(case):
    """a maximum value chosen so that one known increment is the first to exceed it"""
    first = Run(case["spec"])
    n = min(case["at"], first.n)
    if n == 0:
        return False, ["nothing recorded"]
    x = np.abs([first.x(i) for i in range(1, n + 1)])
    low = x[:-1].max(axis=0) if n > 1 else 0 * x[0]
    js = [j for j in range(x.shape[1]) if x[-1, j] > low[j] * (1 + 1e-6) + 1e-9]
    if not js:
        return False, ["nothing grows"]
    j = js[case["component"] % len(js)]
    spec = dict(case["spec"], settings=dict(case["spec"]["settings"]))
    spec["settings"]["xlimit"] = [j + 1, float(low[j] + case["part"] * (x[-1, j] - low[j]))]
    spec["settings"]["incs"] = n + case["more"]
    run = Run(spec, log=case["log"])
    need(run.n == n, "%d increments recorded, the maximum value is exceeded in increment %d", run.n, n)
    need(run.out.count("EXIT 1") == 1, "%d notices that the maximum value is exceeded", run.out.count("EXIT 1"))
    if case["log"]:
        b = parse(run.out)["steps"][0]["blocks"]
        need(len(b) == n and any("EXIT 1" in t for _, t in b[-1].notes),
             "the notice is not reported in increment %d", n)
    return True, ["last increment" if not case["more"] else "before the end", "log %d" % case["log"]]


def check_times(case):
    """a run that waits takes wall time but no processor time"""
    wait = case["wait"]
    M = build.make(case["spec"], log=2)
    real = M.equilibrium
    done = []

    def eq(*a, **k):
        if not done:
            done.append(1)
            time.sleep(wait)
        return real(*a, **k)

    M.equilibrium = eq
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        M.build()
        w, c = time.perf_counter(), time.process_time()
        M.run()
        w, c = time.perf_counter() - w, time.process_time() - c
    text = out.getvalue()
    got = {}
    for kind in ("cpu", "wall"):
        m = re.search(r'total\s+%s time "run":\s*([0-9.]+) seconds' % kind, text)
        need(m, "no %s time of the run reported", kind)
        got[kind] = float(m[1])
    need(done, "the run did not evaluate the model")
    need(got["wall"] >= wait - 0.01 and got["wall"] <= w + 0.01,
         "wall time %.3f reported, the run took %.3f", got["wall"], w)
    need(got["cpu"] <= c + 0.02, "cpu time %.3f reported, the run used %.3f", got["cpu"], c)
    return True, []


def times_case():
    return st.builds(
        lambda s, w: {"spec": s, "wait": w},
        gen.truss_spec(max_free=1, incs=(1, 2), max_steps=1, sett_calm=True),
        st.sampled_from([0.25, 0.4]),
    )


PARTS = [
    Part("report", case_, check, 1000, 16000),
    Part("exit", exit_case, check_exit, 300, 4000),
    Part("times", times_case, check_times, 24, 200),
    Part("long", lambda: st.builds(
        lambda spec: {"spec": spec, "log": 2},
        gen.truss_spec(max_steps=2, incs=(60, 130), max_free=1)), check, 24, 400),
]
