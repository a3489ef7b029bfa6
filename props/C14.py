"""Building and running is repeatable and models do not influence each other."""
import contextlib
import copy
import io
import json
import threading

import numpy as np
from hypothesis import strategies as st

from vf import gen
from vf.build import apply_settings, make, solve, tp
from vf.common import need, same_snapshot, snapshot
from vf.core import Part
from vf.zygote import Zygote

RULE = (
    "a case counts as non-trivial if at least two runs were compared with a fresh model "
    "of the same definition, one of them after an edit, a rebuild or a run of another "
    "model in between, or taking turns with it"
)
ASSUMPTIONS = ["a model is built before it is run again, as the documentation does"]

EDITS = ["force", "noforce", "addforce", "mat", "area", "mtype", "bar", "delbar", "move",
         "sett", "bound", "unbound", "support", "support", "steps",
         "node", "node", "delnode"]


@st.composite
def case_(draw):
    k = draw(st.integers(1, 3))
    specs = [draw(gen.truss_spec(incs=(1, 3), max_free=2, max_steps=3, sett_calm=True))
             for _ in range(k)]
    ops = []
    for _ in range(draw(st.integers(3, 9))):
        m = draw(st.integers(0, k - 1))
        op = draw(st.sampled_from(["run", "run", "run", "edit", "edit", "edit", "plot", "fail", "build",
                                   "new", "both"]))
        if op == "edit":
            ops.append([op, m, draw(st.sampled_from(EDITS)), draw(st.integers(0, 50)),
                        draw(st.sampled_from([0.5, 2.0, 0.75, 1.5]))])
        elif op == "fail":
            ops.append([op, m, draw(st.integers(1, 12))])
        elif op == "plot":
            ops.append([op, m, draw(st.integers(0, 4))])
        elif op == "both":
            if k > 1:
                n = draw(st.integers(0, k - 2))
                ops.append([op, m, n + (n >= m), draw(st.lists(st.integers(0, 1), min_size=2, max_size=40))])
        else:
            ops.append([op, m])
    ops.append(["run", draw(st.integers(0, k - 1))])
    return {"specs": specs, "ops": ops}


class Boom(Exception):
    pass


class Subject:
    """one live model with the definition it is meant to have"""

    def __init__(self, spec):
        self.spec = copy.deepcopy(spec)
        self.user = []
        self.added = []
        with contextlib.redirect_stdout(io.StringIO()):
            self.M = tp.Model(log=0)
        self.fill()
        self.ran = False
        self.edited = False
        self.holds = []  # (Results object, list of increments, snapshot)

    def mine(self, v):
        a = np.array(v)
        self.user.append((a, a.copy()))
        return a

    def fill(self):
        M, spec = self.M, self.spec
        for n in spec["nodes"]:
            M.Nodes.add_node(n[0], self.mine(n[1:]))
        for e in spec["elems"]:
            self.bar(e)
        for l, b in spec["bounds"]:
            M.Boundaries.add_bound_U(l, self.mine(b))
        for l, f in spec["forces"]:
            M.ExtForces.add_force(l, self.mine(f))
        apply_settings(M, spec["settings"])

    def bar(self, e):
        self.M.Elements.add_element(
            e["label"], self.mine(e["conn"]), mat_type=e["mtype"],
            material_properties=self.mine(e["mat"]),
            geometric_properties=self.mine([e["area"]]))

    def hold(self):
        self.holds.append((self.M.Results, list(self.M.Results.R), snapshot(self.M)))

    def edit(self, what, pick, fac):
        s, M = self.spec, self.M
        el = s["elems"][pick % len(s["elems"])]
        if what == "force":
            f = s["forces"][pick % len(s["forces"])]
            f[1] = [x * fac for x in f[1]]
            M.ExtForces.del_force(f[0])
            M.ExtForces.add_force(f[0], self.mine(f[1]))
        elif what == "noforce":
            if len(s["forces"]) < 2:
                return False
            k = pick % len(s["forces"])
            rest = [f for q, f in enumerate(s["forces"]) if q != k]
            M.ExtForces.del_force(s["forces"][k][0])
            s["forces"] = rest
        elif what == "addforce":
            have = {f[0] for f in s["forces"]}
            new = [n[0] for n in s["nodes"] if n[0] not in have]
            if not new:
                return False
            l = new[pick % len(new)]
            v = [fac * x for x in s["forces"][0][1]]
            s["forces"].append([l, v])
            M.ExtForces.add_force(l, self.mine(v))
        elif what == "mat":
            el["mat"] = [x * fac for x in el["mat"]]
            M.Elements.assign_material([el["label"]], self.mine(el["mat"]))
        elif what == "area":
            el["area"] *= fac
            M.Elements.assign_geometry([el["label"]], self.mine([el["area"]]))
        elif what == "mtype":
            if len(el["mat"]) < 3:
                el["mat"] = [el["mat"][0], 0.1 * el["mat"][0], 0.02 * el["mat"][0]]
                el["mtype"] = 2
            else:
                el["mtype"] = 3 - el["mtype"]
            M.Elements.assign_material([el["label"]], self.mine(el["mat"]), el["mtype"])
        elif what == "bar":
            e = copy.deepcopy(el)
            e["label"] = max(x["label"] for x in s["elems"]) + 1
            e["area"] *= fac
            s["elems"].append(e)
            self.bar(e)
        elif what == "delbar":
            par = [e for e in s["elems"]
                   if sum(sorted(e["conn"]) == sorted(x["conn"]) for x in s["elems"]) > 1]
            if not par:
                return False
            e = par[pick % len(par)]
            s["elems"].remove(e)
            M.Elements.del_element(e["label"])
        elif what == "move":
            n = s["nodes"].pop(pick % len(s["nodes"]))
            n = [n[0]] + [x + (0.03125 * fac if self.moves(k) else 0.0)
                          for k, x in enumerate(n[1:])]
            s["nodes"].append(n)
            M.Nodes.del_node(n[0])
            M.Nodes.add_node(n[0], self.mine(n[1:]))
        elif what == "sett":
            k = ["du", "dlpf", "incs", "stepcontrol"][pick % 4]
            v = {"du": 0.02 * fac, "dlpf": 0.02 * fac, "incs": 1 + pick % 3,
                 "stepcontrol": fac > 1}[k]
            s["settings"][k] = v
            apply_settings(M, {k: v})
        elif what == "bound":
            have = {b[0]: b for b in s["bounds"]}
            n = s["nodes"][pick % len(s["nodes"])][0]
            if n in have:
                b = have[n]
                s["bounds"].remove(b)
                M.Boundaries.del_bound_U(n)
                s["bounds"].append(b)
                M.Boundaries.add_bound_U(n, self.mine(b[1]))
            else:
                s["bounds"].append([n, [1, 1, 1]])
                M.Boundaries.add_bound_U(n, self.mine([1, 1, 1]))
        elif what == "unbound":
            b = [b for b in s["bounds"] if b[1] == [1, 1, 1]]
            if not b:
                return False
            b = b[pick % len(b)]
            s["bounds"].remove(b)
            M.Boundaries.del_bound_U(b[0])
        elif what == "support":
            # a node that was free, most of them without a definition, is held
            have = {b[0]: b for b in s["bounds"]}
            free = [n[0] for n in s["nodes"] if have.get(n[0], [0, [1, 1, 1]])[1] == [1, 1, 1]]
            free = [n for n in free if n not in have] or free
            if not free or "j0" in s["settings"] or "xlimit" in s["settings"]:
                return False
            n = free[pick % len(free)]
            v = [1, 1, 1]
            v[pick % 3] = 0
            new = {l: b for l, b in s["bounds"]}
            new[n] = v
            loads = [[x * y for x, y in zip(f, new.get(l, [1, 1, 1]) * (len(f) // 3))]
                     for l, f in s["forces"]]
            steps = len(loads[0]) // 3 if loads else 0
            if not steps or not all(any(any(f[3 * k:3 * k + 3]) for f in loads) for k in range(steps)):
                return False  # nothing left to push
            if n in have:
                s["bounds"].remove(have[n])
                M.Boundaries.del_bound_U(n)
            s["bounds"].append([n, v])
            M.Boundaries.add_bound_U(n, self.mine(v))
        elif what == "node":
            # one more support, which is the first or last of the nodes
            have = [n[0] for n in s["nodes"]]
            lock = {b[0]: b[1] for b in s["bounds"]}
            ends = [n[0] for n in s["nodes"] if any(lock.get(n[0], [1]))]
            if not ends or len(self.added) > 2:
                return False
            low = min(k for k in range(len(have) + 1) if k not in have)
            l = [low, max(have) + 1 + pick % 5][pick % 2]
            q = ends[pick % len(ends)]
            x = dict((n[0], n[1:]) for n in s["nodes"])[q]
            X = np.array([n[1:] for n in s["nodes"]], dtype=float)
            d = [1.25 * fac if np.ptp(X[:, k]) > 0 else 0.0 for k in range(3)]
            s["nodes"].append([l] + [a + b for a, b in zip(x, d)])
            s["bounds"].append([l, [0, 0, 0]])
            e = copy.deepcopy(el)
            e["label"] = max(x["label"] for x in s["elems"]) + 1
            e["conn"] = [q, l]
            s["elems"].append(e)
            M.Nodes.add_node(l, self.mine(s["nodes"][-1][1:]))
            M.Boundaries.add_bound_U(l, self.mine([0, 0, 0]))
            self.bar(e)
            self.added.append(l)
        elif what == "delnode":
            if not self.added or all(f[0] in self.added for f in s["forces"]):
                return False
            l = self.added.pop(pick % len(self.added))
            for e in [e for e in s["elems"] if l in e["conn"]]:
                M.Elements.del_element(e["label"])
                s["elems"].remove(e)
            for t, drop in (("nodes", M.Nodes.del_node), ("bounds", M.Boundaries.del_bound_U),
                            ("forces", M.ExtForces.del_force)):
                if any(x[0] == l for x in s[t]):
                    drop(l)
                s[t] = [x for x in s[t] if x[0] != l]
        elif what == "steps":
            ns = s["settings"].get("nsteps", 1)
            if ns < 2:
                return False
            s["settings"]["nsteps"] = 1
            for k in ("incs", "xlimit"):
                v = s["settings"].get(k)
                if isinstance(v, list) and (k == "incs" or isinstance(v[0], list)):
                    s["settings"][k] = v[0]
                    apply_settings(M, {k: v[0]})
            M.Settings.nsteps = 1
        return True

    def moves(self, k):
        """move inside the plane (or along the line) of the structure only"""
        X = np.array([n[1:] for n in self.spec["nodes"]], dtype=float)
        return np.ptp(X[:, k]) > 0 if len(X) else False


def fresh(spec):
    M = make(spec)
    out = solve(M)
    return snapshot(M), out


# the reference runs in processes in which no model was ever made before
PRISTINE = Zygote(fresh)


def failing_run(M, k):
    """the run of a model is ended by an error at its k-th evaluation"""
    real = M.equilibrium
    count = [0]

    def eq(*a, **kw):
        count[0] += 1
        if count[0] >= k:
            raise Boom()
        return real(*a, **kw)

    M.equilibrium = eq
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            M.build()
            M.run()
    except Boom:
        pass
    finally:
        del M.equilibrium


def together(models, order):
    """build and run models in threads which take turns in the given order: a turn ends
    at the begin or end of an evaluation of the model, and after building it"""
    cond = threading.Condition()
    alive = set(range(len(models)))
    turn, pos, errors = [order[0]], [0], {}

    def advance():
        for _ in range(len(order)):
            pos[0] = (pos[0] + 1) % len(order)
            if order[pos[0]] in alive:
                turn[0] = order[pos[0]]
                break
        else:
            turn[0] = min(alive, default=-1)
        cond.notify_all()

    def gate(me, first=False):
        with cond:
            if not first:
                advance()
            while turn[0] != me:
                cond.wait()

    def work(me):
        M = models[me]
        real = M.equilibrium

        def eq(*a, **kw):
            gate(me)
            r = real(*a, **kw)
            gate(me)
            return r

        gate(me, True)
        M.equilibrium = eq
        try:
            M.build()
            gate(me)
            M.run()
        except Exception as e:
            errors[me] = e
        finally:
            del M.equilibrium
            with cond:
                alive.discard(me)
                advance()

    th = [threading.Thread(target=work, args=(k,)) for k in range(len(models))]
    with contextlib.redirect_stdout(io.StringIO()):
        for t in th:
            t.start()
        for t in th:
            t.join()
    for e in errors.values():
        raise e


def plot(M, which):
    with contextlib.redirect_stdout(io.StringIO()):
        lab = int(M.Nodes.labels[0])
        if which == 0:
            M.plot_history(nodes=[lab, lab])
        elif which == 1:
            M.plot_path([int(x) for x in M.Nodes.labels], Y="Force Z")
        elif which == 2:
            M.plot_model(inc=-1, view="xz")
        elif which == 3:
            M.plt_nodes()
            M.plt_elements()
            M.plt_extforces()
        else:
            M.plot_history(nodes=[lab, lab], X="Increments", Y="Force X")


def check(c):
    import matplotlib.pyplot as plt

    subj = [Subject(s) for s in c["specs"]]
    memo = {}
    runs = after = 0
    touched = False
    tags = set()
    for op in c["ops"]:
        o, S = op[0], subj[op[1]]
        if o in ("run", "both"):
            pair = [S]
            if o == "run":
                out = solve(S.M)
            else:
                pair.append(subj[op[2]])
                together([T.M for T in pair], op[3])
                tags.add("two models run in turns")
                touched = True
        for S in pair if o in ("run", "both") else []:
            key = json.dumps(S.spec, sort_keys=True)
            if key not in memo:
                ok, memo[key] = PRISTINE(S.spec)
                need(ok, "a fresh model of this definition fails: %s", memo[key])
            want, wout = memo[key]
            same_snapshot(want, snapshot_like(S.M, want),
                          "model built and run after %s" % (sorted(tags) or "nothing"))
            need(o == "both" or ("ERROR" in out) == ("ERROR" in wout), "one of the models stopped")
            S.hold()
            if len(want) > 1:
                runs += 1
                after += touched
            S.ran, S.edited = True, False
            touched = True
        if o in ("run", "both"):
            pass
        elif o == "edit":
            if S.edit(*op[2:]):
                S.edited = True
                touched = True
                tags.add("edit " + op[2])
        elif o == "plot":
            if S.ran and not S.edited:
                plot(S.M, op[2])
                plt.close("all")
                tags.add("plot")
        elif o == "fail":
            failing_run(S.M, op[2])
            S.ran = False
            touched = True
            tags.add("failing run")
        elif o == "build":
            with contextlib.redirect_stdout(io.StringIO()):
                S.M.build()
            S.ran = False
            touched = True
            tags.add("build only")
        else:
            holds = S.holds
            S2 = Subject(S.spec)
            S2.holds = holds
            subj[op[1]] = S2
            tags.add("replaced by a new model")
        # results obtained earlier and arrays of the user stay as they are
        for T in subj:
            for res, rows, snap in T.holds:
                need(len(res.R) == len(rows) and all(a is b for a, b in zip(res.R, rows)),
                     "results obtained earlier lost their increments after %s", o)

                class Old:
                    Results = res

                same_snapshot(snap, snapshot(Old), "results obtained earlier, after %s" % o)
            for a, b in T.user:
                need(np.array_equal(a, b), "array passed in by the user changed from %s to %s", b, a)
    return runs >= 2 and after >= 1, sorted(tags)


def snapshot_like(M, want):
    """state variables of a model without elastic-plastic bars are not compared: the
    number of state variables is a setting that stays with the model"""
    s = snapshot(M)
    for a, b in zip(s, want):
        if b["state_v"] is None:
            a["state_v"] = None
    return s


PARTS = [Part("history", case_, check, 1000, 16000)]
