"""Inconsistent models are refused, and can be corrected and solved."""
import contextlib
import copy
import io

import numpy as np
from hypothesis import strategies as st

from vf import gen
from vf.build import apply_settings, make, solve, tp
from vf.common import need, sett, snapshot, same_snapshot, tables
from vf.core import Inconclusive, Part, Violation

RULE = (
    "a case counts as non-trivial if the consistent model recorded a loaded increment, "
    "the model with the contradiction was refused and the corrected model was compared "
    "with a fresh one"
)
ASSUMPTIONS = [
    "contradictions are those that leave no meaning to the model: labels that do not "
    "exist or exist twice, entries of a wrong size, missing properties, unknown types, "
    "bars without length or nothing to solve"
]

# by the part of the definition they are in
FORCES = ["force_undef", "force_twice", "force_size", "force_swap"]
BOUNDS = ["bound_undef", "bound_twice", "bound_size", "all_locked"]
ELEMS = ["bar_undef", "bar_twice", "mtype", "mtype", "no_material", "no_area", "no_length",
         "bar_size", "both_names", "few_props"]
NODES = ["node_twice", "node_all_twice", "node_swap", "node_size", "coincident"]
SETT = ["steps", "incs", "xlimit", "j0"]
GROUPS = [FORCES, BOUNDS, ELEMS, NODES, SETT]
ADDED = ["force_undef", "force_twice", "bound_undef", "bound_twice", "bar_undef", "bar_twice",
         "node_twice", "node_all_twice", "node_swap", "no_length", "no_area", "no_material"]
SHAPED = ["bounds2", "bounds4", "coords2", "conn3", "conn1", "forces2"]


@st.composite
def case_(draw):
    spec = draw(gen.truss_spec(incs=(1, 3), max_free=2, max_steps=3, sett_calm=True))
    off = draw(st.sampled_from([0, 0, 0, 100, 10**6, 10**9]))
    for n in spec["nodes"]:
        n[0] += off
    for e in spec["elems"]:
        e["conn"] = [x + off for x in e["conn"]]
        e["label"] += off
    for t in ("bounds", "forces"):
        for x in spec[t]:
            x[0] += off
    flaws = []
    groups = draw(st.lists(st.sampled_from(range(5)), min_size=1, max_size=2, unique=True))
    for g in groups:
        flaws.append([draw(st.sampled_from(GROUPS[g])), draw(st.integers(0, 60)), draw(st.integers(0, 60))])
    return {
        "spec": spec,
        "flaws": flaws,
        "before": draw(st.sampled_from(["", "", "run", "build"])),
        "again": draw(st.booleans()),
        "last_first": draw(st.booleans()),
        "log": draw(st.sampled_from([0, 0, 0, 1, 2])),
    }


@st.composite
def define_(draw):
    spec = draw(gen.truss_spec(incs=(1, 3), max_free=2, max_steps=3, sett_calm=True))
    return {"spec": spec, "flaw": draw(st.sampled_from(ADDED + SHAPED)),
            "a": draw(st.integers(0, 60)), "b": draw(st.integers(0, 60))}


class Flaw:
    """one contradiction put into a live model and taken out of it again"""

    def __init__(self, M, spec, kind, a, b):
        self.M, self.s, self.kind, self.a, self.b = M, spec, kind, a, b
        self.todo = []  # what corrects it
        self.there = False
        self.partial = False  # earlier steps are solved before the contradiction
        self.tags = []

    def unknown(self):
        """a label no node has: close to one that exists, or far from all"""
        have = [n[0] for n in self.s["nodes"]]
        u = have[self.a % len(have)] + [1, 2, 1000, 5 * 10**9][self.b % 4]
        used = self.M.__dict__.setdefault("_vf_used", set())  # one for each contradiction
        while u in have or u in used:
            u += 1
        used.add(u)
        return u

    def claim(self, *entries):
        """two contradictions do not edit the same entry"""
        used = self.M.__dict__.setdefault("_vf_claimed", set())
        if used & set(entries):
            return False
        used.update(entries)
        return True

    def free_node(self):
        """a node that can move"""
        lock = {l: b for l, b in self.s["bounds"]}
        ends = {x for e in self.s["elems"] for x in e["conn"]}
        free = [n[0] for n in self.s["nodes"] if sum(lock.get(n[0], [1])) and n[0] in ends]
        return free[self.a % len(free)]

    def new_bar(self):
        return max(e["label"] for e in self.s["elems"]) + 1 + self.b % 3

    def refused(self, add, *args, **kw):
        """add an entry of a wrong size: the table does not take it (or the model is
        refused later)"""
        before = tables(self.M)
        try:
            add(*args, **kw)
        except (Violation, Inconclusive):
            raise
        except Exception:
            now = tables(self.M)
            for t in ("nodes", "elems"):
                need(repr(now[t]) == repr(before[t]) and now["count"][t] == before["count"][t],
                     "%s: a refused entry changed the %s", self.kind, t)
            for t in ("bounds", "forces"):
                # what a build filled in for nodes without an entry is not kept
                mine = {x[0] for x in self.s[t]}
                need(now["count"][t] <= before["count"][t]
                     and all(repr(before[t].get(l)) == repr(v) for l, v in now[t].items())
                     and all(l in now[t] for l in before[t] if l in mine),
                     "%s: a refused entry changed the %s", self.kind, t)
            self.tags.append("refused entry")
            return False
        return True

    def put(self):
        M, s, a, b = self.M, self.s, self.a, self.b
        N, H, B, F = M.Nodes, M.Elements, M.Boundaries, M.ExtForces
        k = self.kind
        cols = len(s["forces"][0][1]) if s["forces"] else 3
        force = [1.0 + a / 8, -2.0, b / 4] * (cols // 3)
        props = dict(material_properties=[1.0] * len(s["elems"][0]["mat"]),
                     geometric_properties=[1.0])
        self.there = True
        if k == "force_undef":
            u = self.unknown()
            F.add_force(u, force)
            self.todo = [lambda: F.del_force(u)]
        elif k == "force_twice":
            if not s["forces"]:
                return self.gone()
            l, v = s["forces"][a % len(s["forces"])]
            if not self.claim(("F", l)):
                return self.gone()
            F.add_force(l, v if b % 2 else force)
            self.todo = [lambda: F.del_force(l), lambda: F.add_force(l, v)]
        elif k == "force_swap":
            # as many entries as before: one of them at a node that does not exist
            if not s["forces"]:
                return self.gone()
            u = self.unknown()
            l, v = s["forces"][a % len(s["forces"])]
            if not self.claim(("F", l)):
                return self.gone()
            F.del_force(l)
            F.add_force(u, v)
            self.todo = [lambda: F.del_force(u), lambda: F.add_force(l, v)]
        elif k == "force_size":
            if not s["forces"]:
                return self.gone()
            have = {f[0] for f in s["forces"]}
            l = ([n[0] for n in s["nodes"] if n[0] not in have] + [self.unknown()])[0]
            n = [cols + 3, cols + 1, cols - 1, cols - 2][b % 4]
            if not self.claim(("F", l)):
                return self.gone()
            if not self.refused(F.add_force, l, [1.0] * n):
                return self.gone()
            self.todo = [lambda: F.del_force(l)]
        elif k == "bound_undef":
            u = self.unknown()
            B.add_bound_U(u, [(0, 0, 0), (1, 1, 1), (0, 1, 0)][b % 3])
            self.todo = [lambda: B.del_bound_U(u)]
        elif k == "bound_twice":
            l, v = s["bounds"][a % len(s["bounds"])]
            if not self.claim(("B", l)):
                return self.gone()
            B.add_bound_U(l, [tuple(v), (1, 1, 1), (0, 0, 0)][b % 3])
            self.todo = [lambda: B.del_bound_U(l), lambda: B.add_bound_U(l, tuple(v))]
        elif k == "bound_size":
            l = self.unknown()
            if not self.refused(B.add_bound_U, l, [(0, 0), (0, 0, 0, 0), (0, 1, 0, 1, 1)][b % 3]):
                return self.gone()
            self.todo = [lambda: B.del_bound_U(l)]
        elif k == "all_locked":
            old = [list(x) for x in s["bounds"]]
            if not self.claim(*[("B", n[0]) for n in s["nodes"]]):
                return self.gone()
            for l, _ in old:
                B.del_bound_U(l)
            for n in s["nodes"]:
                B.add_bound_U(n[0], (0, 0, 0))

            def unlock():
                for n in s["nodes"]:
                    B.del_bound_U(n[0])
                for l, v in old:
                    B.add_bound_U(l, tuple(v))

            self.todo = [unlock]
        elif k == "bar_undef":
            u, l, q = self.unknown(), s["nodes"][a % len(s["nodes"])][0], self.new_bar()
            H.add_element(q, [[u, l], [l, u], [u, u]][b % 3], **props)
            self.todo = [lambda: H.del_element(q)]
        elif k == "bar_twice":
            e = s["elems"][a % len(s["elems"])]
            o = s["elems"][b % len(s["elems"])]
            q = e["label"]
            H.add_element(q, o["conn"], mat_type=o["mtype"], material_properties=o["mat"],
                          geometric_properties=[o["area"]])
            self.todo = [lambda: H.del_element(q), lambda: self.bar(e)]
            s["elems"].remove(e)
            s["elems"].append(e)
        elif k == "mtype":
            labs = [e["label"] for e in s["elems"]]
            sub = [labs, labs[-1:], labs[:1], [labs[a % len(labs)]]][a % 4]
            M.Elements.assign_mtype(sub, [3, 0, -1, 12][b % 4])

            def back():
                for e in s["elems"]:
                    M.Elements.assign_mtype([e["label"]], e["mtype"])

            self.todo = [back]
        elif k in ("no_material", "no_area", "no_length"):
            q, l = self.new_bar(), self.free_node()
            other = [n[0] for n in s["nodes"] if n[0] != l]
            o = l if k == "no_length" else other[b % len(other)]
            if k != "no_length":
                del props["material_properties" if k == "no_material" else "geometric_properties"]
            H.add_element(q, [l, o] if b % 2 else [o, l], **props)
            self.todo = [lambda: H.del_element(q)]
        elif k == "bar_size":
            q, l, o = self.new_bar(), s["nodes"][0][0], s["nodes"][-1][0]
            if not self.refused(H.add_element, q, [[l], [l, o, l]][b % 2], **props):
                return self.gone()
            self.todo = [lambda: H.del_element(q)]
        elif k == "both_names":
            q, l, o = self.new_bar(), s["nodes"][0][0], s["nodes"][-1][0]
            if b % 2:
                props["mprop"] = [2.0]
            else:
                props["gprop"] = [2.0]
            if not self.refused(H.add_element, q, [l, o], **props):
                return self.gone()
            raise Violation("two different %s of a bar were accepted"
                            % ("materials" if b % 2 else "geometries"))
        elif k == "few_props":
            if any(len(e["mat"]) > 1 for e in s["elems"]):
                return self.gone()
            e = s["elems"][a % len(s["elems"])]
            H.assign_mtype([e["label"]], 2)
            if b % 2:
                H.assign_material("all", [1.0, 0.1])
            self.todo = [lambda: [self.drop(), [self.bar(x) for x in s["elems"]]]]
        elif k in ("node_twice", "node_all_twice", "node_swap"):
            n = s["nodes"][a % len(s["nodes"])]
            o = s["nodes"][b % len(s["nodes"])]
            l = n[0]
            if k == "node_all_twice" and not self.claim(("F", l), ("B", l)):
                return self.gone()
            N.add_node(l, tuple(o[1:]))
            self.todo = [lambda: N.del_node(l), lambda: N.add_node(l, tuple(n[1:]))]
            if k == "node_swap":  # as many entries as nodes in all tables
                u = self.unknown()
                B.add_bound_U(u, (0, 0, 0))
                F.add_force(u, force)
                self.todo += [lambda: B.del_bound_U(u), lambda: F.del_force(u)]
            if k == "node_all_twice":
                f = [v for q, v in s["forces"] if q == l]
                v = [v for q, v in s["bounds"] if q == l]
                B.add_bound_U(l, tuple(v[0]) if v else (1, 1, 1))
                F.add_force(l, f[0] if f else force)
                if not v:
                    B.add_bound_U(l, (1, 1, 1))
                if not f:
                    F.add_force(l, force)
                self.todo += [lambda: B.del_bound_U(l), lambda: F.del_force(l)]
                if v:
                    self.todo.append(lambda: B.add_bound_U(l, tuple(v[0])))
                if f:
                    self.todo.append(lambda: F.add_force(l, f[0]))
        elif k == "node_size":
            l = self.unknown()
            if not self.refused(N.add_node, l, [(1.0, 2.0), (1.0, 2.0, 3.0, 4.0)][b % 2]):
                return self.gone()
            self.todo = [lambda: N.del_node(l)]
        elif k == "coincident":
            l = self.free_node()
            e = [e for e in s["elems"] if l in e["conn"]]
            e = e[b % len(e)]
            o = [x for x in e["conn"] if x != l][0]
            X = {n[0]: n[1:] for n in s["nodes"]}
            N.del_node(l)
            N.add_node(l, tuple(X[o]))
            self.todo = [lambda: N.del_node(l), lambda: N.add_node(l, tuple(X[l]))]
        elif k == "steps":
            ns = sett(s, "nsteps")
            M.Settings.nsteps = cols // 3 + 1 + b % 2
            self.partial = True
            old = {x: s["settings"][x] for x in ("incs", "xlimit") if x in s["settings"]}
            if isinstance(M.Settings.incs, tuple):
                M.Settings.incs = M.Settings.incs + (2, 2)
            if isinstance(M.Settings.xlimit, tuple) and isinstance(M.Settings.xlimit[0], tuple):
                M.Settings.xlimit = M.Settings.xlimit + ((100.0, 100.0),) * 2
            self.todo = [lambda: apply_settings(M, {"nsteps": ns, **old})]
        elif k in ("incs", "xlimit"):
            ns = sett(s, "nsteps")
            if ns < 2:
                return self.gone()
            old = getattr(M.Settings, k)
            one = (2,) if k == "incs" else ((100.0, 100.0),)
            setattr(M.Settings, k, one * (1 + b % (ns - 1)))
            self.partial = True
            self.todo = [lambda: setattr(M.Settings, k, old)]
        elif k == "j0":
            old = M.Settings.j0
            lock = {l: v for l, v in s["bounds"]}
            free = sum(sum(lock.get(n[0], [1, 1, 1])) for n in s["nodes"])
            M.Settings.j0 = (free + 2 + a % 3) * (1 if b % 2 else -1)
            self.todo = [lambda: setattr(M.Settings, "j0", old)]
        else:
            raise AssertionError(k)
        return True

    def bar(self, e):
        self.M.Elements.add_element(
            e["label"], e["conn"], mat_type=e["mtype"], material_properties=list(e["mat"]),
            geometric_properties=[e["area"]])

    def drop(self):
        for e in self.s["elems"]:
            self.M.Elements.del_element(e["label"])

    def gone(self):
        self.there = False
        return False

    def correct(self):
        for f in self.todo:
            f()
        self.there = False


def refuse(M, flaws, what):
    """building and running does not give results"""
    out = ""
    try:
        out = solve(M)
    except (Violation, Inconclusive):
        raise
    except Exception as e:
        how = type(e).__name__
    else:
        how = "notice"
        need("ERROR" in out, "%s: the model was solved", what)
    res = getattr(M, "Results", None)
    if res is not None and not (flaws[0].partial and how != "notice"):
        for x in res.R:
            need(float(x.lpf) == 0 and not np.any(np.asarray(x.U)),
                 "%s: refused (%s), but increments were recorded", what, how)
        if how == "notice":
            need(len(res.R) == 1, "%s: %d increments were recorded", what, len(res.R) - 1)
    return how


def check(c):
    spec = c["spec"]
    with contextlib.redirect_stdout(io.StringIO()):
        M = make(spec, log=c["log"])
    if c["before"] == "run":
        solve(M)
    elif c["before"] == "build":
        with contextlib.redirect_stdout(io.StringIO()):
            M.build()
    clean = copy.deepcopy(spec)
    tags = ["before: " + (c["before"] or "nothing")]
    flaws = []
    for kind, a, b in c["flaws"]:
        f = Flaw(M, clean, kind, a, b)
        if f.put():
            flaws.append(f)
            tags.append("flaw: " + kind)
        for t in f.tags:
            tags.append(t + ": " + kind)
    refused = len(flaws) + sum(len(f.tags) for f in flaws)
    if len(flaws) > 1:
        tags.append("two contradictions")
    while flaws:
        what = " and ".join(f.kind for f in flaws)
        # a contradiction of the whole model comes first
        order = sorted(flaws, key=lambda f: f.partial)
        tags.append("by " + refuse(M, order, what))
        if c["again"]:
            refuse(M, order, what + ", second attempt")
        flaws.pop(-1 if c["last_first"] else 0).correct()
    F = make(clean)
    solve(F)
    want = snapshot(F)
    solve(M)
    got = snapshot(M)
    for x, y in zip(got, want):
        if y["state_v"] is None:
            x["state_v"] = None
    same_snapshot(want, got, "model after correcting %s" % [k for k, a, b in c["flaws"]])
    return refused > 0 and len(want) > 1, tags


def define(c):
    """the contradiction is there from the beginning, before the other entries"""
    spec = copy.deepcopy(c["spec"])
    k, a, b = c["flaw"], c["a"], c["b"]
    first = []
    s = spec
    if k in SHAPED:
        cut = {"2": lambda v: v[:2], "4": lambda v: v + [1], "3": lambda v: v + v[:1],
               "1": lambda v: v[:1]}[k[-1]]
        t = k[:-1]
        if t == "bounds":
            have = {l for l, _ in s["bounds"]}
            s["bounds"] += [[n[0], [1, 1, 1]] for n in s["nodes"] if n[0] not in have]
            rows, at = s["bounds"], lambda r, v: r.__setitem__(1, v)
            val = lambda r: r[1]
        elif t == "forces":
            if not s["forces"]:
                return False, ["nothing to do"]
            rows, at = s["forces"], lambda r, v: r.__setitem__(1, v)
            val = lambda r: r[1]
        elif t == "coords":
            rows, at = s["nodes"], lambda r, v: r.__setitem__(slice(1, 4), v)
            val = lambda r: list(r[1:4])
        else:
            rows, at = s["elems"], lambda r, v: r.__setitem__("conn", v)
            val = lambda r: list(r["conn"])
        n = [len(rows), len(rows), 1, max(1, len(rows) - 1)][b % 4]
        if t == "forces":
            # one component missing at the end: the last step has no direction
            cut = lambda v: list(v[: len(v) - 1 - a % 2])
        for r in rows[:n]:
            at(r, cut(val(r)))
        tags = ["%s: %s entries" % (k, "all" if n == len(rows) else "some")]
    else:
        tags = []
    M = None
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            M = tp.Model(log=0)
        if k not in SHAPED:
            f = Flaw(M, copy.deepcopy(spec), k, a, b)
            if not f.put():
                return False, ["nothing to do"]
        fill(M, spec)
    except (Violation, Inconclusive):
        raise
    except Exception as e:
        tags.append("refused by definition")
    else:
        class whole:
            partial = k == "forces2"

        tags.append("by " + refuse(M, [whole], k))
    F = make(c["spec"])
    solve(F)
    return len(F.Results.R) > 1, tags + ["first: " + k]


def fill(M, spec):
    for n in spec["nodes"]:
        M.Nodes.add_node(n[0], tuple(n[1:]))
    for e in spec["elems"]:
        M.Elements.add_element(e["label"], e["conn"], mat_type=e["mtype"],
                               material_properties=list(e["mat"]), geometric_properties=[e["area"]])
    for lab, b in spec["bounds"]:
        M.Boundaries.add_bound_U(lab, tuple(b))
    for lab, f in spec["forces"]:
        M.ExtForces.add_force(lab, tuple(f))
    apply_settings(M, spec["settings"])


PARTS = [
    Part("correct", case_, check, 1600, 30000),
    Part("define", define_, define, 600, 10000),
]
