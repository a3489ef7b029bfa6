"""Editing a model behaves like editing a table keyed by label."""
import contextlib
import copy
import io

import numpy as np
from hypothesis import strategies as st

from vf import gen
from vf.build import apply_settings, make, solve, tp
from vf.common import need, same_snapshot, snapshot, tables
from vf.core import Part

RULE = (
    "table: a case counts as non-trivial if at least two deletions and two additions or "
    "assignments after a deletion happened; solve: if at least three entries were "
    "replaced or removed and the model recorded a loaded increment"
)

LABS = [list(range(1, 9)) + [15, 40, 233], list(range(0, 8)) + [10**8, 10**8 + 1],
        [10**8 + k for k in range(8)]]


@st.composite
def ops_(draw):
    """a sequence of edits, drawn next to the table so that every edit is valid"""
    t = {k: {} for k in ("nodes", "elems", "bounds", "forces")}
    seen = set()
    LAB = draw(st.sampled_from(LABS))
    comp = draw(st.sampled_from([3, 3, 6]))
    ops = []

    def vals(n, den=8):
        return [draw(st.integers(-40, 40)) / den for _ in range(n)]

    for _ in range(draw(st.integers(6, 30))):
        kind = draw(st.sampled_from(["nodes", "elems", "elems", "bounds", "forces"]))
        T = t[kind]
        todo = ["add", "add"]
        if kind in seen:
            todo.append("del")
            todo.append("del")
        if kind == "elems" and T:
            todo += ["mat", "geo", "geos", "mtype", "etype"]
        op = draw(st.sampled_from(todo))
        if op == "add":
            new = [l for l in LAB if l not in T]
            if not new:
                continue
            lab = draw(st.sampled_from(new))
            if kind == "nodes":
                v = vals(3) if draw(st.booleans()) else [float(round(x)) for x in vals(3, 1)]
            elif kind == "bounds":
                v = [draw(st.integers(0, 1)) for _ in range(3)]
            elif kind == "forces":
                if not T:
                    comp = draw(st.sampled_from([3, 6, 9]))
                v = vals(comp)
            else:
                v = {
                    "conn": [draw(st.sampled_from(LAB)), draw(st.sampled_from(LAB))],
                    "mtype": draw(st.sampled_from([1, 2])),
                    "etype": draw(st.sampled_from([1, 2])),
                    "mat": vals(draw(st.sampled_from([1, 3, 2]))),
                    "geo": vals(1),
                }
            T[lab] = v
            seen.add(kind)
            ops.append([op, kind, lab, v])
        elif op == "del":
            lab = draw(st.sampled_from((sorted(T) * 4 if T else []) + LAB))
            T.pop(lab, None)
            ops.append([op, kind, lab])
        else:
            labs = draw(st.lists(st.sampled_from(sorted(T)), min_size=1, max_size=len(T), unique=True))
            if draw(st.integers(0, 3)) == 0:
                labs = draw(st.sampled_from(["all", "own"]))
            n = len(T) if labs in ("all", "own") else len(labs)
            if op == "mat":
                v = [vals(draw(st.sampled_from([1, 2, 3]))), draw(st.sampled_from([None, 1, 2]))]
            elif op == "geo":
                v = vals(1)
            elif op == "geos":
                v = [vals(1) for _ in range(n)]
            else:
                v = draw(st.sampled_from([1, 2]))
            ops.append([op, kind, labs, v])
    # queries have no effect: look at the tables after some of the edits only
    looks = draw(st.sampled_from(["all", "some", "some"]))
    return {"ops": ops, "looks": [looks == "all" or draw(st.integers(0, 2)) == 0 for _ in ops]}


def play(M, op):
    N, H, B, F = M.Nodes, M.Elements, M.Boundaries, M.ExtForces
    o, kind = op[0], op[1]
    if o not in ("add", "del") and op[2] == "own":
        op = [o, kind, H.labels, op[3]]  # the array of labels of the table itself
    if o == "add":
        lab, v = op[2], op[3]
        if kind == "nodes":
            N.add_node(lab, tuple(v))
        elif kind == "bounds":
            B.add_bound_U(lab, tuple(v))
        elif kind == "forces":
            F.add_force(lab, tuple(v))
        else:
            H.add_element(lab, v["conn"], elem_type=v["etype"], mat_type=v["mtype"],
                          material_properties=v["mat"], geometric_properties=v["geo"])
    elif o == "del":
        {"nodes": N.del_node, "elems": H.del_element, "bounds": B.del_bound_U,
         "forces": F.del_force}[kind](op[2])
    elif o == "mat":
        H.assign_material(op[2], op[3][0], op[3][1])
    elif o == "geo":
        H.assign_geometry(op[2], op[3])
    elif o == "geos":
        H.assign_geometries(op[2], op[3])
    elif o == "mtype":
        H.assign_mtype(op[2], op[3])
    else:
        H.assign_etype(op[2], op[3])


def model_play(t, op):
    o, T = op[0], t[op[1]]
    if o == "add":
        T[op[2]] = copy.deepcopy(op[3])
    elif o == "del":
        T.pop(op[2], None)
    else:
        labs = list(T) if op[2] in ("all", "own") else op[2]
        for k, l in enumerate(labs):
            e = T[l]
            if o == "mat":
                e["mat"] = list(op[3][0])
                if op[3][1] is not None:
                    e["mtype"] = op[3][1]
            elif o == "geo":
                e["geo"] = list(op[3])
            elif o == "geos":
                e["geo"] = list(op[3][k])
            else:
                e[o] = op[3]


def padded(a, b):
    """own values, the rest of the row zeros"""
    return list(a[:len(b)]) == list(b) and not any(a[len(b):])


def compare(M, t, i, op):
    g = tables(M)
    where = "after edit %d (%s %s)" % (i + 1, op[0], op[1])
    for k in t:
        need(g["count"][k] == len(t[k]) and set(g[k]) == set(t[k]),
             "%s: labels of %s are %s, not %s", where, k, sorted(g[k]), sorted(t[k]))
    for k in ("nodes", "bounds", "forces"):
        for l, v in t[k].items():
            need(g[k][l] == [float(x) for x in v], "%s: %s %s is %s, not %s", where, k, l, g[k][l], v)
    H = M.Elements
    need(list(g["elems"]) == list(t["elems"]), "%s: order of elements %s, not %s", where, list(g["elems"]), list(t["elems"]))
    for l, e in t["elems"].items():
        x = g["elems"][l]
        need(x["conn"] == e["conn"] and x["mtype"] == e["mtype"] and x["etype"] == e["etype"]
             and padded(x["mat"], e["mat"]) and padded(x["geo"], e["geo"]),
             "%s: element %s is %s, not %s", where, l, x, e)
        q = {
            "NA": int(H.NA(l)), "NE": int(H.NE(l)), "nodes": [int(v) for v in H.get_nodes(l)],
            "mtype": int(H.get_material_type(l)), "etype": int(H.get_element_type(l)),
            "mat": padded([float(v) for v in H.get_material_properties(l)], e["mat"]),
            "geo": padded([float(v) for v in H.get_geometric_properties(l)], e["geo"]),
        }
        want = {"NA": e["conn"][0], "NE": e["conn"][1], "nodes": e["conn"], "mtype": e["mtype"],
                "etype": e["etype"], "mat": True, "geo": True}
        need(q == want, "%s: query of element %s gives %s, not %s", where, l, q, want)


def check_ops(c):
    with contextlib.redirect_stdout(io.StringIO()):
        M = tp.Model(log=0)
    t = {k: {} for k in ("nodes", "elems", "bounds", "forces")}
    dels = after = 0
    tags = set()
    for i, op in enumerate(c["ops"]):
        held = len(t[op[1]])
        play(M, op)
        model_play(t, op)
        if c["looks"][i] or i + 1 == len(c["ops"]):
            compare(M, t, i, op)
        if op[0] == "del":
            if len(t[op[1]]) < held:
                dels += 1
                if not t[op[1]]:
                    tags.add("emptied")
            else:
                tags.add("deleted unknown label")
        elif dels:
            after += 1
        tags.add("op:%s %s" % (op[0], op[1]))
    if not all(c["looks"]):
        tags.add("queried after some edits only")
    return dels >= 2 and after >= 2, sorted(tags)


# -- an edited model solves like one defined directly ------------------------


@st.composite
def solve_case(draw):
    spec = draw(gen.truss_spec(incs=(1, 3), max_free=2, max_steps=2, sett_calm=True))
    nl = {n[0] for n in spec["nodes"]}
    el = {e["label"] for e in spec["elems"]}
    seqs = []

    def val(n):
        return [draw(st.integers(-24, 24)) / 8 for _ in range(n)]

    def junk(kind, like, lab):
        if kind == "nodes":
            return val(3)
        if kind == "bounds":
            return [draw(st.integers(0, 1)) for _ in range(3)]
        if kind == "forces":
            return val(len(like))
        return {"conn": [draw(st.sampled_from(sorted(nl))) for _ in range(2)],
                "mtype": draw(st.sampled_from([1, 2])), "etype": 1,
                "mat": val(len(like["mat"])), "geo": val(1)}

    def entry(kind, lab, v):
        how = draw(st.sampled_from(["direct", "direct", "replace", "twice", "assign"]))
        if how == "assign" and kind != "elems":
            how = "replace"
        s = []
        if how in ("replace", "twice"):
            for _ in range(1 if how == "replace" else 2):
                s += [["add", kind, lab, junk(kind, v, lab)], ["del", kind, lab]]
        if how == "assign":
            w = junk(kind, v, lab)
            w["conn"] = v["conn"]
            s += [["add", kind, lab, w]]
            s += [["mat", kind, [lab], [v["mat"], v["mtype"]]], ["geo", kind, [lab], v["geo"]]]
        else:
            s += [["add", kind, lab, v]]
        seqs.append(s)
        return how

    hows = []
    for n in spec["nodes"]:
        hows.append(entry("nodes", n[0], n[1:]))
    for e in spec["elems"]:
        hows.append(entry("elems", e["label"], {"conn": list(e["conn"]), "mtype": e["mtype"],
                                                "etype": 1, "mat": e["mat"], "geo": [e["area"]]}))
    for l, v in spec["bounds"]:
        hows.append(entry("bounds", l, v))
    for l, v in spec["forces"]:
        hows.append(entry("forces", l, v))
    # entries that are gone at the end
    for _ in range(draw(st.integers(0, 3))):
        kind = draw(st.sampled_from(["nodes", "elems", "bounds", "forces"]))
        used = {"nodes": nl, "elems": el}.get(kind)
        if used is None:
            # bounds/forces of nodes that have none at the end, or of other nodes
            used = {x[0] for x in spec[kind]}
        free = [l for l in list(range(1, 12)) + [333, 800] if l not in used]
        lab = draw(st.sampled_from(free))
        if any(s[0][1] == kind and s[0][2] == lab for s in seqs):
            continue
        like = {"nodes": None, "bounds": None, "forces": spec["forces"][0][1],
                "elems": spec["elems"][0]}[kind]
        seqs.append([["add", kind, lab, junk(kind, like, lab)], ["del", kind, lab]])
        hows.append("gone")
    slots = [k for k, s in enumerate(seqs) for _ in s]
    slots = list(draw(st.permutations(slots)))
    pos = [0] * len(seqs)
    ops = []
    for k in slots:
        ops.append(seqs[k][pos[k]])
        pos[k] += 1
    return {"spec": spec, "ops": ops, "hows": hows}


def check_solve(c):
    spec = c["spec"]
    with contextlib.redirect_stdout(io.StringIO()):
        M = tp.Model(log=0)
    t = {k: {} for k in ("nodes", "elems", "bounds", "forces")}
    for op in c["ops"]:
        play(M, op)
        model_play(t, op)
    apply_settings(M, spec["settings"])
    direct = dict(spec)
    direct["nodes"] = [[l] + list(v) for l, v in t["nodes"].items()]
    direct["elems"] = [{"label": l, "conn": e["conn"], "mat": e["mat"], "mtype": e["mtype"],
                        "area": e["geo"][0]} for l, e in t["elems"].items()]
    direct["bounds"] = [[l, v] for l, v in t["bounds"].items()]
    direct["forces"] = [[l, v] for l, v in t["forces"].items()]
    D = make(direct)
    outD, out = solve(D), solve(M)
    same_snapshot(snapshot(D), snapshot(M), "edited model")
    need(("ERROR" in outD) == ("ERROR" in out), "one of the models stopped")
    ch = [h for h in c["hows"] if h != "direct"]
    return len(ch) >= 3 and len(D.Results.R) > 1, ["how:" + h for h in sorted(set(c["hows"]))]


PARTS = [
    Part("table", ops_, check_ops, 1600, 40000),
    Part("solve", solve_case, check_solve, 600, 10000),
]
