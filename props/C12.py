"""Equivalent ways to define a model give the same model."""
import contextlib
import io

import numpy as np
from hypothesis import strategies as st

from vf import gen
from vf.build import apply_settings, make, solve, tp
from vf.common import need, same_snapshot, snapshot, tables
from vf.core import Part

RULE = (
    "a case counts as non-trivial if at least three different ways of definition were "
    "mixed and the model recorded at least one loaded increment"
)
BOX = ["tuple", "list", "array", "buffer"]
HOW = ["raw", "object", "list", "keyword"]


@st.composite
def style(draw, n):
    """how each of n entries is given"""
    one = draw(st.sampled_from(["mixed", "same"]))
    pick = lambda: [draw(st.sampled_from(HOW)), draw(st.sampled_from(BOX)),  # noqa: E731
                    draw(st.booleans()), draw(st.sampled_from([0, 0, 1, 2, 3]))]
    if one == "same":
        return [pick()] * n
    return [pick() for _ in range(n)]


@st.composite
def case_(draw):
    spec = draw(gen.truss_spec(incs=(1, 3), max_free=3, max_steps=2, sett_calm=True))
    E = spec["elems"]
    for n in spec["nodes"]:  # whole numbers are given as integers in some styles
        if draw(st.booleans()):
            n[1:] = [float(round(x)) for x in n[1:]]
    if draw(st.integers(0, 2)) == 0:
        for e in E[1:]:
            e["mat"], e["mtype"] = list(E[0]["mat"]), E[0]["mtype"]
    if draw(st.integers(0, 2)) == 0:
        for e in E[1:]:
            e["area"] = E[0]["area"]
    c = {"spec": spec}
    c["nodes"] = draw(style(len(spec["nodes"])))
    c["elems"] = draw(style(len(E)))
    c["bounds"] = draw(style(len(spec["bounds"])))
    c["forces"] = draw(style(len(spec["forces"])))
    c["mat"] = draw(st.sampled_from(["create", "create-short", "later", "later-short", "overwrite", "overwrite-short"]))
    c["geo"] = draw(st.sampled_from(["create", "later", "overwrite"]))
    c["mtype"] = draw(st.sampled_from(["create", "with", "later", "default"]))
    c["etype"] = draw(st.sampled_from(["default", "create", "later", "all"]))
    c["group"] = draw(st.sampled_from(["group", "one", "list"]))
    c["ggroup"] = draw(st.sampled_from(["group", "one", "geometries", "geometries-all"]))
    c["box"] = draw(st.sampled_from(["list", "tuple", "array"]))
    c["order"] = list(draw(st.permutations(range(len(E)))))
    c["extra"] = draw(st.booleans())  # undefined entries written out
    return c


class Box:
    """puts values into the container asked for; "buffer" reuses one array"""

    def __init__(self):
        self.buf = {}

    def __call__(self, v, box, ints, arg=0):
        v = [int(x) if ints and float(x) == int(x) else x for x in v]
        if box == "tuple":
            return tuple(v)
        if box == "list":
            return list(v)
        if box == "array":
            return np.array(v)
        k = (arg, len(v), all(isinstance(x, int) for x in v))
        b = self.buf.setdefault(k, np.array(v))
        b[...] = v
        return b


def add(entries, styles, cls, one, many, names):
    """entries: [label, values..]; cls(label, *values) makes an object"""
    box = Box()
    pending = []

    def flush():
        if pending:
            many(list(pending))
            pending.clear()

    for e, (how, cont, ints, npint) in zip(entries, styles):
        lab = [int, np.int64, np.int32, np.uint16][npint if e[0] < 2**15 else min(npint, 1)](e[0])
        vals = [box(v, cont, ints) if isinstance(v, list) else v for v in e[1]]
        if how in ("object", "list") and cont == "buffer":
            cont = "array"  # an element keeps the property list it was given
        kw = e[2] if len(e) > 2 else {}
        kw = {k: (box(v, cont, ints, k) if isinstance(v, list) else v) for k, v in kw.items()}
        if how == "list":
            pending.append(cls(lab, *vals, **kw))
            continue
        flush()
        if how == "raw":
            one(lab, *vals, **kw)
        elif how == "keyword":
            one(lab, **dict(zip(names, vals)), **kw)
        else:
            one(cls(lab, *vals, **kw))
    flush()


def groups(items):
    g = {}
    for lab, v in items:
        g.setdefault(repr(v), (v, []))[1].append(lab)
    return list(g.values())


def restyled(c):
    spec = c["spec"]
    with contextlib.redirect_stdout(io.StringIO()):
        M = tp.Model(log=0)
    extra_b, extra_f = [], []
    if c["extra"]:
        nb = {b[0] for b in spec["bounds"]}
        nf = {f[0] for f in spec["forces"]}
        comp = len(spec["forces"][0][1])
        extra_b = [[n[0], [1, 1, 1]] for n in spec["nodes"] if n[0] not in nb]
        extra_f = [[n[0], [0.0] * comp] for n in spec["nodes"] if n[0] not in nf]
    add([[n[0], [n[1:]]] for n in spec["nodes"]], c["nodes"], tp.Node,
        M.Nodes.add_node, M.Nodes.add_nodes, ["coord"])
    E = spec["elems"]
    ent = []
    for k, e in enumerate(E):
        kw = {}
        long = c["elems"][k][2]
        if c["mat"] in ("create", "create-short", "overwrite", "overwrite-short"):
            v = e["mat"] if c["mat"][:4] != "over" else [7.0] * len(e["mat"])
            if c["mat"] == "create-short" and e["mtype"] == 1:
                v = v[:1]
            kw["material_properties" if long else "mprop"] = v
        if c["geo"] in ("create", "overwrite"):
            kw["geometric_properties" if long else "gprop"] = (
                [e["area"]] if c["geo"] == "create" else [9])
        if c["mtype"] == "create" or c["mtype"] == "default" and e["mtype"] != 1:
            kw["mat_type"] = e["mtype"]  # a bar is linear-elastic unless told otherwise
        if c["etype"] == "create":
            kw["elem_type"] = 1
        elif c["etype"] == "later":
            kw["elem_type"] = 3
        ent.append([e["label"], [list(e["conn"])], kw])
    add(ent, c["elems"], tp.Element, M.Elements.add_element, M.Elements.add_elements, ["conn"])
    add([[b[0], [b[1]]] for b in spec["bounds"] + extra_b], c["bounds"] + [["raw", "tuple", True, False]] * len(extra_b),
        tp.BoundaryU, M.Boundaries.add_bound_U, M.Boundaries.add_bounds_U, ["values"])
    add([[f[0], [f[1]]] for f in spec["forces"] + extra_f], c["forces"] + [["raw", "tuple", True, False]] * len(extra_f),
        tp.ExternalForce, M.ExtForces.add_force, M.ExtForces.add_forces, ["force"])
    # assigned afterwards
    EE = [E[k] for k in c["order"]]
    H = M.Elements
    lab = [e["label"] for e in EE]
    box = {"list": list, "tuple": tuple, "array": np.array}[c["box"]]
    typed = c["mtype"] in ("create", "default")
    if c["mat"] not in ("create", "create-short"):
        def mat(e):
            return e["mat"] if c["mat"][-5:] != "short" or e["mtype"] == 2 else e["mat"][:1]

        with_type = c["mtype"] == "with"
        items = [(e["label"], (mat(e), e["mtype"])) for e in EE]
        if c["group"] == "one":
            gs = [(v, [l]) for l, v in items]
        else:
            gs = groups(items)
        for (v, mt), ls in gs:
            a = "all" if c["group"] == "group" and len(ls) == len(E) else (
                tuple(ls) if c["group"] == "list" else box(ls))
            if with_type:
                H.assign_material(a, v, mt)
            else:
                H.assign_material(a, tuple(v))
        typed = typed or with_type
    if not typed:
        for v, ls in groups([(e["label"], e["mtype"]) for e in EE]):
            if c["group"] == "one":
                for l in ls:
                    H.assign_mtype([l], v)
            else:
                H.assign_mtype("all" if len(ls) == len(E) and c["box"] != "array" else box(ls), v)
    if c["geo"] != "create":
        if c["ggroup"] == "geometries":
            ar = [[e["area"]] for e in EE]
            H.assign_geometries(box(lab), ar)
        elif c["ggroup"] == "geometries-all":
            # "all" means all elements in the order of their definition
            H.assign_geometries("all", [[e["area"]] for e in E])
        elif c["ggroup"] == "one":
            for e in EE:
                H.assign_geometry([e["label"]], [e["area"]])
        else:
            for v, ls in groups([(e["label"], e["area"]) for e in EE]):
                H.assign_geometry("all" if len(ls) == len(E) and c["box"] != "array" else box(ls), [v])
    if c["etype"] == "later":
        for l in lab:
            H.assign_etype([l], 1)
    elif c["etype"] == "all":
        H.assign_etype("all", 1)
    apply_settings(M, spec["settings"])
    return M


def check(c):
    spec = c["spec"]
    A = make(spec)
    outA = solve(A)
    B = restyled(c)
    E = spec["elems"]
    t = tables(B)
    need(list(t["nodes"]) == [n[0] for n in spec["nodes"]], "nodes defined: %s", list(t["nodes"]))
    for n in spec["nodes"]:
        need(t["nodes"][n[0]] == [float(x) for x in n[1:]], "node %s: coordinates %s, not %s", n[0], t["nodes"][n[0]], n[1:])
    need(list(t["elems"]) == [e["label"] for e in E], "elements defined: %s", list(t["elems"]))
    for e in E:
        g = t["elems"][e["label"]]
        k = 1 if c["mat"].endswith("-short") and e["mtype"] == 1 else len(e["mat"])
        need(g["conn"] == list(e["conn"]) and g["mtype"] == e["mtype"] and g["etype"] == 1
             and g["mat"] == (e["mat"][:k] + [0.0] * 3)[: len(g["mat"])] and len(g["mat"]) >= k
             and g["geo"] == [e["area"]],
             "element %s is %s, not %s", e["label"], g, e)
    outB = solve(B)
    same_snapshot(snapshot(A), snapshot(B), "differently defined model")
    need(("ERROR" in outA) == ("ERROR" in outB), "one of the models stopped")
    ta, tb = tables(A), tables(B)
    for k in ("nodes", "bounds", "forces", "count"):
        need(ta[k] == tb[k] and list(ta[k]) == list(tb[k]), "model data differ: %s", k)
    ways = {s[0] for k in ("nodes", "elems", "bounds", "forces") for s in c[k]}
    ways |= {s[1] for k in ("nodes", "elems", "bounds", "forces") for s in c[k]}
    tags = ["mat:" + c["mat"], "geo:" + c["geo"], "mtype:" + c["mtype"], "etype:" + c["etype"],
            "group:" + c["group"], "kind:" + spec["kind"]]
    return len(ways) >= 3 and len(A.Results.R) > 1, tags


PARTS = [Part("styles", case_, check, 1200, 24000)]
