"""Results do not depend on labels, definition order or bar orientation."""
import copy

from hypothesis import strategies as st

from vf import gen
from vf.common import Run, need
from vf.core import Part
from vf.meta import Map, component_map, map_settings, walk

RULE = (
    "a case counts as non-trivial if labels, order or orientation changed and at "
    "least two increments were compared"
)
ASSUMPTIONS = [
    "results are compared up to the solver tolerance, and up to the first increment at "
    "which rounding can decide (next to a bifurcation point, or after a Newton failure)"
]


@st.composite
def case_(draw, large=False):
    plastic = draw(st.booleans())
    if large:
        spec = draw(gen.large_spec(plastic=plastic, incs=(2, 3)))
    else:
        spec = draw(gen.truss_spec(
            plastic=plastic, max_steps=3,
            sett_calm=True, incs=(2, 7),
        ))
    n, e = len(spec["nodes"]), len(spec["elems"])
    what = draw(st.sampled_from(["labels", "order", "orientation", "all", "all"]))
    c = {"spec": spec, "what": what}
    ident = [x[0] for x in spec["nodes"]]
    if what in ("labels", "all"):
        top = draw(st.sampled_from([5000, 5000, 200, 10**6, 2**40]))
        low = draw(st.sampled_from([1, 1, top - 2 * max(n, e)]))  # neighbours, too
        c["nlab"] = draw(st.lists(st.integers(low, top), min_size=n, max_size=n, unique=True))
        c["elab"] = draw(st.lists(st.integers(low, top), min_size=e, max_size=e, unique=True))
    else:
        c["nlab"], c["elab"] = ident, [x["label"] for x in spec["elems"]]
    perm = lambda k: list(draw(st.permutations(list(range(k)))))  # noqa: E731
    if what in ("order", "all"):
        c["perm"] = [perm(n), perm(e), perm(len(spec["bounds"])), perm(len(spec["forces"]))]
    if what in ("orientation", "all"):
        c["flip"] = [draw(st.booleans()) for _ in range(e)]
    return c


def transform(c):
    a = c["spec"]
    b = copy.deepcopy(a)
    m = {x[0]: l for x, l in zip(a["nodes"], c["nlab"])}
    for x in b["nodes"]:
        x[0] = m[x[0]]
    for k, x in enumerate(b["elems"]):
        x["label"] = c["elab"][k]
        x["conn"] = [m[q] for q in x["conn"]]
        if c.get("flip") and c["flip"][k]:
            x["conn"] = x["conn"][::-1]
    for x in b["bounds"] + b["forces"]:
        x[0] = m[x[0]]
    eperm = list(range(len(b["elems"])))
    if c.get("perm"):
        for key, p in zip(("nodes", "elems", "bounds", "forces"), c["perm"]):
            b[key] = [b[key][q] for q in p]
        eperm = c["perm"][1]
    return b, m, eperm


def check(c):
    a = c["spec"]
    b, m, eperm = transform(c)
    from vf.ref import Ref

    qa, qb = Ref(a), Ref(b)
    nmap = [qb.idx[m[l]] for l in qa.labels]
    idx, sg = component_map(qa, qb, nmap)
    b["settings"] = map_settings(b["settings"], idx, sg)
    ra, rb = Run(a, log=1), Run(b, log=1)
    # order of nodes and bars in the results
    need([int(x) for x in rb.M.Nodes.labels] == sorted(int(x[0]) for x in b["nodes"]),
         "node results are not in ascending order of labels")
    need([int(x) for x in rb.M.Elements.labels] == [x["label"] for x in b["elems"]],
         "bar results are not in definition order")
    tags = ra.tags() + [c["what"]]
    compared, more = walk(ra, rb, Map(nmap, eperm))
    tags += more
    return compared >= 2, tags


PARTS = [
    Part("rename", case_, check, 900, 16000),
    Part("large", lambda: case_(large=True), check, 24, 800),
]
