"""The tangent stiffness is the derivative of the internal forces."""
import numpy as np
from hypothesis import strategies as st

from vf import gen
from vf.common import Run, arr, close, need, sett
from vf.core import Part

RULE = (
    "a case counts as non-trivial if the stiffness was compared at a state with "
    "non-zero displacement (direct: also non-zero bar forces); plastic states "
    "closer to the yield limit than the comparison can resolve are not compared"
)
ASSUMPTIONS = [
    "the public methods stiffness(u) and equilibrium(u, u0) of a model that was run once",
    "an increment's recorded stiffness may be that of the last but one Newton iterate",
]


def harden(draw, spec):
    """some bars with little or no hardening"""
    for e in spec["elems"]:
        if e["mtype"] == 2 and draw(st.booleans()):
            e["mat"][1] = e["mat"][0] * draw(st.sampled_from([0.0, 1e-3, 1e-5, 3.0]))
    return spec


@st.composite
def recorded_case(draw):
    return harden(draw, draw(gen.truss_spec(sett=gen.settings_dict(incs=(2, 5), calm=True), max_steps=3)))


@st.composite
def direct_case(draw):
    spec = draw(
        gen.truss_spec(
            max_steps=2,
            sett=gen.settings_dict(incs=(1, 4), calm=True),
            xlimit=False,
            fixed_control=False,
        )
    )
    harden(draw, spec)
    spec["settings"].pop("incs", None)
    spec["settings"]["incs"] = draw(st.integers(1, 4))
    n = sum(map(sum, [b for _, b in spec["bounds"]])) + 3 * (
        len(spec["nodes"]) - len(spec["bounds"])
    )
    return {
        "spec": spec,
        "u": [draw(st.integers(-40, 40)) / 80 for _ in range(n)],
        "scale": draw(st.sampled_from([1.0, 0.1, 0.01, 3.0])),
        "from": draw(st.sampled_from(["zero", "last"])),
    }


def scale_of(K):
    return max(np.abs(K).max(), 1e-300)


def check_direct(case):
    spec = case["spec"]
    run = Run(spec)
    ref, M = run.ref, run.M
    tags = run.tags()
    if run.n == 0 or run.steps[-1] != sett(spec, "nsteps"):
        return False, tags + ["no increment in the last step"]
    last = run.R[-1]
    u = case["scale"] * np.array(case["u"])
    u0 = arr(last.U).ravel()[ref.dof1]
    if case["from"] == "last":
        u = u0 + u
    state = None
    for *_, new, dist in run.replay():
        state = new
    # bars must keep a length the stiffness is smooth at
    U = ref.full(u)
    l, n, lam = ref.kin(U)
    if lam.min() < 0.05:
        return False, tags + ["collapsed bar"]
    s, ds, new, dist = ref.material(lam, state)
    # the state the model itself works with after the run is the last accepted one

    def g(v, lpf=float(last.lpf)):
        return arr(M.equilibrium(np.append(v, lpf), np.append(u0, lpf))).copy()

    K = arr(M.stiffness(u.copy())).copy()
    need(K.shape == (len(u), len(u)), "shape of the stiffness %s", K.shape)
    Kr = ref.Kred(U, state)
    sc = scale_of(Kr)
    smooth = np.abs(dist[ref.mtype == 2]).min(initial=np.inf) > 1e-6 * ref.E.max()
    need(np.abs(K - K.T).max() <= 1e-9 * sc, "stiffness is not symmetric")
    if smooth:
        close(K, Kr, 0, 1e-8 * sc + 1e-14 * (ref.E * ref.A / ref.L).max(), "stiffness against the reference tangent")
        # directional derivatives of the model's own out-of-balance force
        h = 1e-6 * min(1.0, l.min())
        margin = np.abs(dist[ref.mtype == 2]).min(initial=np.inf)
        if margin > 20 * h * (ref.E / ref.L).max():
            D = np.column_stack(
                [-(g(u + h * e) - g(u - h * e)) / (2 * h) for e in np.eye(len(u))]
            )
            fs = np.abs(s * ref.A).max() + np.abs(run.load(run.n)).max()
            # (rounding of the trial stress remains in the force of a yielding bar)
            trial = (ref.E * ref.A * (1 + lam)).max()
            tol = 1e-6 * sc + 1e-9 * fs / h * 1e-6 + 50 * h * sc / l.min() + 4e-15 * trial / h
            close(K, D, 0, tol, "stiffness against differences of the out-of-balance force")
            tags.append("differences")
    r0 = ref.internal(U, s * ref.A)
    f = run.load(run.n)
    gr = (f - r0).ravel()[ref.dof1]
    close(g(u), gr, 1e-8, 1e-9 * (np.abs(s * ref.A).max() + np.abs(f).max()),
          "out-of-balance force")
    df = run.ref.F[-1].ravel()[ref.dof1]
    close(g(u, float(last.lpf) + 1.0) - g(u), df, 1e-8,
          1e-9 * (np.abs(s * ref.A).max() + np.abs(f).max() + np.abs(df).max()),
          "derivative of the out-of-balance force with respect to the load factor")
    if (ds[ref.mtype == 2] < ref.E[ref.mtype == 2]).any():
        tags.append("yielding bar")
    if case["scale"] >= 1:
        tags.append("large displacement")
    return smooth and np.abs(s).max() > 1e-9, tags


def check_recorded(spec):
    run = Run(spec)
    ref = run.ref
    ok = False
    tags = run.tags()
    xt = 10.0 ** -sett(spec, "xtol")
    for i, x, lam, s, ds, st0, st1, dist in run.replay():
        margin = np.abs(dist[ref.mtype == 2]).min(initial=np.inf)
        if margin < 10 * xt * (ref.E / ref.L).max() + 1e-9:
            tags.append("too close to yield")
            continue
        l, n, _ = ref.kin(x.U)
        Kr = ref.tangent(x.U, s * ref.A, ds)
        sc = scale_of(Kr)
        tol = 1e-9 * sc + 60 * xt * sc / min(l.min(), ref.L.min(), 1.0) * (
            1 + np.abs(lam - 1).max()
        )
        kr = Kr[np.ix_(ref.dof1, ref.dof1)]
        close(x.Kred, kr, 0, tol, "increment %d: recorded reduced stiffness", i)
        K4 = arr(x.K)
        close(
            K4.transpose(0, 2, 1, 3).reshape(3 * ref.nn, 3 * ref.nn), Kr, 0, tol,
            "increment %d: recorded stiffness", i,
        )
        fr = ref.F[run.steps[i] - 1].ravel()[ref.dof1]
        Km = arr(x.Kmod)
        m = len(fr)
        close(Km[:m, :m], kr, 0, tol, "increment %d: extended stiffness", i)
        close(Km[:m, m], -fr, 1e-13, 0, "increment %d: load column", i)
        row = Km[m]
        need(
            (row != 0).sum() == 1 and row.max() == 1,
            "increment %d: control row %s", i, row,
        )
        # the control component moved by its limit
        j = int(np.argmax(row))
        d = run.x(i) - run.x_before(i)
        dv = arr(x.dVmax)
        need(
            abs(abs(d[j]) - dv[j]) <= 1e-6 * dv[j] + 10.0 ** -sett(spec, "ftol"),
            "increment %d: component %d of the control row did not move by its limit", i, j,
        )
        ok = True
    return ok, tags


PARTS = [
    Part("direct", direct_case, check_direct, 1200, 20000),
    Part("recorded", recorded_case, check_recorded, 800, 12000),
    Part("large", lambda: gen.large_spec(), check_recorded, 24, 800),
]
