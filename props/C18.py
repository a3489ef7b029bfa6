"""A movie contains one frame per requested increment, in order."""
import contextlib
import io
import os
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from vf import gen
from vf.build import make, solve
from vf.common import need, same_snapshot, snapshot
from vf.core import Part

RULE = (
    "a case counts as non-trivial if a movie with at least two different frames was made"
)
ASSUMPTIONS = [
    "pictures are written with a lower resolution than the code asks for, to save time",
    "a frame of the animation (256 colours) is compared with the pictures by the mean "
    "difference of the pixels: it must be next to the picture of its own increment",
    "long runs are histories whose list of increments is repeated",
]
DPI = 24
DEFAULT = {"view": "xz", "contour": None, "lim_scale": 1.2, "force_scale": 0.5, "nodesize": 10}


@st.composite
def case_(draw):
    spec = draw(gen.truss_spec(incs=(2, 5), max_free=2, max_steps=2, sett_calm=True, xlimit=False))
    movies = []
    for _ in range(draw(st.integers(1, 2))):
        how = draw(st.sampled_from(["all", "some", "some", "range", "long"]))
        if how == "some":
            incs = draw(st.lists(st.integers(0, 6), min_size=1, max_size=4, unique=True))
        elif how == "range":
            a = draw(st.integers(0, 3))
            incs = [a, a + draw(st.integers(1, 3))]
        elif how == "long":
            incs = draw(st.lists(st.sampled_from([2, 9, 10, 98, 99, 100, 101, 998, 999, 1000, 1001, 1002, 1100]),
                                 min_size=2, max_size=5, unique=True))
        else:
            incs = None
        movies.append({
            "how": how, "incs": incs,
            "view": draw(st.sampled_from(["xz", "xy", "yz", "3d"])),
            "contour": draw(st.sampled_from([None, None, "force", "stretch"])),
            "kw": draw(st.sampled_from([{}, {}, {"duration": 500}, {"duration": 1200}, {"loop": 0}])),
            "box": draw(st.sampled_from(["list", "tuple", "array"])),
            "old": draw(st.booleans()),
            "limits": draw(st.sampled_from([None, None, [-0.5, 0.5], [0.5, 1.5]])),
            "omit": draw(st.sampled_from([[], [], ["view"], ["contour"], ["lim_scale", "force_scale", "nodesize"],
                                          ["view", "contour", "force_scale"]])),
        })
    return {"spec": spec, "movies": movies}


@contextlib.contextmanager
def small_pictures():
    from matplotlib.figure import Figure

    real = Figure.savefig

    def save(self, fname, **kw):
        kw["dpi"] = DPI
        return real(self, fname, **kw)

    Figure.savefig = save
    try:
        yield
    finally:
        Figure.savefig = real


def picture(path):
    import imageio

    a = np.asarray(imageio.v2.imread(path))
    return a[..., :3].astype(int)


def tree(d):
    return sorted(os.path.relpath(os.path.join(p, f), d) for p, _, ff in os.walk(d) for f in ff)


def check(c):
    import imageio
    import matplotlib.pyplot as plt

    M = make(c["spec"])
    solve(M)
    n0 = len(M.Results.R)
    if n0 < 2:
        return False, ["no increment"]
    cwd = os.getcwd()
    d = tempfile.mkdtemp(prefix="vf_movie_")
    nt = False
    tags = set()
    try:
        os.chdir(d)
        with open("keep.txt", "w") as fh:
            fh.write("keep")
        os.mkdir("ref")
        for m in c["movies"]:
            rows = list(M.Results.R)
            if m["how"] == "long":
                M.Results.R = (rows + rows[1:] * (1 + 1101 // (n0 - 1)))[:1101]
            n = len(M.Results.R)
            kw = dict(view=m["view"], contour=m["contour"], lim_scale=1.3, force_scale=0.75,
                      nodesize=8, **m["kw"])
            if m["limits"] and m["contour"]:
                kw["cbar_limits"] = m["limits"]
            # what is left out has its default
            full = dict({"cbar_limits": "auto"}, **{k: kw[k] for k in kw if k not in m["kw"]})
            for k in m["omit"]:
                del kw[k]
                full[k] = DEFAULT[k]
            if m["omit"]:
                tags.add("defaults")
            if m["how"] == "all":
                want = list(range(1, n))
            elif m["how"] == "range":
                a, b = m["incs"]
                a = min(a, n - 1)
                kw["incs"] = range(a, min(b, n) if min(b, n) > a else a + 1)
                want = list(kw["incs"])
            else:
                want = [i for i in m["incs"] if i < n] or [n - 1]
                kw["incs"] = {"list": list, "tuple": tuple, "array": np.array}[m["box"]](want)
                tags.add("given as " + m["box"])
            if m["old"]:
                # left over from something else
                os.makedirs("figures/png", exist_ok=True)
                os.makedirs("figures/gif", exist_ok=True)
                for f in ("figures/png/fig_004.png", "figures/png/fig_777.png", "figures/png/old.png"):
                    plt.figure().savefig(f, dpi=10)
                with open("figures/gif/movie.gif", "w") as fh:
                    fh.write("old")
                plt.close("all")
                tags.add("replaces older pictures")
            before = snapshot(M) if n < 50 else None
            with small_pictures(), contextlib.redirect_stdout(io.StringIO()):
                M.plot_movie(**kw)
            plt.close("all")
            if before is not None:
                same_snapshot(before, snapshot(M), "results after a movie")
            want = sorted(want)
            names = {i: "figures/png/fig_%03d.png" % i for i in want}
            files = [f for f in tree(".") if not f.startswith("ref")]
            expect = sorted(list(names.values()) + ["figures/gif/movie.gif", "keep.txt"])
            need(files == expect, "movie of increments %s wrote %s", want, files)
            pics = []
            for i in want:
                p = picture(names[i])
                with contextlib.redirect_stdout(io.StringIO()):
                    fig, ax = M.plot_model(inc=i, **full)
                fig.savefig("ref/x.png", dpi=DPI)
                plt.close("all")
                q = picture("ref/x.png")
                need(p.shape == q.shape and np.abs(p - q).max() <= 2, "picture %s is not that of increment %d", names[i], i)
                pics.append(p)
            if "duration" in m["kw"]:
                from PIL import Image

                with Image.open("figures/gif/movie.gif") as im:
                    got = im.info.get("duration")
                need(got == m["kw"]["duration"], "each frame is shown for %s, asked for %s", got, m["kw"]["duration"])
                tags.add("duration")
            frames = [np.asarray(f)[..., :3].astype(int) for f in imageio.v2.mimread("figures/gif/movie.gif", memtest=False)]
            need(len(frames) == len(want), "%d frames for %d increments %s", len(frames), len(want), want)
            for k, f in enumerate(frames):
                need(f.shape == pics[k].shape, "frame %d has the size %s", k, f.shape)
                dist = [np.abs(f - p).mean() for p in pics]
                need(dist[k] <= min(dist) + 0.05, "frame %d of increments %s looks like increment %d", k, want, want[int(np.argmin(dist))])
                need(dist[k] <= 12, "frame %d is not the picture of increment %d", k, want[k])
            if len(want) > 1 and any(np.abs(pics[0] - p).max() > 0 for p in pics[1:]):
                nt = True
            tags |= {m["how"], "view " + m["view"], "frames:%d" % min(len(want), 6)}
            M.Results.R = rows
        return nt, sorted(tags)
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)


PARTS = [Part("movie", case_, check, 160, 2400)]
