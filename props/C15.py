"""Logging never changes results and a log file captures exactly the output."""
import contextlib
import io
import os
import shutil
import sys
import tempfile
from collections import Counter

from hypothesis import strategies as st

from vf import gen
from vf.build import fill, tp
from vf.common import need, same_snapshot, snapshot
from vf.core import Part

RULE = (
    "a case counts as non-trivial if the model recorded at least one loaded increment "
    "(levels), or wrote a log file with more than one line (file)"
)
ASSUMPTIONS = [
    "lines with measured times and the markdown fence of the title differ between runs "
    "with and without a log file and are not compared",
    "one model with a log file is open at a time",
]


class Boom(Exception):
    pass


SPEC = dict(incs=(1, 5), max_free=2, max_steps=3)


@st.composite
def level_case(draw):
    hard = draw(st.booleans())
    return {"spec": draw(gen.hard_spec(incs=(1, 4), max_free=2) if hard else gen.truss_spec(**SPEC))}


@st.composite
def file_case(draw):
    hard = draw(st.booleans())
    return {
        "spec": draw(gen.hard_spec(incs=(1, 4), max_free=2) if hard else gen.truss_spec(**SPEC)),
        "log": draw(st.integers(0, 3)),
        "name": draw(st.sampled_from(["analysis", None, "a b", "sub/model.1", "log.md", "x" * 40])),
        "fail": draw(st.sampled_from([None, None, 1, 2, 5, 9, 20])),
        "existing": draw(st.booleans()),
        "twice": draw(st.booleans()),
    }


def inject(M, k):
    real = M.equilibrium
    count = [0]

    def eq(*a, **kw):
        count[0] += 1
        if count[0] >= k:
            raise Boom()
        return real(*a, **kw)

    M.equilibrium = eq


def whole(spec, fail=None, **kw):
    """create, fill, build and run; (model, printed text, failed)"""
    buf = io.StringIO()
    failed = False
    with contextlib.redirect_stdout(buf):
        M = tp.Model(**kw)
        fill(M, spec)
        M.build()
        if fail:
            inject(M, fail)
        try:
            M.run()
        except Boom:
            failed = True
        stray = sys.stdout is not buf
    need(not stray, "standard output is not in place again after the run%s",
         " that failed" if failed else "")
    return M, buf.getvalue(), failed


def check_levels(c):
    ref = None
    lines = []
    lost = None
    for log in (0, 1, 2, 3):
        M, out, _ = whole(c["spec"], log=log)
        s = snapshot(M)
        if ref is None:
            ref = s
        same_snapshot(ref, s, "log level %d" % log)
        lines.append((len(out.splitlines()), len(out)))
        words = Counter(normal(out))
        if lost is not None:
            lost = lost - words
            need(not lost, "level %d does not print %r, a lower one does", log, list(lost)[:3])
        lost = words
    for a, b in zip(lines, lines[1:]):
        need(a[0] <= b[0] and a[1] <= b[1], "a higher log level prints less: %s", lines)
    need(lines[2][0] > lines[0][0], "log level 2 prints nothing")
    tags = ["kind:" + c["spec"]["kind"]]
    if c["spec"]["settings"].get("nsteps", 1) > 1:
        tags.append("several steps")
    return len(ref) > 1, tags


def normal(text):
    return [l.rstrip() for l in text.splitlines()
            if l.strip() != "```" and "wall time" not in l and "cpu time" not in l]


def check_file(c):
    spec, log, fail = c["spec"], c["log"], c["fail"]
    cwd = os.getcwd()
    d = tempfile.mkdtemp(prefix="vf_log_")
    try:
        os.chdir(d)
        os.mkdir("sub")
        name = c["name"] or "analysis"
        if c["existing"]:
            with open(name + ".md", "w") as fh:
                fh.write("old text\n" * 5000)
        P, text, pf = whole(spec, fail, log=log)
        need(sorted(os.listdir(".")) == sorted(["sub"] + ([name + ".md"] if c["existing"] and "/" not in name else [])),
             "a model without log file wrote files: %s", os.listdir("."))
        kw = {} if c["name"] is None else {"logfile_name": name}
        for _ in range(2 if c["twice"] else 1):
            L, out, lf = whole(spec, fail, log=log, logfile=True, **kw)
            need(lf == pf, "only one of the runs failed")
            need(out == "", "printed to the screen with a log file: %r", out[:200])
            need(os.path.isfile(name + ".md"), "there is no log file %s.md", name)
            with open(name + ".md") as fh:
                got = fh.read()
            a, b = normal(got), normal(text)
            if a != b:
                k = next((k for k, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
                need(False, "line %d of the log file is %r, printed is %r", k + 1,
                     (a + ["<end>"])[min(k, len(a))], (b + ["<end>"])[min(k, len(b))])
            if not pf:
                same_snapshot(snapshot(P), snapshot(L), "model with log file")
        files = [os.path.join(p, f) for p, _, ff in os.walk(".") for f in ff]
        need(len(files) == 1, "files written: %s", files)
        return len(a) > 1, ["log:%d" % log, "failed" if pf else "finished"]
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)


PARTS = [
    Part("levels", level_case, check_levels, 350, 6000),
    Part("file", file_case, check_file, 700, 12000),
]
