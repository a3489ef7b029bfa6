"""One worker process: runs its share of the generated cases of one property.

usage: python -m vf.shard ID TIER SEED SHARD NSHARDS OUTDIR
Writes OUTDIR/shard-K.json (counts) and, as soon as one is found,
OUTDIR/fail-K.json (the smallest failing case so far)."""
import glob
import importlib
import json
import os
import sys
import time
import traceback

from . import env  # noqa: F401
from .core import Inconclusive, Violation, case_key, judge

import hypothesis
from hypothesis import HealthCheck, Phase, given, settings


def regress_cases(pid):
    for f in sorted(glob.glob(os.path.join(env.VERIF, "regress", pid, "*.json"))):
        with open(f) as fh:
            d = json.load(fh)
        yield os.path.basename(f), d["part"], d["case"]


def main(pid, tier, seed, shard, nshards, outdir):
    mod = importlib.import_module("props." + pid)
    st = {
        "evaluations": 0,
        "nontrivial": {},
        "tags": {},
        "samples": [],
        "violations": 0,
        "regress": 0,
        "error": None,
        "parts": {},
    }
    best = {"size": None}

    def fail(part, case, msg, origin):
        st["violations"] += 1
        size = len(json.dumps(case))
        if best["size"] is None or size <= best["size"]:
            best["size"] = size
            tmp = os.path.join(outdir, ".fail-%d" % shard)
            with open(tmp, "w") as fh:
                json.dump(
                    {
                        "property": pid,
                        "part": part.name,
                        "case": case,
                        "message": msg,
                        "origin": origin,
                        "tier": tier,
                        "seed": seed,
                        "shard": shard,
                        "nshards": nshards,
                    },
                    fh,
                    indent=1,
                )
            os.replace(tmp, os.path.join(outdir, "fail-%d.json" % shard))

    def one(part, case, origin):
        st["evaluations"] += 1
        pc = st["parts"].setdefault(part.name, [0, 0])
        pc[0] += 1
        try:
            nt, tags = judge(part, case)
        except Violation as v:
            fail(part, case, str(v), origin)
            raise
        for t in tags:
            k = part.name + ":" + t
            st["tags"][k] = st["tags"].get(k, 0) + 1
        if nt:
            key = case_key(case)
            if key not in st["nontrivial"]:
                st["nontrivial"][key] = part.name
                pc[1] += 1
                if pc[1] in (3, 9) and len(json.dumps(case)) < 4000:
                    st["samples"].append({"part": part.name, "case": case})

    parts = {p.name: p for p in mod.PARTS}
    code = 0
    try:
        for i, (name, pn, case) in enumerate(regress_cases(pid)):
            if i % nshards == shard:
                st["regress"] += 1
                try:
                    one(parts[pn], case, "regress/" + name)
                except Violation:
                    code = 1
        if code == 0:
            for ip, part in enumerate(mod.PARTS):
                total = part.quick if tier == "quick" else part.thorough
                n = total // nshards + (1 if shard < total % nshards else 0)
                if n == 0:
                    continue
                rs = (seed * 1000003 + ip * 10007 + shard * 101 + 17) % (2**63)

                @hypothesis.seed(rs)
                @settings(
                    max_examples=n,
                    database=None,
                    deadline=None,
                    derandomize=False,
                    report_multiple_bugs=False,
                    print_blob=False,
                    phases=(Phase.generate, Phase.shrink),
                    suppress_health_check=[
                        HealthCheck.too_slow,
                        HealthCheck.data_too_large,
                        HealthCheck.large_base_example,
                    ],
                )
                @given(part.strategy())
                def prop(case):
                    one(part, case, "generated")

                try:
                    prop()
                except Violation:
                    code = 1
                    break
                except BaseException as e:
                    if best["size"] is not None and not isinstance(e, Inconclusive):
                        # Hypothesis wraps failures (Flaky etc.): the failing
                        # case is on disk, the parent confirms it by replay
                        code = 1
                        st["note"] = "%s: %s" % (type(e).__name__, str(e)[:300])
                        break
                    raise
    except BaseException:
        st["error"] = traceback.format_exc()
        code = 2
    st["nontrivial"] = sorted(st["nontrivial"])
    with open(os.path.join(outdir, "shard-%d.json" % shard), "w") as fh:
        json.dump(st, fh)
    return code


if __name__ == "__main__":
    a = sys.argv[1:]
    sys.exit(main(a[0], a[1], int(a[2]), int(a[3]), int(a[4]), a[5]))
