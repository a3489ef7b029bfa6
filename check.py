#!/opt/venv/bin/python
"""check.py ID            run the check of one property (VERIF_SEED, VERIF_TIER)
check.py ID --replay F   run one saved case

Exit 0: held on everything explored.  Exit 1 with a VIOLATION line: broken.
Exit 2: the check itself failed."""
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
os.environ.setdefault("PYTHONHASHSEED", "0")
from vf import env  # noqa: E402

SHRINK_GRACE = 40  # seconds left to shrink after the first failure


def known_findings():
    p = os.path.join(HERE, "known_findings.json")
    if os.path.exists(p):
        with open(p) as f:
            return json.load(f)
    return []


def replay(pid, path):
    from vf.core import Violation, judge

    mod = importlib.import_module("props." + pid)
    with open(path) as f:
        d = json.load(f)
    part = {p.name: p for p in mod.PARTS}[d["part"]]
    try:
        judge(part, d["case"])
    except Violation as v:
        print("replay fails: %s" % v)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    print("replay passes")
    return 0


def run(pid):
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    nsh = int(os.environ.get("VERIF_SHARDS", "8"))
    t0 = time.time()
    mod = importlib.import_module("props." + pid)
    out = tempfile.mkdtemp(prefix="vf_%s_" % pid)
    envv = dict(os.environ)
    envv["PYTHONPATH"] = HERE
    envv["PYTHONDONTWRITEBYTECODE"] = "1"
    procs = []
    try:
        for k in range(nsh):
            scratch = os.path.join(out, "cwd-%d" % k)
            os.mkdir(scratch)
            procs.append(
                subprocess.Popen(
                    [sys.executable, "-W", "ignore", "-m", "vf.shard", pid, tier,
                     str(seed), str(k), str(nsh), out],
                    cwd=scratch, env=envv,
                    stdout=subprocess.DEVNULL, stderr=open(os.path.join(out, "err-%d" % k), "w"),
                )
            )
        first = None
        while any(p.poll() is None for p in procs):
            time.sleep(0.05)
            if first is None and any(
                os.path.exists(os.path.join(out, "fail-%d.json" % k)) for k in range(nsh)
            ):
                first = time.time()
            if first is not None:
                # let the shard(s) that failed shrink, stop the others
                for k, p in enumerate(procs):
                    if p.poll() is None and (
                        not os.path.exists(os.path.join(out, "fail-%d.json" % k))
                        or time.time() - first > SHRINK_GRACE
                    ):
                        p.kill()
                        p.wait()
        fails = []
        for k in range(nsh):
            f = os.path.join(out, "fail-%d.json" % k)
            if os.path.exists(f):
                with open(f) as fh:
                    fails.append((len(fh.read()), f))
        ev = {"evaluations": 0, "nt": set(), "tags": {}, "samples": [], "regress": 0,
              "parts": {}}
        errors = []
        for k, p in enumerate(procs):
            f = os.path.join(out, "shard-%d.json" % k)
            if not os.path.exists(f):
                if not fails:
                    with open(os.path.join(out, "err-%d" % k)) as fh:
                        errors.append("shard %d ended with %s\n%s" % (k, p.returncode, fh.read()[-3000:]))
                continue
            with open(f) as fh:
                s = json.load(fh)
            ev["evaluations"] += s["evaluations"]
            ev["regress"] += s["regress"]
            ev["nt"] |= set(s["nontrivial"])
            for t, c in s["tags"].items():
                ev["tags"][t] = ev["tags"].get(t, 0) + c
            for n, (a, b) in s["parts"].items():
                x = ev["parts"].setdefault(n, [0, 0])
                x[0] += a
                x[1] += b
            ev["samples"] += s["samples"]
            if s["error"]:
                errors.append(s["error"])
        violation = None
        if fails:
            os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
            for size, f in sorted(fails):
                with open(f) as fh:
                    d = json.load(fh)
                dst = os.path.join(HERE, "replays", "%s-seed%d-shard%d.json" % (pid, seed, d["shard"]))
                shutil.copy(f, dst)
                r = subprocess.run(
                    [sys.executable, "-W", "ignore", os.path.join(HERE, "check.py"), pid, "--replay", dst],
                    cwd=os.path.join(out, "cwd-0"), env=envv, capture_output=True, text=True,
                )
                confirmed = r.returncode == 1
                violation = (dst, d["message"], confirmed)
                if confirmed:
                    break
        parts_seen = sorted(ev["samples"], key=lambda s: s["part"])
        samples, seen = [], {}
        for s in parts_seen:
            if seen.setdefault(s["part"], 0) < 2:
                seen[s["part"]] += 1
                samples.append(s)
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as fh:
            json.dump(
                {
                    "property": pid,
                    "tier": tier,
                    "seed": seed,
                    "level": "exploration",
                    "coverage": {
                        "evaluations": ev["evaluations"],
                        "distinct_nontrivial": len(ev["nt"]),
                        "rule": mod.RULE,
                        "samples": samples,
                        "regression_cases": ev["regress"],
                        "per_part": {
                            n: {"evaluations": a, "distinct_nontrivial": b}
                            for n, (a, b) in sorted(ev["parts"].items())
                        },
                        "classes": dict(sorted(ev["tags"].items())),
                    },
                    "assumptions": getattr(mod, "ASSUMPTIONS", []),
                    "wall_s": round(time.time() - t0, 2),
                    "violations": 1 if violation else 0,
                },
                fh,
                indent=1,
            )
        print(
            "%s %s seed=%d: %d evaluations, %d distinct non-trivial, %d saved cases, %.1f s"
            % (pid, tier, seed, ev["evaluations"], len(ev["nt"]), ev["regress"], time.time() - t0)
        )
        for kf in known_findings():
            if kf.get("property") == pid and kf.get("status") == "known":
                print("KNOWN-FINDING: property=%s %s" % (pid, kf["what"]))
        if violation:
            dst, msg, confirmed = violation
            print(msg)
            if not confirmed:
                print("(the case fails inside its campaign but not when replayed alone: state leaks between models)")
            print("VIOLATION property=%s replay=%s" % (pid, dst))
            return 1
        if errors:
            sys.stderr.write("\n".join(errors) + "\n")
            return 2
        return 0
    finally:
        for p in procs:
            if p.poll() is None:
                p.kill()
        shutil.rmtree(out, ignore_errors=True)


if __name__ == "__main__":
    pid = sys.argv[1]
    try:
        if "--replay" in sys.argv:
            code = replay(pid, os.path.abspath(sys.argv[sys.argv.index("--replay") + 1]))
        else:
            code = run(pid)
    finally:
        shutil.rmtree(os.environ.get("VF_MPLDIR", "/nonexistent"), ignore_errors=True)
    sys.exit(code)
